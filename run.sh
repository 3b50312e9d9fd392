#!/bin/bash
# run.sh ID quick|thorough: builds the checker against /repo's working tree and
# runs one check. run.sh build: only builds. run.sh replay FILE: replays.
ROOT="$(cd "$(dirname "$0")" && pwd)"
export MC_ROOT="$ROOT"
export HOME="${HOME:-/root}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GOFLAGS=-mod=mod GOSUMDB=off
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p "$ROOT/.build" "$ROOT/evidence" "$ROOT/replays"
build() {
	(cd "$ROOT/mc" && go build -o "$ROOT/.build/mc" ./cmd/mc) || { echo "build failed" >&2; exit 2; }
}
# The concurrency check runs instrumented builds, one of them under the race
# detector. If the library cannot be instrumented, fewer scheduling points are
# used.
buildsched() {
	cd "$ROOT/mc" && go build -o "$ROOT/.build/instr" ./cmd/instr || { echo "build failed" >&2; exit 2; }
	local level
	rm -f "$ROOT/.build/mcsched" "$ROOT/.build/mcrace"
	for level in 2 1 0; do
		rm -rf "$ROOT/.build/overlay"
		"$ROOT/.build/instr" /repo "$ROOT/.build/overlay" $level &&
			go build -tags sched -overlay "$ROOT/.build/overlay/overlay.json" -o "$ROOT/.build/mcsched" ./cmd/mc 2>"$ROOT/.build/sched.log" && break
	done
	[ -x "$ROOT/.build/mcsched" ] || { cat "$ROOT/.build/sched.log" >&2; echo "build failed" >&2; exit 2; }
	go build -race -tags sched -overlay "$ROOT/.build/overlay/overlay.json" -o "$ROOT/.build/mcrace" ./cmd/mc || { echo "no race detector" >&2; exit 2; }
	cd "$ROOT"
}
case "$1" in
build) build; exit 0 ;;
replay)
	if grep -q '"Property": "C23"' "$2"; then buildsched; exec "$ROOT/.build/mcsched" replay "$2"; fi
	build; exec "$ROOT/.build/mc" replay "$2" ;;
esac
[ -n "$2" ] && export VERIF_TIER="$2"
if [ "$1" = C23 ]; then buildsched; exec "$ROOT/.build/mcsched" check C23; fi
build
exec "$ROOT/.build/mc" check "$1"
