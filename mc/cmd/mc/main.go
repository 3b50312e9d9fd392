// Command mc runs the checks.
//
//	mc check ID   run a check in a child process; a crash of the child is a violation
//	mc run ID     run a check in this process
//	mc replay F   run the execution recorded in a replay file
//	mc list       list the checks
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"syscall"
	"time"

	"verif/mc/checks"
	"verif/mc/explore"
)

func root() string {
	if r := os.Getenv("MC_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func tier() string {
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		return t
	}
	return "quick"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|run|replay|list ...")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	switch os.Args[1] {
	case "list":
		for _, id := range checks.IDs() {
			fmt.Printf("%s\t%s\t%s\n", id, checks.Get(id).Technique, checks.Get(id).Note)
		}
	case "run":
		if f := os.Getenv("MC_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
			checks.Execute(checks.Options{ID: os.Args[2], Tier: tier(), Root: root(), Only: os.Args[3], NoEvidence: true})
			return
		}
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		os.Exit(checks.Execute(checks.Options{ID: os.Args[2], Tier: tier(), Root: root(), SlotFile: os.Getenv("MC_SLOTS"), Only: only}))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		var v explore.Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(checks.Execute(checks.Options{ID: v.Property, Tier: v.Tier, Root: root(), Replay: &v}))
	case "literals":
		fmt.Print(checks.DumpLiterals())
	case "check":
		os.Exit(check(os.Args[2]))
	case "child":
		checks.Child(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func spawn(env []string, args ...string) (code int, out string) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var b tail
	cmd.Stdout = os.Stdout
	cmd.Stderr = &b
	if err := cmd.Start(); err != nil {
		return 2, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 300 * time.Second
	if tier() == "thorough" {
		limit = 880 * time.Second
	}
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return -1, "time limit"
	}
	os.Stderr.WriteString(b.String())
	return cmd.ProcessState.ExitCode(), b.String()
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(append([]byte{}, t.b[:1<<15]...), t.b[len(t.b)-(1<<15):]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func check(id string) int {
	dir, err := os.MkdirTemp("", "mc-slots-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	slots := filepath.Join(dir, "slots")
	code, out := spawn([]string{"MC_SLOTS=" + slots}, "run", id)
	if code == 0 || code == 1 {
		return code
	}
	if out == "time limit" || strings.Contains(out, "no check ") || strings.Contains(out, "panic: model:") || strings.Contains(out, "HARNESS") {
		return 2
	}
	// The process died (stack overflow, concurrent map access, out of memory):
	// find the execution that kills it.
	fmt.Printf("note: the exploring process ended with status %d\n", code)
	for _, v := range explore.ReadSlots(slots) {
		v.Property, v.Tier, v.Key, v.Kind, v.Msg = id, tier(), "crash", "crash", "the process dies: "+clip(out)
		p := v.Save(filepath.Join(root(), "replays"))
		dead := 0
		for i := 0; i < 3; i++ {
			if c, _ := spawn(nil, "replay", p); c != 0 && c != 1 {
				dead++
			} else if c == 1 {
				return 1
			} else {
				break
			}
		}
		if dead == 3 {
			fmt.Printf("violation: %s\nVIOLATION property=%s replay=%s\n", v.Msg, id, p)
			return 1
		}
	}
	code2, out2 := spawn(nil, "run", id)
	if code2 == 0 || code2 == 1 {
		return code2
	}
	v := explore.Violation{Property: id, Tier: tier(), Key: "crash", Kind: "history", Space: "*", Msg: "the process dies repeatedly: " + clip(out2)}
	p := v.Save(filepath.Join(root(), "replays"))
	fmt.Printf("violation: %s\nVIOLATION property=%s replay=%s\n", v.Msg, id, p)
	return 1
}

func clip(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}
