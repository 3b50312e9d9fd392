package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"verif/mc/explore"
)

func init() {
	register("C23", "stateless exploration of all schedules of 2 and 3 concurrent operations up to a preemption bound, under a cooperative scheduler on an instrumented build, with the race detector watching every schedule", "stateless exploration of the real code: every schedule within the preemption bound is run; every operation must give the result it gives alone", c23)
}

type concResult struct {
	Points  int
	Results []string
	Panics  []string
	Stuck   bool
}

type raceResult struct {
	Pairs        int
	Pair, Report string
}

func init() {
	children["conc"] = func(args []string) int {
		var i, j, k int
		fmt.Sscan(strings.Join(args, " "), &i, &j, &k)
		ops := allOps()
		var r concResult
		sp := &explore.Space{Name: "cold", Bound: 1, Body: func(x *explore.X) {
			s, _, fins := startOps(x, true, newOpEnv(os.Getenv("MC_ECHO"), "", ""), ops[i], ops[j])
			r.Points, r.Stuck = s.firstPoints, s.stuck
			for t := range fins {
				if s.panics[t] != nil {
					r.Panics = append(r.Panics, fmt.Sprint(s.panics[t], "\n", s.panics[2+t]))
					r.Results = append(r.Results, "")
				} else {
					r.Panics = append(r.Panics, "")
					r.Results = append(r.Results, fins[t]())
				}
			}
		}}
		var picks []explore.Pick
		if k > 0 {
			picks = []explore.Pick{{Pos: k, N: 2, C: 1, Label: "preempt"}}
		}
		if _, f, div := explore.Exec(sp, picks, nil, false); (f != nil || div != "") && !r.Stuck {
			fmt.Fprintln(os.Stderr, "child:", f, div)
			return 3
		}
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
		return 0
	}
	children["race"] = func(args []string) int {
		var i int
		fmt.Sscan(args[0], &i)
		ops := allOps()
		var r raceResult
		// first the operation beside itself, in a fresh process
		order := [][2]int{{i, i}}
		for j := range ops {
			order = append(order, [2]int{i, j})
		}
		for _, p := range order {
			for swap := 0; swap < 2; swap++ {
				var picks []explore.Pick
				if swap == 1 {
					picks = []explore.Pick{{Pos: 0, N: 2, C: 1, Label: "next"}}
				}
				races := raceErrors()
				sp := &explore.Space{Name: "race", Body: func(x *explore.X) {
					_, _, fins := startOps(x, false, newOpEnv(os.Getenv("MC_ECHO"), "", ""), ops[p[0]], ops[p[1]])
					for _, f := range fins {
						if f != nil {
							f()
						}
					}
				}}
				if _, f, div := explore.Exec(sp, picks, nil, false); f != nil || div != "" {
					fmt.Fprintln(os.Stderr, "child:", f, div)
					return 3
				}
				r.Pairs++
				if raceErrors() > races {
					r.Pair = fmt.Sprintf("%s beside %s", ops[p[0]].name, ops[p[1]].name)
					r.Report = "(see the race detector's report)"
					break
				}
			}
			if r.Pair != "" {
				break
			}
		}
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
		return 0
	}
}

// runChild runs a helper process; what it reports on its standard error is
// added to its output when it fails or reports a race.
func runChild(exe string, args ...string) (string, error) {
	cmd := exec.Command(exe, append([]string{"child"}, args...)...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0", "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err != nil {
		return o.String() + e.String(), fmt.Errorf("the process ends: %v", err)
	}
	out := o.String()
	if i := strings.Index(e.String(), "WARNING: DATA RACE"); i >= 0 && args[0] == "race" {
		var r raceResult
		if json.Unmarshal(o.Bytes(), &r) == nil {
			r.Report = e.String()[i:]
			if j := strings.Index(r.Report, "=================="); j > 0 {
				r.Report = r.Report[:j]
			}
			b, _ := json.Marshal(r)
			out = string(b)
		}
	}
	return out, nil
}

func ident(i int) string { return fmt.Sprintf("user%c", 'A'+i) }

// startOps runs operations side by side.
func startOps(x *explore.X, fine bool, e *opEnv, list ...op) (*scheduler, []string, []func() string) {
	var names []string
	var bodies []func()
	fins := make([]func() string, len(list))
	for i, o := range list {
		f := o.prep(e, ident(i))
		i := i
		names = append(names, fmt.Sprintf("%d (%s)", i, o.name))
		bodies = append(bodies, func() { fins[i] = f() })
	}
	return runThreads(x, fine, names, bodies), names, fins
}

func c23(c *Ctx) {
	c.Extra["instrumented"] = instrumented
	if b, err := os.ReadFile(filepath.Join(c.Root, ".build", "overlay", "points.txt")); err == nil {
		c.Extra["scheduling_points_in_library"] = strings.TrimSpace(string(b))
	}
	c.Assume = append(c.Assume, "scheduling points: every statement of the library that works on shared state (clients, changing package-level variables, synchronization), every read of a source, transport, response body and message of the caller; between two of them the race detector stands in", "the operations on one request or response object do not overlap")
	p := c.newPKI()
	addr := c.newEcho(p.ecdsaCert)
	ops := allOps()
	env := func() *opEnv { return newOpEnv(addr, "", "") }
	var mu sync.Mutex
	solo := map[string]string{}
	alone := func(o op, i int) string {
		k := fmt.Sprint(o.name, i)
		mu.Lock()
		defer mu.Unlock()
		if _, ok := solo[k]; !ok {
			solo[k] = o.prep(env(), ident(i))()()
		}
		return solo[k]
	}
	for _, o := range ops {
		for i := 0; i < 3; i++ {
			alone(o, i)
		}
	}
	run := func(x *explore.X, fine bool, list ...op) {
		s, names, fins := startOps(x, fine, env(), list...)
		sched := strings.Join(s.trace, "; ")
		if sched == "" {
			sched = "one after the other"
		}
		for i, o := range list {
			if s.panics[i] != nil {
				x.Fail("panic", "%s panics with %s running beside it (%s): %v\n%v", names[i], names, sched, s.panics[i], s.panics[len(list)+i])
			}
			got, want := fins[i](), alone(o, i)
			if got != want {
				x.Fail("result", "%s, with %s running beside it (%s), gives\n%s\ninstead of\n%s", names[i], names, sched, clip(got), clip(want))
			}
		}
		x.State(strings.Join(names, "|"), sched)
		x.Sample(fmt.Sprintf("%s: %s; %d points", names, sched, s.points))
		if s.stuck {
			x.Skip()
		}
	}
	// every pair, stopping where the operations meet the outside world
	pair := func(x *explore.X, fine bool, keep func(op) bool) {
		var in []op
		for _, o := range ops {
			if keep(o) {
				in = append(in, o)
			}
		}
		i := x.Choose("first", len(in))
		j := x.Choose("second", len(in))
		if j < i {
			x.Skip()
		}
		run(x, fine, in[i], in[j])
	}
	all := func(op) bool { return true }
	local := func(o op) bool { return !o.net }
	// in fresh processes: nothing is warmed up
	os.Setenv("MC_ECHO", addr)
	exe, err := os.Executable()
	if err != nil {
		panic("model: " + err.Error())
	}
	var pmu sync.Mutex
	points := map[string]int{}
	cold := func(x *explore.X, i, j, k int) concResult {
		var r concResult
		out, err := runChild(exe, "conc", fmt.Sprint(i), fmt.Sprint(j), fmt.Sprint(k))
		if err != nil {
			x.Fail("crash", "%s beside %s in a fresh process: %v\n%s", ops[i].name, ops[j].name, err, clip(out))
		}
		if err := json.Unmarshal([]byte(out), &r); err != nil {
			panic("model: child says " + clip(out))
		}
		if r.Stuck {
			x.Skip()
		}
		return r
	}
	c.Space(&explore.Space{Name: "cold", Body: func(x *explore.X) {
		i := x.Choose("first", len(ops))
		j := i
		if c.Thorough() {
			j = x.Choose("second", len(ops))
		}
		key := fmt.Sprint(i, j)
		pmu.Lock()
		n, ok := points[key]
		pmu.Unlock()
		if !ok {
			n = cold(x, i, j, 0).Points
			pmu.Lock()
			points[key] = n
			pmu.Unlock()
		}
		k := x.Choose("switch", n)
		r := cold(x, i, j, k)
		for t, o := range []op{ops[i], ops[j]} {
			if r.Panics[t] != "" {
				x.Fail("panic", "in a fresh process, %s beside %s, switching at point %d: %s", ops[i].name, ops[j].name, k, r.Panics[t])
			}
			if want := alone(o, t); r.Results[t] != want {
				x.Fail("result", "in a fresh process, %s beside %s, switching at point %d, operation %d gives\n%s\ninstead of\n%s", ops[i].name, ops[j].name, k, t, clip(r.Results[t]), clip(want))
			}
		}
		x.State(key, fmt.Sprint(k))
		x.Sample(fmt.Sprintf("fresh process: %s beside %s, switch at %d of %d", ops[i].name, ops[j].name, k, n))
	}})
	// the race detector watches every pair, in both orders
	racer := filepath.Join(filepath.Dir(exe), "mcrace")
	_, err = os.Stat(racer)
	c.Extra["race_detector"] = err == nil
	if err == nil {
		c.Space(&explore.Space{Name: "races", Body: func(x *explore.X) {
			i := x.Choose("operation", len(ops))
			out, err := runChild(racer, "race", fmt.Sprint(i), fmt.Sprint(len(ops)))
			if err != nil {
				x.Fail("crash", "%s beside every other operation: %v\n%s", ops[i].name, err, clip(out))
			}
			var r raceResult
			if err := json.Unmarshal([]byte(out), &r); err != nil {
				panic("model: child says " + clip(out))
			}
			if r.Pair != "" {
				x.Fail("race", "data race: %s\n%s", r.Pair, r.Report)
			}
			x.State(ops[i].name, fmt.Sprint(r.Pairs))
			x.Sample(fmt.Sprintf("race detector: %s beside each operation, %d schedules", ops[i].name, r.Pairs))
		}})
	}
	c.Space(&explore.Space{Name: "pairs/one switch", Bound: 1, Body: func(x *explore.X) { pair(x, true, all) }})
	c.Space(&explore.Space{Name: "pairs/outside", Bound: c.Pick(2, 3), Body: func(x *explore.X) { pair(x, false, all) }})
	shared := map[string]bool{"request": true, "raw request": true, "unparsed request": true, "refused request": true, "redirected request": true, "marshal request for client": true, "sgml request": true, "marshal response": true, "marshal sgml response": true, "parse sgml bank": true, "parse incomplete": true, "values": true, "random ids": true, "own client request": true}
	core := func(o op) bool { return shared[o.name] }
	c.Space(&explore.Space{Name: "triples", Bound: c.Pick(1, 2), Body: func(x *explore.X) {
		var in []op
		for _, o := range ops {
			if core(o) {
				in = append(in, o)
			}
		}
		i, j, k := x.Choose("first", len(in)), x.Choose("second", len(in)), x.Choose("third", len(in))
		if j < i || k < j {
			x.Skip()
		}
		run(x, false, in[i], in[j], in[k])
	}})
	c.Space(&explore.Space{Name: "pairs/two switches", Bound: 2, Body: func(x *explore.X) {
		if c.Thorough() {
			pair(x, true, local)
		} else {
			// an operation beside another of its kind
			var in []op
			for _, o := range ops {
				if core(o) {
					in = append(in, o)
				}
			}
			i := x.Choose("operation", len(in))
			run(x, true, in[i], in[i])
		}
	}})
}
