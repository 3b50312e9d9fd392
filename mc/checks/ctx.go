// Package checks holds one exhaustive exploration per property.
package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/mc/explore"
)

// Ctx is one run of a check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int
	Root     string // /verif
	Run      explore.Run
	Start    time.Time
	replay   *explore.Violation
	replayed bool
	Verdict  *explore.Violation
	Extra    map[string]interface{}
	Assume   []string
	cleanup  []func()
	list     bool
	only     string
}

// Check decides one property.
type Check struct {
	ID        string
	Technique string
	Note      string
	Run       func(*Ctx)
}

var registry = map[string]*Check{}

func register(id, technique, note string, f func(*Ctx)) {
	if note == "" {
		note = "stateless exploration of the real code: every execution within the stated bounds is run and compared with an independent reference model"
	}
	registry[id] = &Check{id, technique, note, f}
}

// IDs lists the registered checks.
func IDs() []string {
	var out []string
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// Get finds a check.
func Get(id string) *Check { return registry[id] }

// Thorough tells whether this is a thorough run.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in quick runs and t in thorough ones.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Defer registers a cleanup.
func (c *Ctx) Defer(f func()) { c.cleanup = append(c.cleanup, f) }

// Space explores a space unless a violation was already found.
func (c *Ctx) Space(sp *explore.Space) {
	if c.replay != nil {
		if sp.Name == c.replay.Space {
			c.replayed = true
			if c.replay.Kind == "history" {
				if v := c.Run.Explore(sp); v != nil {
					c.Verdict = v
				}
				return
			}
			n := 1
			for i := 0; i < n; i++ {
				key, msg, notes := explore.Replay(sp, c.replay.Picks)
				if key != "" {
					c.Verdict = &explore.Violation{Property: c.ID, Space: sp.Name, Key: key, Msg: msg, Picks: c.replay.Picks, Notes: notes, Tier: c.Tier}
				} else {
					fmt.Println("replay: execution succeeds")
				}
			}
		}
		return
	}
	if c.Verdict != nil {
		return
	}
	if c.only != "" && !strings.Contains(sp.Name, c.only) {
		return
	}
	t := time.Now()
	c.Verdict = c.Run.Explore(sp)
	if os.Getenv("MC_VERBOSE") != "" {
		s := c.Run.Stats.Spaces[len(c.Run.Stats.Spaces)-1]
		fmt.Fprintf(os.Stderr, "%-40s bound %d execs %8d skipped %6d states %8d points %4d complete %v %.2fs\n", s.Name, s.Bound, s.Executions, s.Skipped, s.States, s.MaxPoints, s.Complete, time.Since(t).Seconds())
	}
}

// Stop tells whether a violation ended the run.
func (c *Ctx) Stop() bool { return c.Verdict != nil }

// Scratch makes a scratch directory that is removed at the end.
func (c *Ctx) Scratch() string {
	d, err := os.MkdirTemp("", "mc-"+c.ID+"-")
	if err != nil {
		panic(err)
	}
	c.Defer(func() { os.RemoveAll(d) })
	return d
}

func loadKnown(root, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		k, d, _ := strings.Cut(rest, " ")
		out[k] = d
	}
	return out
}

// Options of a run.
type Options struct {
	ID, Tier, Root, SlotFile string
	Replay                   *explore.Violation
	Only                     string
	NoEvidence               bool
}

// Execute runs a check and returns the exit status.
func Execute(o Options) int {
	ck := registry[o.ID]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "no check %s\n", o.ID)
		return 2
	}
	loadLiterals()
	c := &Ctx{ID: o.ID, Tier: o.Tier, Root: o.Root, Start: time.Now(), Seed: 1, replay: o.Replay, only: o.Only, Extra: map[string]interface{}{}}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.Seed)
	limit := 100 * time.Second
	if c.Thorough() {
		limit = 780 * time.Second
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	c.Run = explore.Run{Property: o.ID, Tier: o.Tier, Deadline: time.Now().Add(limit), Known: loadKnown(o.Root, o.ID), SlotFile: o.SlotFile}
	c.Run.Stats.Exhaustive = true
	c.Run.Stats.Known = map[string]string{}
	finish := func(v *explore.Violation) int {
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			c.cleanup[i]()
		}
		c.cleanup = nil
		code := 0
		var keys []string
		for k := range c.Run.Stats.Known {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", o.ID, k, c.Run.Known[k])
		}
		if v != nil {
			code = 1
			v.Property = o.ID
			v.Tier = o.Tier
			path := v.Save(filepath.Join(o.Root, "replays"))
			fmt.Printf("violation in space %s (%s)\n  choices: %s\n  %s\n", v.Space, v.Key, explore.PickString(v.Picks), strings.ReplaceAll(v.Msg, "\n", "\n  "))
			for _, n := range v.Notes {
				fmt.Printf("  note: %s\n", strings.ReplaceAll(n, "\n", "\n        "))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.ID, path)
		}
		if o.Replay == nil && !o.NoEvidence {
			c.writeEvidence(code)
		}
		return code
	}
	c.Run.OnHang = func(v explore.Violation) {
		os.Exit(finish(&v))
	}
	ck.Run(c)
	if v := c.Verdict; v != nil && v.Key == "panic" && strings.HasPrefix(v.Msg, "panic: model:") {
		fmt.Fprintf(os.Stderr, "HARNESS: %s %s %s\n", v.Space, explore.PickString(v.Picks), v.Msg)
		return 2
	}
	if o.Replay != nil && !c.replayed {
		fmt.Println("replay: no such space in this tier")
	}
	code := finish(c.Verdict)
	if code == 0 && o.Replay == nil {
		fmt.Printf("OK property=%s tier=%s executions=%d states=%d transitions=%d exhaustive=%v %.1fs\n", o.ID, o.Tier, c.Run.Stats.Executions, len(c.Run.Stats.States), c.Run.Stats.Transitions, c.Run.Stats.Exhaustive, time.Since(c.Start).Seconds())
	}
	return code
}

func (c *Ctx) writeEvidence(code int) {
	s := &c.Run.Stats
	samples := s.Samples
	if len(samples) > 10 {
		samples = samples[:10]
	}
	if len(samples) == 0 {
		samples = []interface{}{"(no case completed)"}
	}
	cov := map[string]interface{}{
		"states":                        len(s.States),
		"transitions":                   s.Transitions,
		"traces_validated_against_impl": s.Validated,
		"samples":                       samples,
		"executions":                    s.Executions,
		"spaces":                        s.Spaces,
		"exhaustive":                    s.Exhaustive && code == 0,
		"rule":                          "states: distinct observed outcomes (hash of everything the oracle compared); transitions: branches of the choice tree taken; traces: executions of the real code compared with the model",
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{}, c.Assume...), "wall_s": time.Since(c.Start).Seconds(), "violations": code,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(c.Root, "evidence"), 0755)
		err = os.WriteFile(filepath.Join(c.Root, "evidence", c.ID+".json"), b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}
