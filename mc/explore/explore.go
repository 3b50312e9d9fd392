// Package explore is a stateless model checker: it enumerates every execution
// of a closed harness up to a bound on deviations from the default choices, by
// replaying recorded choices and branching on every alternative.
package explore

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Pick is one non-default choice: at choice point Pos, of N alternatives,
// alternative C was taken.
type Pick struct {
	Pos, N, C int
	Label     string
}

type point struct {
	n     int
	dev   bool
	label string
}

// X is one execution.
type X struct {
	Space   *Space
	picks   []Pick
	next    int
	points  []point
	devs    int
	States  []uint64
	sample  string
	skipped bool
	notes   []string
	worker  *worker
	lenient bool
}

type failure struct{ key, msg string }
type skip struct{}
type diverged struct{ msg string }

func (x *X) choice(label string, n int, dev bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("explore: choice %s of %d alternatives", label, n))
	}
	pos := len(x.points)
	x.points = append(x.points, point{n, dev, label})
	if x.next < len(x.picks) && x.picks[x.next].Pos == pos {
		p := x.picks[x.next]
		x.next++
		if p.N != n || p.C >= n || p.Label != label {
			panic(diverged{fmt.Sprintf("choice point %d was %s of %d, is now %s of %d", pos, p.Label, p.N, label, n)})
		}
		if dev {
			x.devs++
		}
		return p.C
	}
	return 0
}

// Choose takes every alternative; it is free of cost.
func (x *X) Choose(label string, n int) int { return x.choice(label, n, false) }

// Dev takes alternative 0 by default; others cost one deviation.
func (x *X) Dev(label string, n int) int { return x.choice(label, n, true) }

// Spend uses up deviations: the rest of the execution may deviate less.
func (x *X) Spend(n int) { x.devs += n }

// DevBool deviates from a default truth value.
func (x *X) DevBool(label string, def bool) bool { return (x.Dev(label, 2) == 1) != def }

// Fail reports a violation.
func (x *X) Fail(key, format string, args ...interface{}) {
	panic(failure{key, fmt.Sprintf(format, args...)})
}

// Check fails unless ok.
func (x *X) Check(ok bool, key, format string, args ...interface{}) {
	if !ok {
		x.Fail(key, format, args...)
	}
}

// Skip abandons an execution outside the space.
func (x *X) Skip() { panic(skip{}) }

// Note adds a line shown in samples and counterexamples.
func (x *X) Note(format string, args ...interface{}) {
	if len(x.notes) < 40 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		x.notes = append(x.notes, s)
	}
}

// Sample sets the short description of this execution.
func (x *X) Sample(s string) { x.sample = s }

// State records an observed state.
func (x *X) State(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	x.States = append(x.States, h.Sum64())
	if x.sample == "" && x.worker != nil && x.worker.wantSample(x) {
		x.sample = "observed: " + clip(strings.Join(parts, " | "), 600)
	}
}

// Worker identifies the worker running this execution (0..Workers-1).
func (x *X) Worker() int {
	if x.worker == nil {
		return 0
	}
	return x.worker.id
}

// Space is one bounded space of executions.
type Space struct {
	Name    string
	Bound   int // deviations
	Body    func(*X)
	Serial  bool // executions must not overlap
	Workers int
}

// Violation is a confirmed failure.
type Violation struct {
	Property string
	Space    string
	Key      string
	Msg      string
	Picks    []Pick
	Notes    []string
	Tier     string
	Kind     string // "", "hang", "crash", "history"
}

// Stats counts what was covered.
type Stats struct {
	Executions  int64
	Validated   int64
	Skipped     int64
	Transitions int64
	States      map[uint64]struct{}
	Samples     []interface{}
	Spaces      []SpaceStats
	Exhaustive  bool
	Known       map[string]string
}

// SpaceStats counts what was covered of one space.
type SpaceStats struct {
	Name       string `json:"space"`
	Bound      int    `json:"deviation_bound"`
	Executions int64  `json:"executions"`
	Skipped    int64  `json:"outside_space"`
	States     int    `json:"distinct_states"`
	MaxPoints  int    `json:"max_choice_points"`
	Complete   bool   `json:"complete"`
}

// Run holds the settings of a run.
type Run struct {
	Property string
	Tier     string
	Deadline time.Time
	Known    map[string]string // key -> description
	SlotFile string            // where workers note what they execute
	Stats    Stats
	HangTime time.Duration
	OnHang   func(Violation)
	slots    []byte
}

type item struct{ picks []Pick }

type worker struct {
	id      int
	local   []item
	started int64
	cur     atomic.Pointer[X]
	states  map[uint64]struct{}
	execs   int64
	valid   int64
	skips   int64
	trans   int64
	maxPts  int
	samples []interface{}
}

const slotSize = 1 << 14

// OpenSlots maps the slot file so that a crash leaves a trace.
func (r *Run) OpenSlots(n int) {
	if r.SlotFile == "" || r.slots != nil {
		return
	}
	f, err := os.OpenFile(r.SlotFile, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return
	}
	defer f.Close()
	if f.Truncate(int64(n*slotSize)) != nil {
		return
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, n*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err == nil {
		r.slots = m
	}
}

func (r *Run) note(w *worker, sp *Space, picks []Pick) {
	if r.slots == nil {
		return
	}
	s := r.slots[w.id*slotSize : (w.id+1)*slotSize]
	// cheap encoding: space name, then pos,n,c triples; labels are re-derived
	o := 8
	o += copy(s[o:o+64], sp.Name+"\x00")
	o = 72
	n := 0
	for _, p := range picks {
		if o+12 > slotSize {
			break
		}
		binary.LittleEndian.PutUint32(s[o:], uint32(p.Pos))
		binary.LittleEndian.PutUint32(s[o+4:], uint32(p.N))
		binary.LittleEndian.PutUint32(s[o+8:], uint32(p.C))
		o += 12
		n++
	}
	binary.LittleEndian.PutUint32(s[4:], uint32(n))
	binary.LittleEndian.PutUint32(s[0:], 1)
}

func (r *Run) clear(w *worker) {
	if r.slots != nil {
		binary.LittleEndian.PutUint32(r.slots[w.id*slotSize:], 0)
	}
}

// ReadSlots returns what workers were executing.
func ReadSlots(file string) (out []Violation) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for i := 0; i+slotSize <= len(b); i += slotSize {
		s := b[i : i+slotSize]
		if binary.LittleEndian.Uint32(s) != 1 {
			continue
		}
		name := string(s[8:72])
		if j := strings.IndexByte(name, 0); j >= 0 {
			name = name[:j]
		}
		v := Violation{Space: name}
		n := int(binary.LittleEndian.Uint32(s[4:]))
		for k, o := 0, 72; k < n && o+12 <= slotSize; k, o = k+1, o+12 {
			v.Picks = append(v.Picks, Pick{int(binary.LittleEndian.Uint32(s[o:])), int(binary.LittleEndian.Uint32(s[o+4:])), int(binary.LittleEndian.Uint32(s[o+8:])), "*"})
		}
		out = append(out, v)
	}
	return
}

// Exec runs one execution.
func Exec(sp *Space, picks []Pick, w *worker, lenient bool) (x *X, f *failure, div string) {
	x = &X{Space: sp, picks: picks, worker: w}
	if w != nil {
		w.cur.Store(x)
	}
	if lenient {
		x.picks = append([]Pick(nil), picks...)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch t := e.(type) {
				case failure:
					f = &t
				case skip:
					x.skipped = true
				case diverged:
					div = t.msg
				default:
					st := string(debug.Stack())
					f = &failure{"panic", fmt.Sprintf("panic: %v\n%s", e, trimStack(st))}
				}
			}
		}()
		sp.Body(x)
		if x.next < len(x.picks) {
			div = fmt.Sprintf("execution ended before choice point %d", x.picks[x.next].Pos)
		}
	}()
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// Explore enumerates one space; a confirmed violation is returned.
func (r *Run) Explore(sp *Space) *Violation {
	nw := runtime.GOMAXPROCS(0)
	if sp.Workers > 0 {
		nw = sp.Workers
	}
	if sp.Serial {
		nw = 1
	}
	v, unstable := r.explore(sp, nw)
	if v == nil && unstable != nil && !sp.Serial {
		// The failure does not recur on its own: perhaps it depends on the
		// history of the process. Enumerate serially, in a fixed order.
		fmt.Printf("note: failure in %s did not recur in isolation (%s); enumerating serially\n", sp.Name, unstable.Msg)
		v, u2 := r.explore(sp, 1)
		if v != nil {
			return v
		}
		if u2 == nil {
			_, u2 = r.explore(sp, nw)
		}
		if u2 != nil {
			u2.Kind = "history"
			return u2
		}
		return nil
	}
	if v == nil && unstable != nil {
		if _, u2 := r.explore(sp, 1); u2 != nil {
			u2.Kind = "history"
			return u2
		}
	}
	return v
}

func (r *Run) explore(sp *Space, nw int) (found, unstable *Violation) {
	r.OpenSlots(64)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	global := []item{{}}
	idle := 0
	var stop atomic.Bool
	var capped atomic.Bool
	var waiting atomic.Int32
	workers := make([]*worker, nw)
	var wg sync.WaitGroup
	var fails []*Violation
	done := make(chan struct{})
	if r.HangTime == 0 {
		r.HangTime = 60 * time.Second
	}
	for i := range workers {
		workers[i] = &worker{id: i, states: map[uint64]struct{}{}}
	}
	go func() { // watchdog
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for _, w := range workers {
				st := atomic.LoadInt64(&w.started)
				if st == 0 {
					continue
				}
				age := time.Since(time.Unix(0, st))
				if age > r.HangTime || (ms.HeapAlloc > 14<<30 && age > 3*time.Second) {
					x := w.cur.Load()
					msg := fmt.Sprintf("no result after %v (heap %d MB)", age.Round(time.Second), ms.HeapAlloc>>20)
					r.OnHang(Violation{Property: r.Property, Space: sp.Name, Key: "hang", Msg: msg, Picks: x.picks, Tier: r.Tier, Kind: "hang"})
				}
			}
		}
	}()
	for _, w := range workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			for {
				var it item
				if n := len(w.local); n > 0 {
					it = w.local[n-1]
					w.local = w.local[:n-1]
					if waiting.Load() > 0 && n > 1 {
						mu.Lock()
						h := (n - 1 + 1) / 2
						global = append(global, w.local[:h]...)
						w.local = append([]item(nil), w.local[h:]...)
						mu.Unlock()
						cond.Broadcast()
					}
				} else {
					mu.Lock()
					idle++
					waiting.Add(1)
					for len(global) == 0 && idle < nw && !stop.Load() {
						cond.Wait()
					}
					waiting.Add(-1)
					if stop.Load() || len(global) == 0 {
						mu.Unlock()
						cond.Broadcast()
						return
					}
					idle--
					it = global[len(global)-1]
					global = global[:len(global)-1]
					mu.Unlock()
				}
				if stop.Load() {
					cond.Broadcast()
					return
				}
				if time.Now().After(r.Deadline) {
					capped.Store(true)
					stop.Store(true)
					cond.Broadcast()
					return
				}
				r.note(w, sp, it.picks)
				atomic.StoreInt64(&w.started, time.Now().UnixNano())
				x, f, div := Exec(sp, it.picks, w, false)
				atomic.StoreInt64(&w.started, 0)
				r.clear(w)
				w.execs++
				if div != "" {
					f = &failure{"divergence", "the same choices led to a different execution: " + div}
				}
				if x.skipped {
					w.skips++
				} else if f == nil {
					w.valid++
				}
				for _, s := range x.States {
					w.states[s] = struct{}{}
				}
				if len(x.points) > w.maxPts {
					w.maxPts = len(x.points)
				}
				if f == nil && !x.skipped && x.sample != "" && w.wantSample(x) {
					w.samples = append(w.samples, map[string]interface{}{"space": sp.Name, "choices": PickString(x.picks), "case": clip(x.sample, 600)})
				}
				if f != nil {
					if _, ok := r.Known[f.key]; ok {
						mu.Lock()
						r.Stats.Known[f.key] = f.msg
						mu.Unlock()
					} else {
						v := &Violation{Property: r.Property, Space: sp.Name, Key: f.key, Msg: f.msg, Picks: append([]Pick(nil), it.picks...), Notes: x.notes, Tier: r.Tier}
						mu.Lock()
						fails = append(fails, v)
						n := len(fails)
						mu.Unlock()
						if n >= 8 {
							stop.Store(true)
							cond.Broadcast()
						} else {
							// stop soon: give other workers a chance to find smaller ones
							go func() { time.Sleep(300 * time.Millisecond); stop.Store(true); cond.Broadcast() }()
						}
					}
					if div != "" {
						continue
					}
				}
				// branch
				last := -1
				if n := len(it.picks); n > 0 {
					last = it.picks[n-1].Pos
				}
				for i := last + 1; i < len(x.points); i++ {
					p := x.points[i]
					if p.n < 2 {
						continue
					}
					if p.dev && x.devs >= sp.Bound {
						continue
					}
					for c := p.n - 1; c >= 1; c-- {
						np := make([]Pick, len(it.picks)+1)
						copy(np, it.picks)
						np[len(it.picks)] = Pick{i, p.n, c, p.label}
						w.local = append(w.local, item{np})
						w.trans++
					}
				}
			}
		}(w)
	}
	wg.Wait()
	close(done)
	st := SpaceStats{Name: sp.Name, Bound: sp.Bound, Complete: !capped.Load() && len(fails) == 0}
	states := map[uint64]struct{}{}
	if r.Stats.States == nil {
		r.Stats.States = map[uint64]struct{}{}
	}
	for _, w := range workers {
		st.Executions += w.execs
		st.Skipped += w.skips
		r.Stats.Transitions += w.trans
		r.Stats.Validated += w.valid
		if w.maxPts > st.MaxPoints {
			st.MaxPoints = w.maxPts
		}
		for s := range w.states {
			states[s] = struct{}{}
			r.Stats.States[s] = struct{}{}
		}
		if len(r.Stats.Samples) < 24 {
			r.Stats.Samples = append(r.Stats.Samples, w.samples...)
		}
	}
	st.States = len(states)
	r.Stats.Executions += st.Executions
	r.Stats.Skipped += st.Skipped
	r.Stats.Spaces = append(r.Stats.Spaces, st)
	if capped.Load() {
		r.Stats.Exhaustive = false
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Picks) < len(fails[j].Picks) })
	for _, v := range fails {
		if v.Key == "divergence" {
			unstable = v
			continue
		}
		if r.confirm(sp, v) {
			r.minimize(sp, v)
			return v, nil
		}
		unstable = v
	}
	return nil, unstable
}

// confirm re-runs a failing execution five times, slow ones at least twice.
func (r *Run) confirm(sp *Space, v *Violation) bool {
	start := time.Now()
	for i := 0; i < 5; i++ {
		if i >= 2 && time.Since(start) > 10*time.Second {
			break
		}
		_, f, div := Exec(sp, v.Picks, nil, false)
		if div != "" || f == nil {
			return false
		}
	}
	return true
}

// minimize drops choices which the failure does not need.
func (r *Run) minimize(sp *Space, v *Violation) {
	start := time.Now()
	for changed, rounds := true, 0; changed && rounds < 4; rounds++ {
		changed = false
		for i := range v.Picks {
			if time.Since(start) > 20*time.Second {
				return // failing slowly
			}
			np := append(append([]Pick(nil), v.Picks[:i]...), v.Picks[i+1:]...)
			x, f, div := Exec(sp, np, nil, false)
			if div == "" && f != nil && f.key == v.Key {
				v.Picks, v.Msg, v.Notes = np, f.msg, x.notes
				changed = true
				break
			}
		}
	}
	if x, f, _ := Exec(sp, v.Picks, nil, false); f != nil {
		v.Msg, v.Notes = f.msg, x.notes
	}
}

// Replay runs a recorded execution.
func Replay(sp *Space, picks []Pick) (key, msg string, notes []string) {
	pk := append([]Pick(nil), picks...)
	for i := range pk {
		if pk[i].Label == "*" { // recovered from a crash: derive labels
			pk = relabel(sp, pk)
			break
		}
	}
	x, f, div := Exec(sp, pk, nil, false)
	if div != "" {
		return "divergence", div, x.notes
	}
	if f != nil {
		return f.key, f.msg, x.notes
	}
	return "", "", x.notes
}

func relabel(sp *Space, picks []Pick) []Pick {
	// labels are only known when the point is reached: accept any
	for i := range picks {
		if picks[i].Label == "*" {
			x, _, _ := Exec(sp, picks[:i], nil, false)
			if picks[i].Pos < len(x.points) {
				picks[i].Label = x.points[picks[i].Pos].label
			}
		}
	}
	return picks
}

func (w *worker) wantSample(x *X) bool {
	return len(w.samples) < 2 || (len(w.samples) < 6 && len(x.picks) > 0 && w.execs%997 == 1)
}

// PickString shows choices.
func PickString(p []Pick) string {
	var b strings.Builder
	for i, k := range p {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "%s@%d=%d/%d", k.Label, k.Pos, k.C, k.N)
		if b.Len() > 500 {
			b.WriteString("...")
			break
		}
	}
	if b.Len() == 0 {
		return "(defaults)"
	}
	return b.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Save writes a violation to a replay file.
func (v *Violation) Save(dir string) string {
	os.MkdirAll(dir, 0755)
	h := fnv.New32a()
	fmt.Fprint(h, v.Space, v.Key, PickString(v.Picks))
	p := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", v.Property, h.Sum32()))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}
