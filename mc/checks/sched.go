package checks

import (
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mc/explore"
)

// A cooperative scheduler: of the threads of an execution exactly one runs at a
// time, and at scheduling points the explorer decides which one goes on. The
// handing over is invisible to the race detector, which therefore reports every
// pair of conflicting accesses that only the schedule keeps apart.

type thread struct {
	id    int
	name  string
	gid   int64
	wake  chan struct{}
	sched *scheduler
}

type event struct {
	id   int
	kind byte // y: at a scheduling point, b: waiting for a lock, d: done, p: panicked
	at   string
}

type scheduler struct {
	x      *explore.X
	ths    []*thread
	events chan event
	wg     sync.WaitGroup
	fine   bool // scheduling points inside the library, too
	stuck  bool
	dead   bool
	over   atomic.Bool // no more stops
	trace  []string
	points int
	// choices there were until the first thread ended
	firstPoints int
	panics      []interface{}
}

// registry of the goroutines under control
var controlled [64]struct {
	gid atomic.Int64
	th  atomic.Pointer[thread]
}

func self() *thread {
	g := goID()
	for i := range controlled {
		if controlled[i].gid.Load() == g {
			return controlled[i].th.Load()
		}
	}
	return nil
}

// schedPoint is a scheduling point of the harness.
func schedPoint(at string) {
	raceDisable()
	th := self()
	raceEnable()
	if th != nil {
		th.stop(event{th.id, 'y', at})
	}
}

// libPoint is a scheduling point inside the library.
func libPoint(at string) {
	raceDisable()
	th := self()
	raceEnable()
	if th != nil && th.sched.fine {
		th.stop(event{th.id, 'y', at})
	}
}

func libBlocked() {
	raceDisable()
	th := self()
	raceEnable()
	if th != nil && !th.sched.over.Load() {
		th.stop(event{th.id, 'b', "lock"})
	} else {
		time.Sleep(time.Millisecond)
	}
}

func trimmed() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (t *thread) stop(e event) {
	raceDisable()
	if !t.sched.over.Load() {
		t.sched.events <- e
		<-t.wake
	}
	raceEnable()
}

func (s *scheduler) run1(t *thread, f func()) {
	defer s.wg.Done()
	raceDisable()
	g := goID()
	for i := range controlled {
		if controlled[i].gid.CompareAndSwap(0, -g) {
			controlled[i].th.Store(t)
			controlled[i].gid.Store(g)
			break
		}
	}
	<-t.wake
	raceEnable()
	kind := byte('p')
	defer func() {
		e := recover()
		raceDisable()
		for i := range controlled {
			if controlled[i].gid.Load() == g {
				controlled[i].th.Store(nil)
				controlled[i].gid.Store(0)
			}
		}
		raceEnable()
		if e != nil {
			s.panics[t.id] = e
			s.panics[len(s.ths)+t.id] = trimmed()
		}
		raceDisable()
		s.events <- event{t.id, kind, ""}
		raceEnable()
	}()
	f()
	kind = 'd'
}

// next waits for the running thread to stop.
func (s *scheduler) next() (event, bool) {
	raceDisable()
	defer raceEnable()
	select {
	case e := <-s.events:
		return e, true
	default:
	}
	t := time.NewTimer(5 * time.Second)
	defer t.Stop()
	select {
	case e := <-s.events:
		return e, true
	case <-t.C:
		return event{}, false
	}
}

func (s *scheduler) resume(id int) {
	raceDisable()
	s.ths[id].wake <- struct{}{}
	raceEnable()
}

// runThreads runs the bodies under every schedule with a bounded number of
// preemptions.
func runThreads(x *explore.X, fine bool, names []string, bodies []func()) *scheduler {
	s := &scheduler{x: x, fine: fine, events: make(chan event, 2*len(bodies)), panics: make([]interface{}, 2*len(bodies))}
	for i, f := range bodies {
		t := &thread{id: i, name: names[i], wake: make(chan struct{}, 1), sched: s}
		s.ths = append(s.ths, t)
		_ = f
	}
	for i, f := range bodies {
		s.wg.Add(1)
		go s.run1(s.ths[i], f)
	}
	const (
		ready = iota
		blocked
		done
		running
	)
	state := make([]int, len(bodies))
	finished := false
	stops := 0
	defer func() {
		if !finished { // a choice panicked: let the threads run out
			raceDisable()
			s.over.Store(true)
			for _, t := range s.ths {
				select {
				case t.wake <- struct{}{}:
				default:
				}
			}
			raceEnable()
			if s.dead {
				return
			}
			go func() {
				for range s.events {
				}
			}()
			s.wg.Wait()
			close(s.events)
		}
	}()
	pick := func(cur int, cost bool, at string) int {
		var alts []int
		if cur >= 0 && state[cur] == ready {
			alts = append(alts, cur)
		}
		for i := range state {
			if i != cur && state[i] == ready {
				alts = append(alts, i)
			}
		}
		if len(alts) == 0 {
			// everybody waits for a lock: try them again
			for i := range state {
				if state[i] == blocked && i != cur {
					alts = append(alts, i)
				}
			}
			if len(alts) == 0 {
				if cur >= 0 && state[cur] == blocked {
					return cur
				}
				return -1
			}
			return alts[0]
		}
		if len(alts) == 1 {
			return alts[0]
		}
		k := 0
		stops++
		if cost {
			k = x.Dev("preempt", len(alts))
		} else {
			k = x.Choose("next", len(alts))
		}
		if cost && k > 0 {
			s.trace = append(s.trace, names[cur]+" stops at "+at+", "+names[alts[k]]+" goes on")
		}
		return alts[k]
	}
	cur := pick(-1, false, "")
	idle := 0
	for cur >= 0 {
		state[cur] = running
		s.resume(cur)
		for {
			e, ok := s.next()
			if !ok {
				// It waits for something another thread does: let that go on.
				s.stuck = true
				next := -1
				for i := range state {
					if state[i] == ready || state[i] == blocked {
						next = i
						break
					}
				}
				if next < 0 {
					idle++
					if idle > 4 {
						s.dead = true
						x.Fail("deadlock", "threads %v wait for each other", names)
					}
					continue
				}
				state[next] = running
				s.resume(next)
				continue
			}
			s.points++
			switch e.kind {
			case 'y':
				state[e.id] = ready
			case 'b':
				state[e.id] = blocked
				idle++
				if idle > 2000 {
					s.dead = true
					x.Fail("deadlock", "threads %v wait for each other's locks", names)
				}
			case 'd', 'p':
				if s.firstPoints == 0 {
					s.firstPoints = stops
				}
				state[e.id] = done
			}
			if e.kind != 'b' {
				for i := range state {
					if state[i] == blocked {
						state[i] = ready
					}
				}
			}
			if s.stuck {
				// no more choices: whoever stops goes on at once
				if state[e.id] != done {
					state[e.id] = running
					s.resume(e.id)
				}
				left := false
				act := false
				for i := range state {
					left = left || state[i] != done
					act = act || state[i] == running
				}
				if !left {
					cur = -1
					break
				}
				if !act {
					for i := range state {
						if state[i] != done {
							state[i] = running
							s.resume(i)
							break
						}
					}
				}
				continue
			}
			cur = pick(e.id, e.kind == 'y', e.at)
			break
		}
	}
	s.wg.Wait()
	finished = true
	return s
}
