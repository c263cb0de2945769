// Package sched is a controlled scheduler for code running in a
// testing/synctest bubble: every goroutine stops at its scheduling points
// (statements of the instrumented code, calls of the environment) and one at
// a time is released by the controller, which therefore chooses the
// interleaving. It needs GOMAXPROCS=1.
package sched

import (
	"bytes"
	"math/rand"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"antverif/yield"
)

// P is a stopped goroutine.
type P struct {
	G    int64
	Env  bool // an environment call; otherwise a scheduling point inside the code
	Site string
	ch   chan struct{}
}

// Sched is the scheduler of one bubble.
type Sched struct {
	Rng    *rand.Rand
	PYield float64 // probability that a statement is a scheduling point
	Mode   int

	mu     sync.Mutex
	parked []*P
	off    bool
	notify chan struct{}
	last   int64
	victim int64
	seen   []int64
	Steps  int
	ctl    int64

	budget int
}

// New returns a scheduler and installs its hook. Call in the bubble, from the
// goroutine that will control the run.
func New(rng *rand.Rand) *Sched {
	s := &Sched{Rng: rng, notify: make(chan struct{}, 1), ctl: Gid()}
	switch rng.Intn(6) {
	case 0:
		s.PYield = 0
	case 1:
		s.PYield = 0.05
	case 2, 3:
		s.PYield = 0.3
	default:
		s.PYield = 1
	}
	s.Mode = rng.Intn(5)
	return s
}

// Start installs the scheduling points.
func (s *Sched) Start() {
	if s.PYield > 0 {
		yield.Set(s.hook)
	}
}

// Stop removes the scheduling points and releases everything from now on.
func (s *Sched) Stop() {
	yield.Set(nil)
	s.mu.Lock()
	s.off = true
	ps := s.parked
	s.parked = nil
	s.mu.Unlock()
	for _, p := range ps {
		close(p.ch)
	}
}

func (s *Sched) hook(site string) {
	if s.PYield < 1 && s.Rng.Float64() >= s.PYield {
		return
	}
	s.Park(false, site)
}

// Park stops the calling goroutine until the controller releases it.
func (s *Sched) Park(env bool, site string) {
	g := Gid()
	if g == s.ctl {
		return
	}
	s.mu.Lock()
	if s.off {
		s.mu.Unlock()
		return
	}
	progress.Add(1)
	p := &P{G: g, Env: env, Site: site, ch: make(chan struct{})}
	s.parked = append(s.parked, p)
	s.mu.Unlock()
	select {
	case s.notify <- struct{}{}:
	default:
	}
	<-p.ch
}

var samples = []metrics.Sample{
	{Name: "/sched/goroutines/running:goroutines"},
	{Name: "/sched/goroutines/runnable:goroutines"},
	{Name: "/sched/goroutines/not-in-go:goroutines"},
}

// Settle returns when every other goroutine is blocked.
func (s *Sched) Settle() {
	for i := 0; ; i++ {
		runtime.Gosched()
		metrics.Read(samples)
		if samples[0].Value.Uint64() <= 1 && samples[1].Value.Uint64() == 0 && samples[2].Value.Uint64() == 0 {
			return
		}
		if i > 200 {
			time.Now()
		}
	}
}

// Parked returns the stopped goroutines.
func (s *Sched) Parked() []*P {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*P(nil), s.parked...)
}

// Release lets p run until every goroutine is blocked again.
func (s *Sched) Release(p *P) {
	s.mu.Lock()
	for i := range s.parked {
		if s.parked[i] == p {
			s.parked = append(s.parked[:i], s.parked[i+1:]...)
			break
		}
	}
	s.last = p.G
	s.Steps++
	progress.Add(1)
	s.mu.Unlock()
	close(p.ch)
	s.Settle()
}

// Choose picks one of ps by the run's strategy.
func (s *Sched) Choose(ps []*P) *P {
	if len(ps) == 1 {
		return ps[0]
	}
	switch s.Mode {
	case 1: // stay on a goroutine most of the time
		if s.Rng.Intn(10) != 0 {
			for _, p := range ps {
				if p.G == s.last {
					return p
				}
			}
		}
	case 2: // starve one goroutine for a while
		if s.victim == 0 || s.Rng.Intn(60) == 0 {
			s.victim = ps[s.Rng.Intn(len(ps))].G
		}
		var q []*P
		for _, p := range ps {
			if p.G != s.victim {
				q = append(q, p)
			}
		}
		if len(q) > 0 {
			return q[s.Rng.Intn(len(q))]
		}
	case 3: // run the code before the environment answers
		if s.Rng.Intn(12) != 0 {
			var q []*P
			for _, p := range ps {
				if !p.Env {
					q = append(q, p)
				}
			}
			if len(q) > 0 {
				return q[s.Rng.Intn(len(q))]
			}
		}
	case 4: // newest first mostly
		if s.Rng.Intn(8) != 0 {
			return ps[len(ps)-1]
		}
	}
	return ps[s.Rng.Intn(len(ps))]
}

// Drain releases every goroutine stopped inside the code until all are
// blocked or in the environment; environment calls stay unanswered. It gives
// up after max steps.
func (s *Sched) Drain(max int) bool {
	for i := 0; i < max; i++ {
		var q []*P
		for _, p := range s.Parked() {
			if !p.Env {
				q = append(q, p)
			}
		}
		if len(q) == 0 {
			return true
		}
		s.Release(s.Choose(q))
	}
	return false
}

// Idle blocks until some goroutine stops, letting virtual time pass, for at
// most max; it reports whether one did.
func (s *Sched) Idle(max time.Duration) bool {
	select {
	case <-s.notify:
	default:
	}
	s.mu.Lock()
	n := len(s.parked)
	s.mu.Unlock()
	if n > 0 {
		return true
	}
	t := time.NewTimer(max)
	defer t.Stop()
	idle.Store(1)
	defer idle.Store(0)
	select {
	case <-s.notify:
		idle.Store(0)
		s.Settle()
		return true
	case <-t.C:
		idle.Store(0)
		s.Settle()
		s.mu.Lock()
		defer s.mu.Unlock()
		return len(s.parked) > 0
	}
}

// Advance lets virtual time pass, at most d and until some goroutine stops.
// Goroutines stopped inside the code run on first: one that held a mutex
// could make time stand still.
func (s *Sched) Advance(d time.Duration) {
	// Unless each stops at its next statement and none waits for a mutex.
	if !(s.PYield == 1 && s.Rng.Intn(2) == 0 && !mutexWaiters()) && !s.Drain(20000) {
		return
	}
	select {
	case <-s.notify:
	default:
	}
	t := time.NewTimer(d)
	defer t.Stop()
	idle.Store(1)
	select {
	case <-s.notify:
	case <-t.C:
	}
	idle.Store(0)
	s.Settle()
}

// mutexWaiters reports whether some goroutine waits for a mutex.
func mutexWaiters() bool {
	d := Dump()
	return strings.Contains(d, "[sync.Mutex") || strings.Contains(d, "[sync.RWMutex") || strings.Contains(d, "[semacquire")
}

var idle atomic.Int32

// progress counts what happens: steps, stops, runs.
var progress atomic.Int64

// Progress notes that something happened.
func Progress() { progress.Add(1) }

// Spinning reports whether a goroutine with a frame that contains sub can
// run, going by the dump.
func Spinning(dump, sub string) bool {
	for _, g := range strings.Split(dump, "\n\n") {
		h, _, _ := strings.Cut(g, "\n")
		if strings.Contains(h, "[runn") && strings.Contains(g, sub) {
			return true
		}
	}
	return false
}

// Watchdog runs outside any bubble. Virtual time stands still while a
// goroutine waits for a mutex; when the controller is idle and that lasts,
// the run cannot proceed and stuck is called with a dump.
//
// Something that runs on and on, without a scheduling step for long, is
// given to spin.
func Watchdog(stuck, spin func(dump string)) {
	go func() {
		was, n := progress.Load(), 0
		for {
			time.Sleep(time.Second)
			if now := progress.Load(); now != was {
				was, n = now, 0
			} else if n++; n >= 40 {
				spin(Dump())
			}
		}
	}()
	go func() {
		n := 0
		for {
			time.Sleep(200 * time.Millisecond)
			if idle.Load() == 0 {
				n = 0
				continue
			}
			if n++; n >= 10 {
				d := Dump()
				time.Sleep(500 * time.Millisecond)
				if idle.Load() != 0 {
					stuck(d)
				}
			}
		}
	}()
}

// Dump returns the stacks of all goroutines.
func Dump() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// Left returns how many goroutines have a frame that contains any of the
// substrings.
func Left(subs ...string) (n int, dump string) {
	for _, g := range strings.Split(Dump(), "\n\n") {
		if i := strings.Index(g, "\ncreated by"); i >= 0 {
			// keep the creator line too: what started it counts
			_ = i
		}
		for _, s := range subs {
			if strings.Contains(g, s) {
				n++
				dump += g + "\n\n"
				break
			}
		}
	}
	return
}

// Gid returns the id of the calling goroutine.
func Gid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := b[len("goroutine "):n]
	i := bytes.IndexByte(f, ' ')
	v, _ := strconv.ParseInt(string(f[:i]), 10, 64)
	return v
}

// MutexDeadlock reports whether the dump shows goroutines of the code (frames
// containing sub) waiting for a mutex that no other of them can release later:
// none sleeps or waits for a channel, which virtual time could end.
func MutexDeadlock(dump, sub string) bool {
	waiting := false
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, sub) || !strings.Contains(g, "synctest bubble") {
			continue
		}
		head := g
		if i := strings.Index(g, "\n"); i > 0 {
			head = g[:i]
		}
		switch {
		case strings.Contains(head, "Mutex"):
			waiting = true
		case strings.Contains(head, "sleep"), strings.Contains(head, "select"), strings.Contains(head, "chan "):
			return false
		}
	}
	return waiting
}
