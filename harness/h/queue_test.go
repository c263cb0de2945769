package h

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"sync"
	"sync/atomic"
	"time"

	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["queue"] = scenario{true, func(x *X) { queueRun(x, *fOpt) }}
	scenarios["queuestress"] = scenario{false, queueStress}
}

func kindQ(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.EOF):
		return "eof"
	case errors.Is(err, context.Canceled):
		return "ctx"
	}
	return "other"
}

type qops struct {
	x    *X
	q    ant.Queue
	mu   sync.Mutex
	n    atomic.Int64 // operations
	u    int          // URLs made
	urls map[*ant.URL]int
	ctx  context.Context
	open sync.Map
}

func (o *qops) park(site string) {
	if o.x.S != nil {
		o.x.S.Park(true, site)
	}
}
func (o *qops) mk(n int) (us ant.URLs, ids []int) {
	o.mu.Lock()
	defer o.mu.Unlock()
	ids = []int{}
	for ; n > 0; n-- {
		o.u++
		u, _ := url.Parse(fmt.Sprintf("http://a.example/%d", o.u))
		o.urls[u] = o.u
		us = append(us, u)
		ids = append(ids, o.u)
	}
	return
}
func (o *qops) id(u *ant.URL) int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.urls[u] // 0: not one of ours
}
func (o *qops) call(op string, c bool, ids []int) int {
	n := int(o.n.Add(1))
	o.open.Store(n, true)
	W.Log("call", tr.M{"o": n, "op": op, "c": c, "us": ids})
	return n
}
func (o *qops) ret(n int, kind string, u int) {
	W.Log("ret", tr.M{"o": n, "kind": kind, "u": u})
	o.open.Delete(n)
}
func (o *qops) pick(c bool) context.Context {
	if c {
		return o.ctx
	}
	return context.Background()
}
func (o *qops) enqueue(n int, c bool) {
	us, ids := o.mk(n)
	if n%2 == 1 { // with room to append to
		us = append(make(ant.URLs, 0, n+3), us...)
	}
	i := o.call("enq", c, ids)
	err := o.q.Enqueue(o.pick(c), us)
	// The slice is the caller's again.
	mine := us[:cap(us)]
	for j := range mine {
		mine[j] = &ant.URL{Scheme: "http", Host: "reused.example"}
	}
	o.ret(i, kindQ(err), 0)
}
func (o *qops) dequeue(c bool) *ant.URL {
	i := o.call("deq", c, []int{})
	u, err := o.q.Dequeue(o.pick(c))
	if err != nil {
		o.ret(i, kindQ(err), 0)
		return nil
	}
	o.ret(i, "ok", o.id(u))
	return u
}
func (o *qops) done(u *ant.URL) {
	i := o.call("done", false, []int{o.id(u)})
	err := o.q.Done(context.Background(), u)
	o.ret(i, kindQ(err), 0)
}
func (o *qops) wait() {
	i := o.call("wait", false, []int{})
	o.q.Wait()
	o.ret(i, "ok", 0)
}
func (o *qops) close() {
	i := o.call("close", false, []int{})
	err := o.q.Close(context.Background())
	o.ret(i, kindQ(err), 0)
}

// queueRun: a few goroutines run random operations under the scheduler.
func queueRun(x *X, opt string) {
	rng := x.Rng
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	o := &qops{x: x, q: ant.MemoryQueue(rng.Intn(4)), urls: map[*ant.URL]int{}, ctx: ctx}
	k := 2 + rng.Intn(3)
	W.Log("begin", tr.M{"run": x.Run})
	var have []*ant.URL // delivered, to acknowledge
	doClose := rng.Intn(3) > 0
	waits := rng.Intn(3) > 0
	closers := 0
	big := 0
	bigs := 2
	if rng.Intn(60) == 0 { // long queues
		big = 20 + rng.Intn(140)
		k = 1 + rng.Intn(2)
	}
	act := func() {
		r := rng.Intn(20)
		if big > 0 && bigs == 0 && r < 6 && rng.Intn(4) > 0 {
			r = 6 // to drain it
		}
		switch {
		case r < 6:
			n := 1 + rng.Intn(3)
			if rng.Intn(12) == 0 {
				n = 0
			}
			if big > 0 && bigs > 0 && rng.Intn(3) > 0 {
				n = rng.Intn(big)
				bigs--
			}
			o.enqueue(n, rng.Intn(4) == 0)
		case r < 12:
			if u := o.dequeue(rng.Intn(4) == 0); u != nil {
				have = append(have, u)
			}
		case r < 17:
			if len(have) > 0 {
				i := rng.Intn(len(have))
				u := have[i]
				have = append(have[:i], have[i+1:]...)
				o.done(u)
			}
		case r < 19:
			if waits {
				o.wait()
			}
		default:
			if doClose && closers < 2 && rng.Intn(2) == 0 {
				closers++
				o.close()
			}
		}
	}
	x.S.Start()
	left := k
	for ; k > 0; k-- {
		n := 2 + rng.Intn(6)
		if big > 0 {
			n += rng.Intn(2 * big)
		}
		go func() {
			for ; n > 0; n-- {
				x.S.Park(true, "op")
				act()
			}
			left--
		}()
	}
	x.S.Settle()
	quiet := func() {
		W.Log("quiet", nil)
	}
	cancelAt := -1
	if rng.Intn(3) == 0 {
		cancelAt = rng.Intn(40)
	}
	drive := func() {
		for i := 0; i < 100000; i++ {
			if i == cancelAt && ctx.Err() == nil {
				W.Log("cancel", nil)
				cancel()
			}
			ps := x.S.Parked()
			if len(ps) == 0 {
				if x.S.Idle(time.Hour) {
					continue
				}
				return
			}
			x.S.Release(x.S.Choose(ps))
		}
	}
	drive()
	quiet()
	// More operations until everything blocked has come back.
	for i := 0; i < 40; i++ {
		n := 0
		o.open.Range(func(any, any) bool { n++; return true })
		if n == 0 && left == 0 {
			break
		}
		go func() {
			switch {
			case len(have) > 0 && rng.Intn(2) == 0:
				u := have[0]
				have = have[1:]
				o.done(u)
			case i < 6 && rng.Intn(2) == 0:
				o.enqueue(1+rng.Intn(2), false)
			default:
				o.close()
			}
		}()
		x.S.Settle()
		drive()
		quiet()
	}
	x.S.Stop()
	n := 0
	o.open.Range(func(any, any) bool { n++; return true })
	if n > 0 || left > 0 {
		W.Log("stuck", nil)
		W.End()
		abandon(8)
	}
	W.Log("end", nil)
}

// queueStress: the same in real parallelism.
func queueStress(x *X) {
	o := &qops{x: x, q: ant.MemoryQueue(1), urls: map[*ant.URL]int{}, ctx: context.Background()}
	W.Log("begin", tr.M{"run": x.Run})
	var wg sync.WaitGroup
	k := 1 + x.Rng.Intn(3)
	for g := 0; g < k; g++ {
		n := 1 + x.Rng.Intn(5)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ; n > 0; n-- {
				o.enqueue(1, false)
				if u := o.dequeue(false); u != nil {
					o.done(u)
				}
			}
		}()
	}
	w := 1 + x.Rng.Intn(2)
	var wg2 sync.WaitGroup
	for g := 0; g < w; g++ {
		wg2.Add(1)
		go func() {
			defer wg2.Done()
			for i := 0; i < 3; i++ {
				o.wait()
			}
		}()
	}
	all := make(chan bool)
	go func() {
		wg.Wait()
		wg2.Wait()
		close(all)
	}()
	select {
	case <-all:
	case <-time.After(20 * time.Second):
		W.Log("quiet", nil)
		W.Log("stuck", nil)
		W.End()
		abandon(8)
	}
	o.close()
	o.dequeue(false)
	W.Log("quiet", nil)
	W.Log("end", nil)
}
