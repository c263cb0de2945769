package h

import (
	"context"
	"fmt"
	"net/url"
	"sync"
	"sync/atomic"
	"time"

	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["dedupe"] = scenario{true, dedupeRun}
	scenarios["dedupestress"] = scenario{false, dedupeRun}
}

// dedupeRun calls one de-duplicator from several goroutines.
func dedupeRun(x *X) {
	rng := x.Rng
	exact := rng.Intn(2) == 0
	var d ant.Deduper
	if exact {
		d = ant.DedupeMap()
	} else {
		d = ant.DedupeBF([]uint{8, 100, 10000, 1000000}[rng.Intn(4)], []uint{1, 3, 5}[rng.Intn(3)])
	}
	var pool []string
	for i := 0; i < 1+rng.Intn(12); i++ {
		pool = append(pool, fmt.Sprintf("http://a.example/%d", i))
	}
	for _, s := range []string{"http://a.example/0?q", "https://a.example/0", "http://u@a.example/0", "http://a.example/0?q=0", "http://A.example/0", "http://a.example/%30", "http://a.example:80/0", "http://a.example/0/", "http://a.example/0#f", "http://a.example/"} {
		if rng.Intn(3) == 0 {
			pool = append(pool, s)
		}
	}
	big := rng.Intn(60) == 0 // large batches
	if big {
		for i := 100; i < 400+rng.Intn(300); i++ {
			pool = append(pool, fmt.Sprintf("http://a.example/%d", i))
		}
	}
	huge := !big && x.S != nil && rng.Intn(1000) == 0 // very large batches
	if huge {
		big = true
		for i := 1000; i < 6500+rng.Intn(3000); i++ {
			pool = append(pool, fmt.Sprintf("http://a.example/%d", i))
		}
	}
	mk := func(i int) *ant.URL {
		u, err := url.Parse(pool[i])
		if err != nil {
			panic(err)
		}
		return u
	}
	W.Log("begin", tr.M{"run": x.Run, "exact": exact, "pool": pool})
	var n atomic.Int64
	call := func(b []int) {
		us := make(ant.URLs, 0, len(b)+rng63(x)%3)
		ids := map[*ant.URL]int{}
		in := []int{}
		for _, i := range b {
			u := mk(i)
			us = append(us, u)
			ids[u] = i + 1
			in = append(in, i+1)
		}
		before := append(ant.URLs(nil), us...)
		o := int(n.Add(1))
		W.Log("call", tr.M{"o": o, "us": in})
		r, err := d.Dedupe(context.Background(), us)
		got := []int{}
		for _, u := range r {
			id, ok := ids[u]
			if !ok { // not the pointer given: judge by what it says
				for i := range pool {
					if u != nil && mk(i).String() == u.String() {
						id = i + 1
					}
				}
			}
			got = append(got, id)
		}
		same := len(us) == len(before)
		for i := range before {
			same = same && us[i] == before[i] && us[i].String() == mk(b[i]).String()
		}
		W.Log("ret", tr.M{"o": o, "us": got, "ok": err == nil, "same": same})
	}
	k := 1 + rng.Intn(4)
	var plans [][][]int
	for g := 0; g < k; g++ {
		var p [][]int
		for c := 1 + rng.Intn(4); c > 0; c-- {
			var b []int
			m := rng.Intn(6)
			if big {
				m = rng.Intn(600)
			}
			for ; m > 0; m-- {
				b = append(b, rng.Intn(len(pool)))
			}
			if huge && c == 1 {
				b = rng.Perm(len(pool))
			}
			p = append(p, b)
		}
		plans = append(plans, p)
	}
	if x.S == nil {
		var wg sync.WaitGroup
		for _, p := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, b := range p {
					call(b)
				}
			}()
		}
		wg.Wait()
		W.Log("end", nil)
		return
	}
	left := k
	x.S.Start()
	for _, p := range plans {
		go func() {
			for _, b := range p {
				x.S.Park(true, "op")
				call(b)
			}
			left--
		}()
	}
	x.S.Settle()
	for i := 0; i < 100000 && left > 0; i++ {
		ps := x.S.Parked()
		if len(ps) == 0 {
			if !x.S.Idle(time.Hour) {
				break
			}
			continue
		}
		x.S.Release(x.S.Choose(ps))
	}
	x.S.Stop()
	if left > 0 {
		W.Log("stuck", nil)
		W.End()
		abandon(8)
	}
	W.Log("end", nil)
}

// rng63 is a random number that may be drawn from several goroutines.
func rng63(x *X) int {
	if x.S == nil {
		return 0
	}
	return x.Rng.Int()
}
