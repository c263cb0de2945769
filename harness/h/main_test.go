// Package h drives the real code and records what it does.
package h

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"antverif/sched"
	"antverif/tr"
)

var (
	fScn  = flag.String("scn", "", "scenario")
	fSeed = flag.Int64("seed", 1, "seed")
	fFrom = flag.Int("from", 0, "first run")
	fStep = flag.Int("step", 1, "run stride")
	fRuns = flag.Int("runs", 1, "number of runs")
	fOut  = flag.String("o", "", "trace file")
	fApp  = flag.Bool("app", false, "append to the trace file")
	fSec  = flag.Float64("maxsec", 0, "stop starting runs after that many seconds")
	fDir  = flag.String("dir", "", "scratch directory")
	fIn   = flag.String("in", "", "input file of cases")
	fOpt  = flag.String("opt", "", "scenario option")
)

// W is the trace writer of the process.
var W *tr.W

// A scenario's run: it logs events through W (the first is "begin").
type scenario struct {
	bubble bool // runs in a synctest bubble, under the scheduler
	run    func(x *X)
}

var scenarios = map[string]scenario{}

// X is the context of one run.
type X struct {
	T    *testing.T
	Rng  *rand.Rand
	Run  int
	S    *sched.Sched
	T0   time.Time
	drop bool // do not record this run
}

// Ms is the virtual time in milliseconds since the run began.
func (x *X) Ms() int64 { return time.Since(x.T0).Milliseconds() }

var curRun atomic.Int64

// progress file: lets the driver resume after a run that cannot end.
func abandon(code int) {
	fmt.Printf("ABANDONED run=%d\n", curRun.Load())
	os.Exit(code)
}

func mix(seed int64, run int) int64 {
	z := uint64(seed)*0x9E3779B97F4A7C15 + uint64(run)*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return int64((z ^ (z >> 31)) >> 1)
}

func TestScenario(t *testing.T) {
	if *fScn == "" {
		t.Skip("no scenario")
	}
	sc, ok := scenarios[*fScn]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown scenario", *fScn)
		os.Exit(2)
	}
	if sc.bubble {
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(-1)
	}
	var err error
	if W, err = tr.Open(*fOut, *fApp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if sc.bubble {
		sched.Watchdog(func(d string) {
			fmt.Fprintf(os.Stderr, "stuck run %d:\n%s\n", curRun.Load(), d)
			if sched.MutexDeadlock(d, "yields/ant") {
				W.Log("hang", tr.M{"why": "mutex"})
				W.End()
			} else {
				W.Drop()
			}
			abandon(9)
		}, func(d string) {
			fmt.Fprintf(os.Stderr, "spinning run %d:\n%s\n", curRun.Load(), d)
			if sched.Spinning(d, "yields/ant") {
				W.Log("hang", tr.M{"why": "spin"})
				W.End()
			} else {
				W.Drop()
			}
			abandon(9)
		})
	}
	start := time.Now()
	var cur *os.File
	if *fDir != "" {
		if cur, err = os.Create(filepath.Join(*fDir, "cur")); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	n := 0
	for i := *fFrom; n < *fRuns; i += *fStep {
		if *fSec > 0 && time.Since(start).Seconds() > *fSec {
			break
		}
		n++
		curRun.Store(int64(i))
		sched.Progress()
		if cur != nil {
			fmt.Fprintf(cur, "%d\n", i)
		}
		x := &X{Rng: rand.New(rand.NewSource(mix(*fSeed, i))), Run: i}
		if !sc.bubble {
			x.T = t
			x.T0 = time.Now()
			sc.run(x)
		} else {
			synctest.Test(t, func(t *testing.T) {
				x.T = t
				x.T0 = time.Now()
				x.S = sched.New(x.Rng)
				sc.run(x)
				x.S.Stop()
			})
			if i%64 == 0 {
				runtime.GC()
			}
		}
		if x.drop {
			W.Drop()
		} else {
			W.End()
		}
	}
	fmt.Printf("RUNS %d\n", n)
}
