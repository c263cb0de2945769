package h

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"antverif/sched"
	"antverif/tr"
	"antverif/vos"

	"github.com/yields/ant/antcache"
)

func init() {
	log.SetOutput(io.Discard)
	scenarios["disk"] = scenario{true, func(x *X) { diskRun(x, false) }}
	scenarios["crash"] = scenario{true, func(x *X) { diskRun(x, true) }}
	scenarios["sweep"] = scenario{true, sweepRun}
	scenarios["sweepcases"] = scenario{true, sweepCases}
	scenarios["reopen"] = scenario{false, reopenRun}
}

var bg = context.Background()

// An inode of the model file system, and the bytes a crash is sure to keep.
type inode struct {
	cur, syn []byte
	dirty    bool
}

type image struct {
	c     int
	files map[string][]byte
	inos  map[string]int
}

type disk struct {
	x    *X
	root string // scratch
	dir  string // the store's directory
	st   *antcache.Diskstore
	opts []antcache.DiskOption
	comp bool
	keys []uint64
	vals [][]byte // by value number; 0 is nothing
	vkey []int
	nop  int
	cold bool

	ino        map[int]*inode
	poss       map[string][]int
	last       map[string]int
	dead       bool // crashed: what still runs does not count
	crash      bool
	nc         int
	imgs       []image
	final      *image
	endAt      int // number of operation after which the session crashes
	nfs        int
	pimg       float64
	pflt       float64
	prm        float64         // how often removing a file in a sweep fails
	rmKeys     map[int]int64   // when it last did, by key
	storing    map[int64]*bool // goroutine in a Store -> an operation of it was made to fail
	incomplete bool
}

func newDisk(x *X, mode string) *disk {
	root, err := os.MkdirTemp(*fDir, "disk")
	if err != nil {
		panic(err)
	}
	d := &disk{x: x, root: root, dir: filepath.Join(root, "s0"), vals: [][]byte{nil}, vkey: []int{0},
		ino: map[int]*inode{}, poss: map[string][]int{}, last: map[string]int{}, storing: map[int64]*bool{}}
	if err := os.Mkdir(d.dir, 0o755); err != nil {
		panic(err)
	}
	pool := []uint64{0, 1, 7, 10, 42, 1 << 32, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 1, math.MaxUint64}
	x.Rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	d.keys = pool
	return d
}

func (d *disk) open() error {
	st, err := antcache.Open(d.dir, d.opts...)
	d.st = st
	d.cold = true
	W.Log("open", tr.M{"ok": err == nil, "t": d.x.Ms()})
	return err
}

// value makes value number len(vals): its bytes tell it from all others,
// except for very short ones.
func (d *disk) value(k, size int) (int, []byte) {
	id := len(d.vals)
	b := make([]byte, size)
	z := uint64(id)*0x9E3779B97F4A7C15 + 12345
	for i := range b {
		z ^= z << 13
		z ^= z >> 7
		z ^= z << 17
		b[i] = byte(z >> 24)
		if i > 64 && id%3 == 0 {
			b[i] = b[i-64] // compressible
		}
	}
	d.vals = append(d.vals, b)
	d.vkey = append(d.vkey, k)
	return id, append([]byte{}, b...)
}

func (d *disk) classify(k int, b []byte, err error) (string, []int) {
	if err != nil {
		return "err", []int{}
	}
	if b == nil {
		return "none", []int{}
	}
	vs := []int{}
	for i, v := range d.vals {
		if i > 0 && d.vkey[i] == k && bytes.Equal(v, b) {
			vs = append(vs, i)
		}
	}
	if len(vs) == 0 {
		return "bad", vs
	}
	return "val", vs
}

func (d *disk) store(k, size int) {
	v, b := d.value(k, size)
	d.nop++
	o := d.nop
	W.Log("sinv", tr.M{"o": o, "k": k, "v": v, "size": size, "t": d.x.Ms()})
	flt := false
	g := sched.Gid()
	d.storing[g] = &flt
	err := d.st.Store(bg, d.keys[k-1], b)
	delete(d.storing, g)
	if d.dead {
		return
	}
	for i := range b { // the caller may use its buffer again
		b[i] ^= 0x5a
	}
	m := tr.M{"o": o, "ok": err == nil, "flt": flt, "t": d.x.Ms(), "mt": d.x.Ms(), "size": -1}
	if *fScn == "sweep" {
		fi, serr := os.Stat(filepath.Join(d.dir, strconv.FormatUint(d.keys[k-1], 10)))
		if serr != nil || !fi.ModTime().Equal(time.Now().Truncate(time.Microsecond)) {
			d.incomplete = true
		} else {
			m["size"] = fi.Size()
		}
	}
	W.Log("sret", m)
}

func (d *disk) load(k int) (string, []int) {
	d.nop++
	o := d.nop
	W.Log("linv", tr.M{"o": o, "k": k, "t": d.x.Ms()})
	b, err := d.st.Load(bg, d.keys[k-1])
	if d.dead {
		return "none", nil
	}
	r, vs := d.classify(k, b, err)
	m := tr.M{"o": o, "r": r, "vs": vs, "t": d.x.Ms()}
	if err != nil {
		m["err"] = err.Error()
	}
	W.Log("lret", m)
	for i := range b { // the caller may change what it got
		b[i] ^= 0x5a
	}
	return r, vs
}

// ---------------------------------------------------------- file system

func (d *disk) before(op *vos.Op) error {
	flt := d.storing[sched.Gid()]
	if flt == nil && op.Kind == "remove" && d.prm > 0 && d.x.Rng.Float64() < d.prm {
		key := 0
		for i, k := range d.keys {
			if filepath.Base(op.Name) == strconv.FormatUint(k, 10) {
				key = i + 1
			}
		}
		d.rmKeys[key] = time.Since(d.x.T0).Milliseconds()
		return []error{syscall.EIO, syscall.EACCES, syscall.EBUSY}[d.x.Rng.Intn(3)]
	}
	if flt == nil || d.dead || d.x.Rng.Float64() >= d.pflt {
		return nil
	}
	switch op.Kind {
	case "write":
		if n := len(op.Data); n > 0 && d.x.Rng.Intn(2) == 0 {
			op.Short = d.x.Rng.Intn(n)
		}
	case "create", "truncate", "sync", "dirsync", "close", "rename", "link", "stat":
	case "remove":
		if d.x.Rng.Intn(2) == 0 {
			return nil
		}
	default:
		return nil
	}
	*flt = true
	return []error{syscall.EIO, syscall.ENOSPC}[d.x.Rng.Intn(2)]
}

func (d *disk) after(op *vos.Op, err error) {
	if d.dead {
		return
	}
	name, to := filepath.Base(op.Name), filepath.Base(op.To)
	e := tr.M{"op": op.Kind, "name": name, "to": to, "ino": op.Ino, "off": op.Off, "n": len(op.Data)}
	in := d.ino[op.Ino]
	switch op.Kind {
	case "write":
		if in == nil || len(op.Data) == 0 && err != nil || err != nil && op.Short == 0 {
			return
		}
		if n := int(op.Off) + len(op.Data); n > len(in.cur) {
			in.cur = append(append([]byte{}, in.cur...), make([]byte, n-len(in.cur))...)
		} else {
			in.cur = append([]byte{}, in.cur...)
		}
		copy(in.cur[op.Off:], op.Data)
		in.dirty = true
	case "create":
		if err != nil {
			return
		}
		d.ino[op.Ino] = &inode{}
		d.poss[name] = append(d.possible(name), op.Ino)
		d.last[name] = op.Ino
	case "truncate":
		if err != nil || in == nil {
			return
		}
		b := make([]byte, op.Off)
		copy(b, in.cur)
		in.cur, in.dirty = b, true
	case "sync":
		if err != nil || in == nil {
			return
		}
		in.syn, in.dirty = in.cur, false
	case "dirsync":
		if err != nil {
			return
		}
		for n := range d.poss {
			d.poss[n] = []int{d.last[n]}
		}
	case "rename":
		if err != nil {
			return
		}
		d.poss[to] = append(d.possible(to), d.last[name])
		d.last[to] = d.last[name]
		d.poss[name] = append(d.possible(name), 0)
		d.last[name] = 0
	case "link":
		if err != nil {
			return
		}
		d.poss[to] = append(d.possible(to), d.last[name])
		d.last[to] = d.last[name]
	case "remove":
		if err != nil {
			return
		}
		d.poss[name] = append(d.possible(name), 0)
		d.last[name] = 0
	default:
		return
	}
	W.Log("fs", e)
	if !d.crash {
		return
	}
	d.nfs++
	if d.endAt > 0 && d.nfs >= d.endAt {
		im := d.image()
		d.final = &im
		d.imgs = append(d.imgs, im)
		d.dead = true
		return
	}
	if d.x.Rng.Float64() < d.pimg && len(d.imgs) < 60 {
		d.imgs = append(d.imgs, d.image())
	}
}

func (d *disk) possible(name string) []int {
	if p, ok := d.poss[name]; ok {
		return p
	}
	return []int{0}
}

// image chooses what a crash now would leave.
func (d *disk) image() image {
	rng := d.x.Rng
	d.nc++
	im := image{c: d.nc, files: map[string][]byte{}, inos: map[string]int{}}
	style := rng.Intn(4)
	content := map[int][]byte{}
	var names []string
	for n := range d.poss {
		names = append(names, n)
	}
	sort.Strings(names)
	img := [][3]any{}
	for _, n := range names {
		p := d.poss[n]
		i := p[rng.Intn(len(p))]
		switch style {
		case 0:
			i = p[0]
		case 1, 2:
			i = p[len(p)-1]
		}
		if i == 0 {
			continue
		}
		in := d.ino[i]
		b, ok := content[i]
		if !ok {
			b = in.cur
			if in.dirty {
				switch k := rng.Intn(4); {
				case k == 0 || style == 2:
					b = in.syn
				case k == 1:
					b = b[:rng.Intn(len(b)+1)]
				case k == 2:
					b = append([]byte{}, b...)
					for j := rng.Intn(len(b) + 1); j < len(b); j++ {
						b[j] = 0
					}
				}
			}
			content[i] = b
		}
		im.files[n], im.inos[n] = b, i
		img = append(img, [3]any{n, i, len(b)})
	}
	W.Log("crash", tr.M{"c": im.c, "img": img})
	return im
}

func (d *disk) materialise(im image, name string) string {
	dir := filepath.Join(d.root, name)
	if err := os.Mkdir(dir, 0o755); err != nil {
		panic(err)
	}
	for n, b := range im.files {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			panic(err)
		}
		now := time.Now()
		os.Chtimes(filepath.Join(dir, n), now, now)
	}
	return dir
}

// recover opens every image and looks at what a user would find.
func (d *disk) recover() {
	for _, im := range d.imgs {
		dir := d.materialise(im, fmt.Sprintf("c%d", im.c))
		opts := []antcache.DiskOption{antcache.SweepEvery(0), antcache.Maxage(0), antcache.Maxsize(0)}
		if d.comp {
			opts = append(opts, antcache.Compress())
		}
		st, err := antcache.Open(dir, opts...)
		if err != nil {
			for k := range d.keys {
				W.Log("recov", tr.M{"c": im.c, "k": k + 1, "r": "err", "vs": []int{}, "err": err.Error()})
			}
			continue
		}
		st.Wait(bg)
		for i, key := range d.keys {
			b, err := st.Load(bg, key)
			r, vs := d.classify(i+1, b, err)
			m := tr.M{"c": im.c, "k": i + 1, "r": r, "vs": vs}
			if err != nil {
				m["err"] = err.Error()
			}
			W.Log("recov", m)
		}
		st.Close()
		os.RemoveAll(dir)
	}
	d.imgs = nil
}

// same: the model file system holds what the real one holds.
func (d *disk) same() bool {
	es, err := os.ReadDir(d.dir)
	if err != nil {
		return false
	}
	n := 0
	for _, i := range d.last {
		if i != 0 {
			n++
		}
	}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(d.dir, e.Name()))
		i := d.last[e.Name()]
		if err != nil || i == 0 || !bytes.Equal(b, d.ino[i].cur) {
			return false
		}
	}
	return n == len(es)
}

func (d *disk) hook() {
	vos.Set(&vos.Hook{Dir: d.dir, Before: d.before, After: d.after})
}

// do runs f under the scheduler until it returns.
func (d *disk) do(f func()) bool {
	done := false
	go func() { f(); done = true }()
	d.x.S.Settle()
	for i := 0; i < 200000 && !done; i++ {
		if ps := d.x.S.Parked(); len(ps) > 0 {
			d.x.S.Release(d.x.S.Choose(ps))
		} else if !d.x.S.Idle(time.Hour) {
			break
		}
	}
	return done
}

func (d *disk) cleanup() {
	vos.Set(nil)
	os.RemoveAll(d.root)
}

// diskRun calls a store from several goroutines while it warms up and sweeps;
// with crash it also makes file operations fail and crashes.
func diskRun(x *X, crash bool) {
	rng := x.Rng
	mode := map[bool]string{true: "crash", false: "disk"}[crash]
	d := newDisk(x, mode)
	defer d.cleanup()
	d.crash = crash
	d.keys = d.keys[:1+rng.Intn(3)]
	maxage, maxsize, sweep := 0, 0, 0
	if p := rng.Intn(4); p != 0 && !crash || p == 1 {
		sweep = 300 + rng.Intn(1500)
		if rng.Intn(4) != 0 {
			maxage = 1 + rng.Intn(2500)
		}
		if rng.Intn(3) == 0 {
			maxsize = 1 + rng.Intn(120)
		}
	}
	d.comp = maxsize == 0 && rng.Intn(3) == 0
	d.opts = []antcache.DiskOption{antcache.Maxage(time.Duration(maxage) * time.Millisecond), antcache.Maxsize(int64(maxsize)), antcache.SweepEvery(time.Duration(sweep) * time.Millisecond)}
	if d.comp {
		d.opts = append(d.opts, antcache.Compress())
	}
	if crash {
		d.pimg = []float64{0, 0.2, 0.6}[rng.Intn(3)]
		if rng.Intn(2) == 0 {
			d.pflt = []float64{0.03, 0.1, 0.3}[rng.Intn(3)]
		}
	}
	W.Log("begin", tr.M{"run": x.Run, "mode": mode, "keys": len(d.keys), "maxage": maxage, "maxsize": maxsize, "sweep": sweep, "comp": d.comp})
	d.hook()
	x.S.Start()
	sessions := 1 + rng.Intn(3)
	for s := 0; s < sessions; s++ {
		if s > 0 {
			time.Sleep(time.Duration(rng.Intn(800)) * time.Millisecond)
		}
		used := vos.Used.Load()
		d.dead, d.endAt, d.nfs = false, 0, 0
		if crash && rng.Intn(2) == 0 {
			d.endAt = 1 + rng.Intn(30)
		}
		if d.open() != nil {
			return
		}
		left := 0
		if s > 0 && (crash || rng.Intn(2) == 0) {
			if !d.do(func() { d.st.Wait(bg) }) {
				d.stuck()
			}
			W.Log("warm", tr.M{"ok": true})
			if sweep == 0 && d.final != nil { // all of it is on disk
				for k := range d.keys {
					r, vs := d.load(k + 1)
					W.Log("pin", tr.M{"k": k + 1, "r": r, "vs": vs})
				}
			}
		} else {
			left++
			go func() {
				x.S.Park(true, "op")
				if d.st.Wait(bg) == nil && !d.dead {
					W.Log("warm", tr.M{"ok": true})
				}
				left--
			}()
		}
		for g := 1 + rng.Intn(4); g > 0; g-- {
			var plan [][2]int
			for i := 1 + rng.Intn(4); i > 0; i-- {
				size := -1
				if rng.Intn(2) == 0 || crash && rng.Intn(2) == 0 {
					size = []int{0, 1, 5, 20, 40, 60, 5000}[rng.Intn(7)]
				}
				plan = append(plan, [2]int{1 + rng.Intn(len(d.keys)), size})
			}
			left++
			go func() {
				defer func() { left-- }()
				for _, p := range plan {
					x.S.Park(true, "op")
					if d.dead {
						return
					}
					if p[1] >= 0 {
						d.store(p[0], p[1])
					} else {
						d.load(p[0])
					}
				}
			}()
		}
		x.S.Settle()
		for i := 0; i < 100000 && left > 0; i++ {
			if sweep > 0 && rng.Intn(12) == 0 {
				x.S.Advance(time.Duration(1+rng.Intn(2*sweep)) * time.Millisecond)
			}
			ps := x.S.Parked()
			if len(ps) == 0 {
				if !x.S.Idle(time.Hour) {
					break
				}
				continue
			}
			x.S.Release(x.S.Choose(ps))
		}
		if left > 0 {
			d.stuck()
		}
		if !d.do(func() { d.st.Close() }) {
			d.stuck()
		}
		if d.dead {
			d.dir = d.materialise(*d.final, fmt.Sprintf("s%d", s+1))
			d.ino, d.poss, d.last = map[int]*inode{}, map[string][]int{}, map[string]int{}
			img := [][3]any{}
			for n, b := range d.final.files {
				i := vos.Ino(filepath.Join(d.dir, n))
				d.ino[i] = &inode{cur: b, syn: b}
				d.poss[n], d.last[n] = []int{i}, i
				img = append(img, [3]any{n, i, len(b)})
			}
			W.Log("reboot", tr.M{"c": d.final.c, "img": img, "t": x.Ms()})
			d.hook()
		} else {
			W.Log("closed", tr.M{"ok": true})
			d.final = nil
		}
		if vos.Used.Load() == used || !d.same() {
			x.drop = true // not the operations we know
			break
		}
	}
	vos.Set(nil)
	x.S.Stop()
	d.recover()
}

func (d *disk) stuck() {
	d.x.S.Stop()
	W.Log("hang", nil)
	W.End()
	os.RemoveAll(d.root)
	abandon(8)
}

// sweepRun stores at different times and looks at what is left after sweeps.
func sweepRun(x *X) {
	rng := x.Rng
	d := newDisk(x, "sweep")
	lastTick = 0
	defer d.cleanup()
	d.keys = d.keys[:1+rng.Intn(6)]
	maxage := []int{0, -1000, 400, 1500, 4000, 20000}[rng.Intn(6)]
	maxsize := []int{0, -5, 1, 10, 60, 100, 200}[rng.Intn(7)]
	sweep := []int{500, 1000, 3000, 0, -1000}[rng.Intn(5)]
	if maxage > 0 && rng.Intn(3) == 0 {
		maxsize, d.prm, d.rmKeys = 0, []float64{0.3, 0.7}[rng.Intn(2)], map[int]int64{}
	}
	d.opts = []antcache.DiskOption{}
	if rng.Intn(12) == 0 {
		maxage = 24 * 3600 * 1000
	} else {
		d.opts = append(d.opts, antcache.Maxage(time.Duration(maxage)*time.Millisecond+500*time.Microsecond*time.Duration(min(1, max(0, maxage)))))
	}
	if rng.Intn(12) == 0 {
		maxsize = 1 << 30
	} else {
		d.opts = append(d.opts, antcache.Maxsize(int64(maxsize)))
	}
	if rng.Intn(12) == 0 {
		sweep = 5 * 60 * 1000
	} else {
		d.opts = append(d.opts, antcache.SweepEvery(time.Duration(sweep)*time.Millisecond))
	}
	if d.comp = rng.Intn(4) == 0; d.comp {
		d.opts = append(d.opts, antcache.Compress())
	}
	rng.Shuffle(len(d.opts), func(i, j int) { d.opts[i], d.opts[j] = d.opts[j], d.opts[i] })
	W.Log("begin", tr.M{"run": x.Run, "mode": "sweep", "keys": len(d.keys), "maxage": max(0, maxage), "maxsize": max(0, maxsize), "sweep": max(0, sweep), "comp": d.comp})
	d.hook()
	var t0 time.Time
	open := func() bool {
		t0 = time.Now()
		if d.open() != nil {
			return false
		}
		d.st.Wait(bg)
		W.Log("warm", tr.M{"ok": true})
		return true
	}
	if !open() {
		return
	}
	look := func() {
		for k := range d.keys {
			d.load(k + 1)
		}
		d.count()
	}
	unit := sweep
	if unit <= 0 {
		unit = 1000
	}
	for i := 4 + rng.Intn(20); i > 0; i-- {
		switch rng.Intn(6) {
		case 0, 1, 2:
			time.Sleep(time.Duration(1+rng.Intn(20)) * time.Millisecond)
			d.tick(t0, sweep, 3)
			d.store(1+rng.Intn(len(d.keys)), []int{0, 1, 3, 10, 10, 25, 60, 90}[rng.Intn(8)])
		case 3:
			time.Sleep(time.Duration(1+rng.Intn(unit)) * time.Millisecond)
			d.tick(t0, sweep, 3)
			look()
		case 4:
			n := 1 + rng.Intn(3)
			if rng.Intn(6) == 0 && maxage > 0 {
				n = 1 + maxage/unit
			}
			time.Sleep(time.Duration(n*unit) * time.Millisecond)
			d.tick(t0, sweep, 3)
			look()
		case 5:
			if rng.Intn(3) == 0 {
				d.st.Close()
				W.Log("closed", tr.M{"ok": true})
				time.Sleep(time.Duration(rng.Intn(2*unit)) * time.Millisecond)
				if !open() {
					return
				}
				lastTick = 0
			}
		}
	}
	d.st.Close()
	if d.incomplete || vos.Used.Load() == 0 {
		x.drop = true
	}
}

var lastTick int64

// tick logs the last sweep that happened since the last call; it sleeps on a
// little if one is due now.
func (d *disk) tick(t0 time.Time, sweep, gap int) {
	if sweep <= 0 {
		return
	}
	for time.Since(t0).Milliseconds()%int64(sweep) < int64(gap) {
		time.Sleep(time.Millisecond)
	}
	synctest.Wait()
	n := time.Since(t0).Milliseconds() / int64(sweep)
	if n > lastTick {
		lastTick = n
		t := t0.Sub(d.x.T0).Milliseconds() + n*int64(sweep)
		flt := []int{}
		for k, at := range d.rmKeys {
			if at >= t {
				flt = append(flt, k)
			}
		}
		sort.Ints(flt)
		W.Log("tick", tr.M{"t": t, "flt": flt})
	}
}

// reopenRun stores, puts other things into the directory and opens it again.
func reopenRun(x *X) {
	rng := x.Rng
	d := newDisk(x, "reopen")
	defer d.cleanup()
	d.keys = d.keys[:1+rng.Intn(len(d.keys))]
	d.comp = rng.Intn(2) == 0
	if d.comp {
		d.opts = append(d.opts, antcache.Compress())
	}
	if rng.Intn(3) == 0 {
		d.opts = append(d.opts, antcache.SweepEvery(0))
	}
	W.Log("begin", tr.M{"run": x.Run, "mode": "reopen", "keys": len(d.keys), "maxage": 0, "maxsize": 0, "sweep": 0, "comp": d.comp})
	within := func(f func()) bool {
		done := make(chan struct{})
		go func() { f(); close(done) }()
		select {
		case <-done:
			return true
		case <-time.After(30 * time.Second):
			return false
		}
	}
	bad := map[int]bool{} // keys whose file cannot be written
	for s := 1 + rng.Intn(4); s > 0; s-- {
		if d.open() != nil {
			return
		}
		gone := rng.Intn(12) == 0
		if gone {
			os.RemoveAll(d.dir)
		}
		if gone || rng.Intn(4) != 0 {
			ok := within(func() { d.st.Wait(bg) })
			W.Log("warm", tr.M{"ok": ok})
			if !ok {
				d.hung()
			}
		}
		if gone {
			ok := within(func() { d.st.Close() })
			W.Log("closed", tr.M{"ok": ok})
			if !ok {
				d.hung()
			}
			return
		}
		for i := rng.Intn(8); i > 0; i-- {
			k := 1 + rng.Intn(len(d.keys))
			if rng.Intn(3) == 0 {
				d.load(k)
			} else if !bad[k] {
				size := []int{0, 1, 2, 3, 10, 100, 4096, 70000}[rng.Intn(8)]
				if rng.Intn(40) == 0 {
					size = 3 << 20
				}
				d.store(k, size)
			}
		}
		ok := within(func() { d.st.Close() })
		W.Log("closed", tr.M{"ok": ok})
		if !ok {
			d.hung()
		}
		for i := rng.Intn(4); i > 0; i-- {
			d.foreign(bad)
		}
		if d.open() != nil {
			return
		}
		ok = within(func() { d.st.Wait(bg) })
		W.Log("warm", tr.M{"ok": ok})
		if !ok {
			d.hung()
		}
		for k := range d.keys {
			d.load(k + 1)
		}
		d.st.Close()
	}
}

func (d *disk) hung() {
	W.End()
	os.RemoveAll(d.root)
	abandon(8)
}

// foreign puts something that is not an entry into the directory.
func (d *disk) foreign(bad map[int]bool) {
	rng := d.x.Rng
	k := rng.Intn(len(d.keys))
	key := strconv.FormatUint(d.keys[k], 10)
	names := []string{"x", ".", key + ".tmp", "123456.tmp", "0" + key, "00" + key, "+" + key, "-" + key, " " + key, key + " ", key + ".0", key + "x", "x" + key, "0x" + key,
		"18446744073709551616", "99999999999999999999999", "-1", "1_0", "1e1", "README.md", ".gitignore", "٣", "1٣"}
	n := names[rng.Intn(len(names))]
	p := filepath.Join(d.dir, n)
	switch rng.Intn(8) {
	case 0: // many
		for i := 0; i < 1+rng.Intn(60); i++ {
			os.WriteFile(filepath.Join(d.dir, fmt.Sprintf("f%d", i)), nil, 0o644)
		}
	case 1: // a directory where an entry would be
		if os.Mkdir(filepath.Join(d.dir, key), 0o755) == nil {
			bad[k+1] = true
			if rng.Intn(2) == 0 {
				os.WriteFile(filepath.Join(d.dir, key, "f"), []byte("f"), 0o644)
			}
		}
	case 2: // a dangling link
		os.Symlink("nowhere", p)
	case 3:
		os.Mkdir(p, 0o755)
	default:
		os.WriteFile(p, []byte(strings.Repeat("foreign", rng.Intn(5))), 0o644)
	}
}

// sweepCases replays sets of entries chosen by the model.
func sweepCases(x *X) {
	cases := rawCases()
	const per = 8
	for i := 0; i < per; i++ {
		n := x.Run*per + i
		if n >= len(cases) {
			if i == 0 {
				x.drop = true
			}
			return
		}
		sweepCase(x, cases[n])
	}
}

func sweepCase(x *X, b []byte) {
	var c struct {
		Ent             [][2]int
		Maxage, Maxsize int
	}
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	x.T0 = time.Now()
	d := newDisk(x, "sweep")
	defer d.cleanup()
	lastTick = 0
	for _, e := range c.Ent {
		d.nop = max(d.nop, e[0])
	}
	d.keys = d.keys[:d.nop]
	d.opts = []antcache.DiskOption{antcache.Maxage(time.Duration(c.Maxage) * time.Millisecond), antcache.Maxsize(int64(c.Maxsize)), antcache.SweepEvery(time.Second)}
	W.Log("begin", tr.M{"run": x.Run, "mode": "sweep", "keys": len(d.keys), "maxage": c.Maxage, "maxsize": c.Maxsize, "sweep": 1000, "comp": false})
	d.hook()
	if d.open() != nil {
		return
	}
	d.st.Wait(bg)
	W.Log("warm", tr.M{"ok": true})
	for _, e := range c.Ent {
		time.Sleep(10 * time.Millisecond)
		d.store(e[0], e[1])
	}
	time.Sleep(time.Second)
	d.tick(x.T0, 1000, 3)
	for k := range d.keys {
		d.load(k + 1)
	}
	d.count()
	d.st.Close()
	if d.incomplete || vos.Used.Load() == 0 {
		x.drop = true
	}
}

// count logs how many entries the directory holds.
func (d *disk) count() {
	es, err := os.ReadDir(d.dir)
	n := 0
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".tmp") {
			n++
		}
	}
	if err == nil {
		W.Log("dir", tr.M{"n": n})
	}
}
