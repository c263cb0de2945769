package h

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["fetch"] = scenario{true, fetchDirect}
	scenarios["fetchengine"] = scenario{true, func(x *X) { fetchEngine(x, *fOpt) }}
}

type agent string

func (a agent) String() string { return string(a) }

// ferr is an error that may report itself temporary.
type ferr struct {
	id    int
	temp  bool
	cause error
}

func (e *ferr) Error() string   { return fmt.Sprintf("failure %d", e.id) }
func (e *ferr) Temporary() bool { return e.temp }
func (e *ferr) Unwrap() error   { return e.cause }
func (w *fworld) ferr(temp bool) *ferr {
	e := &ferr{id: w.nf, temp: temp}
	switch w.x.Rng.Intn(6) {
	case 0: // what causes it means something elsewhere
		e.cause = causes[w.x.Rng.Intn(len(causes))]
	case 1: // its cause says the opposite
		e.cause = &ferr{temp: !temp}
	}
	return e
}

type plainErr struct{ id int }

func (e *plainErr) Error() string { return fmt.Sprintf("failure %d", e.id) }

// fbody reports what is done with it.
type fbody struct {
	w    *fworld
	id   int
	r    io.Reader
	step int
	said map[string]bool
}

func (b *fbody) say(e string) {
	if !b.said[e] {
		b.said[e] = true
		W.Log(e, tr.M{"b": b.id})
	}
}
func (b *fbody) Read(p []byte) (int, error) {
	if b.said["bclose"] {
		return 0, errors.New("read after close")
	}
	if b.step > 0 && len(p) > b.step {
		p = p[:b.step]
	}
	n, err := b.r.Read(p)
	if err == io.EOF {
		b.say("beof")
	} else if err != nil {
		b.say("berr")
	}
	return n, err
}
func (b *fbody) Close() error {
	b.say("bclose")
	if b.w.x.Rng.Intn(10) == 0 {
		return errors.New("close failed")
	}
	return nil
}

// spaces reads as white space for ever.
type spaces struct{}

func (spaces) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = ' '
	}
	return len(p), nil
}

type brokenReader struct{}

func (brokenReader) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

type fworld struct {
	x      *X
	parent context.Context
	cancd  bool
	nb     int
	nf     int
	urls   []string
	canon  map[string]int
	links  [][]int
	last   map[int]error // last failure per fetch
	want   agent
	seq    func(f, n int) int // outcome of request n of fetch f
	n      map[int]int
	big    bool
}

// t is virtual time in tenths of milliseconds.
func (w *fworld) t() int64 { return time.Since(w.x.T0).Microseconds() / 100 }
func (w *fworld) log(e string, m tr.M) {
	if w.parent != nil && w.parent.Err() != nil && !w.cancd {
		w.cancd = true
		W.Log("cancel", tr.M{"t": w.t()})
	}
	m["t"] = w.t()
	W.Log(e, m)
}

// newBody makes a body, some of which break or come in pieces.
func (w *fworld) newBody(text string) *fbody {
	w.nb++
	var r io.Reader = bytes.NewReader([]byte(text))
	rng := w.x.Rng
	switch rng.Intn(8) {
	case 0:
		r = io.MultiReader(bytes.NewReader([]byte(text[:rng.Intn(len(text)+1)])), brokenReader{})
	case 1:
		if w.big {
			r = bytes.NewReader(append([]byte(text), bytes.Repeat([]byte("x"), 40000+rng.Intn(100000))...))
		}
		if rng.Intn(2) == 0 {
			r = io.MultiReader(bytes.NewReader([]byte(text)), io.LimitReader(spaces{}, int64(1100000+rng.Intn(300000))))
			return &fbody{w: w, id: w.nb, r: r, said: map[string]bool{}}
		}
	}
	return &fbody{w: w, id: w.nb, r: r, step: []int{0, 0, 1, 7, 512}[rng.Intn(5)], said: map[string]bool{}}
}

func (w *fworld) Do(req *http.Request) (*http.Response, error) {
	rng := w.x.Rng
	f := w.canon[req.URL.String()]
	w.n[f]++
	ua := string(w.want)
	if ua == "" {
		ua = ant.UserAgent.String()
	}
	ok := req.Method == "GET" && f != 0 && req.Body == nil &&
		fmt.Sprint(req.Header["User-Agent"]) == fmt.Sprint([]string{ua}) &&
		fmt.Sprint(req.Header["Accept"]) == fmt.Sprint([]string{"text/html; charset=UTF-8"})
	w.log("freq", tr.M{"f": f, "ok": ok})
	w.x.S.Park(true, "fetch")
	ctx := req.Context()
	if ctx.Err() != nil && rng.Intn(3) != 0 {
		err := error(&url.Error{Op: "Get", URL: req.URL.String(), Err: ctx.Err()})
		w.last[f] = err
		w.log("fans", tr.M{"f": f, "b": 0, "kind": "err", "status": 0, "temp": isTmp(err)})
		return nil, err
	}
	answer := func(status int) *http.Response {
		r := *req
		resp := mkresp(&r, status, http.Header{"X-Id": {strconv.Itoa(f)}}, "")
		resp.Request.URL = req.URL
		b := w.newBody(fmt.Sprintf("<title>%d</title>", f))
		resp.Body = b
		return resp
	}
	fail := func(err error, temp bool) (*http.Response, error) {
		w.last[f] = err
		switch rng.Intn(4) {
		case 0:
			err = fmt.Errorf("transport: %w", err)
		case 1:
			err = fmt.Errorf("outer: %w", fmt.Errorf("inner: %w", err))
		case 2:
			err = &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
		}
		b := 0
		var resp *http.Response
		if rng.Intn(10) == 0 {
			resp = answer(302)
			b = resp.Body.(*fbody).id
		}
		w.log("fans", tr.M{"f": f, "b": b, "kind": "err", "status": 0, "temp": temp})
		return resp, err
	}
	switch k := w.seq(f, w.n[f]); {
	case k >= 100:
		resp := answer(k)
		kind := "status"
		if k < 400 {
			kind = "ok"
		}
		w.log("fans", tr.M{"f": f, "b": resp.Body.(*fbody).id, "kind": kind, "status": k, "temp": k == 429 || k == 503 || k == 504})
		return resp, nil
	case k == 1: // reports itself temporary
		w.nf++
		return fail(w.ferr(true), true)
	case k == 2: // reports itself not temporary
		w.nf++
		return fail(w.ferr(false), false)
	default: // does not say
		w.nf++
		return fail(&plainErr{w.nf}, false)
	}
}

func isTmp(err error) bool {
	var t interface{ Temporary() bool }
	return errors.As(err, &t) && t.Temporary()
}

func pickSeq(x *X) func(f, n int) int {
	rng := x.Rng
	temps := []int{429, 503, 504, 1}
	finals := []int{200, 200, 200, 201, 204, 206, 301, 304, 399, 400, 401, 403, 404, 404, 405, 408, 410, 418, 425, 428, 430, 431, 499, 500, 501, 502, 505, 507, 511, 599, 2, 3}
	lens := map[int]int{}
	fin := map[int]int{}
	one := 0
	if rng.Intn(3) == 0 {
		one = temps[rng.Intn(4)]
	}
	return func(f, n int) int {
		if _, ok := lens[f]; !ok {
			lens[f] = rng.Intn(4)
			if rng.Intn(3) == 0 {
				lens[f] = rng.Intn(30)
			}
			fin[f] = finals[rng.Intn(len(finals))]
		}
		if n > lens[f] {
			return fin[f]
		}
		if one != 0 {
			return one
		}
		return temps[rng.Intn(4)]
	}
}

// fetcherOf returns a fetcher and the limits it has to keep to, in tenths of
// milliseconds.
func (w *fworld) fetcherOf() (f *ant.Fetcher, max, minb, maxb int) {
	rng := w.x.Rng
	f = &ant.Fetcher{Client: w}
	max, minb, maxb = 5, 500, 10000
	switch rng.Intn(4) {
	case 0:
	case 1:
		f.MaxAttempts = -rng.Intn(3)
	default:
		f.MaxAttempts = 1 + rng.Intn(7)
		if rng.Intn(8) == 0 {
			f.MaxAttempts = 25
		}
		max = f.MaxAttempts
	}
	if rng.Intn(2) == 0 {
		f.MinBackoff = time.Duration(1+rng.Intn(300)) * time.Millisecond
		minb = int(f.MinBackoff / (100 * time.Microsecond))
	}
	if rng.Intn(2) == 0 {
		f.MaxBackoff = time.Duration(minb/10+1+rng.Intn(3000)) * time.Millisecond
		maxb = int(f.MaxBackoff / (100 * time.Microsecond))
	}
	if rng.Intn(2) == 0 {
		w.want = agent([]string{"spy", "Mozilla/5.0 (X11)", "a"}[rng.Intn(3)])
		f.UserAgent = w.want
	}
	return
}

// result classifies what a fetch gave.
func (w *fworld) result(f int, page *ant.Page, err error) tr.M {
	m := tr.M{"f": f, "kind": "", "status": 0, "wraps": false, "ctx": false}
	var fe *ant.FetchError
	if page != nil && err == nil {
		m["kind"] = "page"
		m["wraps"] = page.Header.Get("X-Id") == strconv.Itoa(f) && page.URL.String() == w.urls[f]
		return m
	}
	if err == nil {
		m["kind"] = "nil"
		return m
	}
	m["kind"] = "err"
	m["ctx"] = errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)
	if errors.As(err, &fe) {
		m["status"] = fe.Status
	}
	m["wraps"] = w.last[f] != nil && errors.Is(err, w.last[f])
	return m
}

func (w *fworld) context() (cancel func()) {
	rng := w.x.Rng
	ctx, cn := context.WithCancel(context.Background())
	w.parent = ctx
	if rng.Intn(4) == 0 {
		c, c2 := context.WithTimeout(ctx, time.Duration(rng.Intn(8000))*time.Millisecond+500*time.Microsecond+100*time.Microsecond*time.Duration(rng.Intn(3)))
		w.parent = c
		return func() { c2(); cn() }
	}
	return cn
}

func (w *fworld) drive(cancelAt int, cancel func(), over func() bool) {
	x := w.x
	for i := 0; i < 200000; i++ {
		ps := x.S.Parked()
		if len(ps) == 0 {
			if i == cancelAt {
				// in the middle of a wait
				x.S.Advance(time.Duration(x.Rng.Intn(300))*time.Millisecond + 500*time.Microsecond)
				cancel()
				w.log("probe", tr.M{})
				x.S.Settle()
				continue
			}
			if !x.S.Idle(24 * time.Hour) {
				if over() {
					return
				}
				break
			}
			continue
		}
		if i == cancelAt {
			cancel()
			w.log("probe", tr.M{})
		}
		x.S.Release(x.S.Choose(ps))
		if over() && len(x.S.Parked()) == 0 {
			return
		}
	}
	W.Log("stuck", nil)
	W.End()
	abandon(8)
}

// fetchDirect calls Fetch of one fetcher for a few URLs at the same time.
func fetchDirect(x *X) {
	rng := x.Rng
	w := &fworld{x: x, canon: map[string]int{}, last: map[int]error{}, n: map[int]int{}, seq: pickSeq(x), big: true}
	f, max, minb, maxb := w.fetcherOf()
	k := 1 + rng.Intn(3)
	w.urls = []string{""}
	for i := 1; i <= k; i++ {
		w.urls = append(w.urls, fmt.Sprintf("http%s://h%d.example/p%%20%d?q=%d", []string{"", "s"}[rng.Intn(2)], i, i, i))
		w.canon[w.urls[i]] = i
	}
	W.Log("begin", tr.M{"run": x.Run, "mode": "direct", "max": max, "minb": minb, "maxb": maxb, "n": k})
	cancel := w.context()
	defer cancel()
	left := k
	x.S.Start()
	for i := 1; i <= k; i++ {
		go func() {
			u, err := url.Parse(w.urls[i])
			if err != nil {
				panic(err)
			}
			page, err := f.Fetch(w.parent, u)
			m := w.result(i, page, err)
			w.log("fret", m)
			left--
		}()
	}
	x.S.Settle()
	at := -1
	if rng.Intn(2) == 0 {
		at = rng.Intn(24)
	}
	w.drive(at, cancel, func() bool { return left == 0 })
	W.Log("end", nil)
}

// fqueue tells when a URL is acknowledged.
type fqueue struct {
	ant.Queue
	w *fworld
}

func (q fqueue) Done(ctx context.Context, u *ant.URL) error {
	q.w.log("fdone", tr.M{"f": q.w.canon[u.String()]})
	return q.Queue.Done(ctx, u)
}

func (w *fworld) RoundTrip(req *http.Request) (*http.Response, error) {
	rng := w.x.Rng
	w.x.S.Park(true, "robots")
	if req.Context().Err() != nil {
		return nil, req.Context().Err()
	}
	resp := mkresp(req, []int{200, 200, 200, 404, 500, 403, 418, 204, 304}[rng.Intn(9)], nil, "")
	b := w.newBody("User-agent: *\nDisallow: /none\n" + []string{"", string(bytes.Repeat([]byte("# x\n"), 3000))}[rng.Intn(2)])
	resp.Body = b
	w.log("rans", tr.M{"b": b.id})
	return resp, nil
}

// fetchEngine runs crawls whose pages are used in every way.
func fetchEngine(x *X, opt string) {
	rng := x.Rng
	w := &fworld{x: x, canon: map[string]int{}, last: map[int]error{}, n: map[int]int{}, seq: pickSeq(x), big: true}
	f, max, minb, maxb := w.fetcherOf()
	n := 1 + rng.Intn(5)
	w.urls = []string{""}
	for i := 1; i <= n; i++ {
		w.urls = append(w.urls, fmt.Sprintf("http://h%d.example/p%d", rng.Intn(2), i))
		w.canon[w.urls[i]] = i
	}
	tmpS, tmpD := opt == "tmp" && rng.Intn(2) == 0, false
	tmpD = opt == "tmp" && !tmpS
	sfail := 0
	cfg := ant.EngineConfig{Fetcher: f, Workers: 1 + rng.Intn(3), Impolite: rng.Intn(3) == 0, Concurrency: rng.Intn(3)}
	cfg.Queue = fqueue{ant.MemoryQueue(1), w}
	*ant.DefaultClient = http.Client{Transport: w}
	tried := map[int]int{}
	var serr error
	cfg.Scraper = scraperFunc(func(ctx context.Context, p *ant.Page) (ant.URLs, error) {
		id, _ := strconv.Atoi(p.Header.Get("X-Id"))
		w.log("scrape", tr.M{"f": id})
		w.x.S.Park(true, "scrape")
		switch rng.Intn(9) {
		case 0:
		case 1:
			io.ReadFull(p.Body(), make([]byte, 5))
		case 2:
			io.Copy(io.Discard, p.Body())
		case 3:
			p.Query("title")
		case 4:
			p.HTML()
		case 5:
			var d struct {
				T string `css:"title"`
			}
			p.Scan(&d)
		case 6:
			p.Text("title")
			p.Text("title")
		case 7:
			io.ReadFull(p.Body(), make([]byte, 3))
			p.URLs()
		case 8:
			p.Document()
		}
		tried[id]++
		if tmpS && serr == nil {
			if tried[id] == 1 {
				w.nf++
				sfail = w.nf
				serr = &ferr{id: w.nf, temp: true}
				w.log("tmpfail", tr.M{"f": id, "what": "scraper"})
				return nil, serr
			}
		}
		if opt != "tmp" && rng.Intn(8) == 0 {
			return nil, errors.New("scrape failed")
		}
		var ret ant.URLs
		for k := rng.Intn(3); k > 0; k-- {
			u, _ := url.Parse(w.urls[1+rng.Intn(n)])
			ret = append(ret, u)
		}
		return ret, nil
	})
	dd := ant.DedupeMap()
	dn := 0
	cfg.Deduper = dedupeFunc(func(ctx context.Context, us ant.URLs) (ant.URLs, error) {
		if dn++; tmpD && dn == 1 {
			w.nf++
			serr = &ferr{id: w.nf, temp: true}
			w.log("tmpfail", tr.M{"f": 0, "what": "de-duplicator"})
			return nil, serr
		}
		return dd.Dedupe(ctx, us)
	})
	_ = sfail
	eng, err := ant.NewEngine(cfg)
	if err != nil {
		panic(err)
	}
	W.Log("begin", tr.M{"run": x.Run, "mode": "engine", "max": max, "minb": minb, "maxb": maxb, "n": n})
	cancel := w.context()
	defer cancel()
	over := false
	x.S.Start()
	go func() {
		err := eng.Run(w.parent, w.urls[1:]...)
		w.log("ret", tr.M{"ok": err == nil, "tmp": serr != nil && errors.Is(err, serr)})
		over = true
	}()
	x.S.Settle()
	at := -1
	if rng.Intn(3) == 0 {
		at = rng.Intn(60)
	}
	w.drive(at, cancel, func() bool { return over })
	W.Log("end", nil)
}

type dedupeFunc func(context.Context, ant.URLs) (ant.URLs, error)

func (f dedupeFunc) Dedupe(ctx context.Context, us ant.URLs) (ant.URLs, error) { return f(ctx, us) }
