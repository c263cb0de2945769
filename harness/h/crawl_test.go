package h

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"antverif/sched"
	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["crawl"] = scenario{true, func(x *X) { crawl(x, *fOpt) }}
}

// failure is an injected error.
type failure struct {
	id    int
	temp  bool
	cause error
}

func (f *failure) Error() string   { return fmt.Sprintf("injected failure %d", f.id) }
func (f *failure) Temporary() bool { return f.temp }
func (f *failure) Unwrap() error   { return f.cause }

// A failure may have a cause that means something elsewhere.
var causes = []error{io.EOF, context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, http.ErrUseLastResponse, http.ErrAbortHandler}

type curl struct {
	canon             string
	vars              []string
	host              int
	accept            bool
	allow             bool
	links             []int
	path, query, user string
	redir             string // where the answer comes from, if another URL
	tempN             int    // temporary answers so far
}

type chost struct {
	name string
	kind int // robots: 0 missing, 1 allow all, 2 star rules, 3 own group, 4 own group overriding star, 5 server error status
	body string
}

type fstat struct {
	url    string
	status int
}

type cworld struct {
	x       *X
	rng     *rand.Rand
	hosts   []chost
	urls    []*curl // index 0 unused
	byStr   map[string]int
	canon   map[string]int
	inf     bool
	next    int // next fresh id in an infinite world
	max     int
	pfail   float64
	nfail   int
	hard    int // failures that end the crawl
	fails   []*failure
	stat    map[int]fstat // failure id -> url, status
	parent  context.Context
	cancd   bool
	mu      sync.Mutex
	calls   map[int]context.Context
	ncall   int
	ret     bool
	live    int // calls with a live context after the crawl should have stopped
	settled bool
}

func (w *cworld) log(e string, m tr.M) {
	if w.parent != nil && w.parent.Err() != nil && !w.cancd {
		w.cancd = true
		W.Log("cancel", tr.M{})
	}
	m["g"] = sched.Gid()
	W.Log(e, m)
}

// id returns the id of a URL as the code spells it and whether that is the
// normal form.
func (w *cworld) id(s string) (int, bool) {
	if i, ok := w.canon[s]; ok {
		return i, true
	}
	if i, ok := w.byStr[s]; ok {
		return i, false
	}
	if u, err := url.Parse(s); err == nil {
		u.Fragment = ""
		u.Host = strings.ToLower(u.Host)
		for _, c := range []string{u.String(), strings.TrimSuffix(u.String(), "/"), u.String() + "/"} {
			if i, ok := w.canon[c]; ok {
				return i, false
			}
		}
	}
	return 0, false
}

// The bracket around an environment call.
func (w *cworld) enter(ctx context.Context) int {
	w.mu.Lock()
	w.ncall++
	n := w.ncall
	w.calls[n] = ctx
	w.mu.Unlock()
	return n
}
func (w *cworld) leave(n int) {
	w.mu.Lock()
	delete(w.calls, n)
	w.mu.Unlock()
}
func (w *cworld) newFailure(temp bool) *failure {
	w.nfail++
	f := &failure{id: w.nfail, temp: temp}
	if w.rng.Intn(3) == 0 {
		f.cause = causes[w.rng.Intn(len(causes))]
	}
	w.fails = append(w.fails, f)
	if !temp {
		w.hard++
	}
	return f
}
func (w *cworld) bad() bool {
	if w.inf && w.x.S.Steps > 1500 {
		return w.rng.Intn(4) == 0
	}
	return w.rng.Float64() < w.pfail
}

type body struct {
	r      io.Reader
	eof    bool
	closed bool
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		b.eof = true
	}
	return n, err
}
func (b *body) Close() error { b.closed = true; return nil }

func mkresp(req *http.Request, status int, hdr http.Header, text string) *http.Response {
	if hdr == nil {
		hdr = http.Header{}
	}
	return &http.Response{
		StatusCode: status, Status: fmt.Sprintf("%d %s", status, http.StatusText(status)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hdr, Body: &body{r: bytes.NewReader([]byte(text))},
		ContentLength: int64(len(text)), Request: req,
	}
}

// Do is the client of the fetcher.
func (w *cworld) Do(req *http.Request) (*http.Response, error) {
	ctx := req.Context()
	u, _ := w.id(req.URL.String())
	if u > 0 && w.urls[u].redir != "" {
		// The client has followed a redirect.
		t, err := url.Parse(w.urls[u].redir)
		if err != nil {
			panic(err)
		}
		req = req.Clone(ctx)
		req.URL = t
	}
	n := w.enter(ctx)
	w.count(ctx)
	w.log("freq", tr.M{"u": u, "cx": ctx.Err() != nil})
	w.x.S.Park(true, "fetch")
	defer w.leave(n)
	ret := func(kind string, f int) { w.log("fresp", tr.M{"u": u, "kind": kind, "f": f}) }
	if ctx.Err() != nil && w.rng.Intn(8) != 0 {
		ret("ctx", 0)
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: ctx.Err()}
	}
	if w.bad() {
		switch k := w.rng.Intn(6); {
		case k == 0:
			f := w.newFailure(false)
			ret("fail", f.id)
			return nil, f
		case k == 1:
			f := w.newFailure(false)
			ret("fail", f.id)
			return nil, fmt.Errorf("wrapped - %w", f)
		case k == 2:
			w.nfail++
			w.hard++
			w.stat[w.nfail] = fstat{req.URL.String(), 500}
			ret("fail", w.nfail)
			return mkresp(req, 500, nil, "error"), nil
		default:
			if k == 3 {
				f := w.newFailure(true)
				ret("temp", f.id)
				return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: f}
			}
			w.nfail++
			st := []int{503, 504, 429}[w.rng.Intn(3)]
			w.stat[w.nfail] = fstat{req.URL.String(), st}
			ret("temp", w.nfail)
			return mkresp(req, st, nil, "later"), nil
		}
	}
	if w.rng.Intn(12) == 0 {
		ret("gone", 0)
		return mkresp(req, 404, nil, "gone"), nil
	}
	ret("page", 0)
	return mkresp(req, 200, http.Header{"X-Id": {fmt.Sprint(u)}}, "<a href=/>x</a>"), nil
}

// count notices calls that should not happen any more.
func (w *cworld) count(ctx context.Context) {
	if w.settled && ctx.Err() == nil {
		w.live++
	}
}

// Scrape is the scraper.
func (w *cworld) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	var u int
	fmt.Sscan(p.Header.Get("X-Id"), &u)
	n := w.enter(ctx)
	w.count(ctx)
	w.log("scall", tr.M{"u": u, "cx": ctx.Err() != nil})
	w.x.S.Park(true, "scrape")
	defer w.leave(n)
	next := []int{}
	var ret ant.URLs
	links := append([]int(nil), w.urls[u].links...)
	if w.inf {
		for k := 1 + w.rng.Intn(3); k > 0 && w.next <= w.max; k-- {
			links = append(links, w.next)
			w.next++
		}
	}
	for _, v := range links {
		c := w.urls[v]
		raw := c.canon
		if len(c.vars) > 0 && w.rng.Intn(2) == 0 {
			raw = c.vars[w.rng.Intn(len(c.vars))]
		}
		pu, err := url.Parse(raw)
		if err != nil {
			panic(err)
		}
		ret = append(ret, pu)
		next = append(next, v)
	}
	// A scraper that fails may return URLs all the same.
	odd := ret
	if w.rng.Intn(2) == 0 {
		odd = nil
	}
	if w.bad() {
		f := w.newFailure(false)
		w.log("sret", tr.M{"u": u, "next": []int{}, "kind": "fail", "f": f.id})
		return odd, f
	}
	if ctx.Err() != nil && w.rng.Intn(2) != 0 {
		w.log("sret", tr.M{"u": u, "next": []int{}, "kind": "ctx", "f": 0})
		return odd, ctx.Err()
	}
	w.log("sret", tr.M{"u": u, "next": next, "kind": "ok", "f": 0})
	return ret, nil
}

// RoundTrip answers robots.txt requests.
func (w *cworld) RoundTrip(req *http.Request) (*http.Response, error) {
	ctx := req.Context()
	h := 0
	for i := range w.hosts {
		if req.URL.Host == w.hosts[i].name {
			h = i + 1
		}
	}
	n := w.enter(ctx)
	w.count(ctx)
	w.log("rreq", tr.M{"h": h, "cx": ctx.Err() != nil, "path": req.URL.Path})
	w.x.S.Park(true, "robots")
	defer w.leave(n)
	ret := func(kind string, f int) { w.log("rresp", tr.M{"h": h, "kind": kind, "f": f}) }
	if ctx.Err() != nil {
		ret("ctx", 0)
		return nil, ctx.Err()
	}
	if w.bad() {
		f := w.newFailure(false)
		ret("fail", f.id)
		return nil, f
	}
	if h == 0 {
		ret("ok", 0)
		return mkresp(req, 404, nil, ""), nil
	}
	ret("ok", 0)
	switch w.hosts[h-1].kind {
	case 0:
		return mkresp(req, 404, nil, "none"), nil
	case 5:
		return mkresp(req, 500, nil, "none"), nil
	}
	return mkresp(req, 200, nil, w.hosts[h-1].body), nil
}

// wrapped components.

type wqueue struct {
	w *cworld
	q ant.Queue
}

func (q wqueue) ids(us ant.URLs) ([]int, []int) {
	ids, odd := []int{}, []int{}
	for _, u := range us {
		i, ok := q.w.id(u.String())
		ids = append(ids, i)
		if !ok {
			odd = append(odd, i)
		}
	}
	return ids, odd
}
func (q wqueue) Enqueue(ctx context.Context, us ant.URLs) error {
	ids, odd := q.ids(us)
	q.w.log("enqc", tr.M{"us": ids})
	err := q.q.Enqueue(ctx, us)
	q.w.log("enq", tr.M{"us": ids, "ok": err == nil, "odd": odd})
	return err
}
func (q wqueue) Dequeue(ctx context.Context) (*ant.URL, error) {
	u, err := q.q.Dequeue(ctx)
	if err == nil {
		i, _ := q.w.id(u.String())
		q.w.log("deq", tr.M{"u": i})
	}
	return u, err
}
func (q wqueue) Done(ctx context.Context, u *ant.URL) error {
	i, _ := q.w.id(u.String())
	q.w.log("qdone", tr.M{"u": i})
	return q.q.Done(ctx, u)
}
func (q wqueue) Wait()                           { q.q.Wait() }
func (q wqueue) Close(ctx context.Context) error { return q.q.Close(ctx) }

type wdedupe struct {
	w *cworld
	d ant.Deduper
}

func (d wdedupe) Dedupe(ctx context.Context, us ant.URLs) (ant.URLs, error) {
	if d.w.rng.Float64() < d.w.pfail/4 {
		f := d.w.newFailure(false)
		d.w.log("dret", tr.M{"kind": "fail", "f": f.id})
		return nil, f
	}
	return d.d.Dedupe(ctx, us)
}

func crawl(x *X, opt string) {
	rng := x.Rng
	w := &cworld{x: x, rng: rng, byStr: map[string]int{}, canon: map[string]int{}, stat: map[int]fstat{}, calls: map[int]context.Context{}}
	nh := 1 + rng.Intn(3)
	names := []string{"a.example", "a.example:8080", "www.a.example"}
	impolite := rng.Intn(3) == 0
	switch opt {
	case "robots":
		impolite = rng.Intn(10) == 0
	case "fail", "cancel", "conc":
		impolite = rng.Intn(2) == 0
	}
	for i := 0; i < nh; i++ {
		h := chost{name: names[i], kind: rng.Intn(6)}
		switch h.kind {
		case 1:
			h.body = "User-agent: *\nDisallow:\n"
		case 2:
			h.body = "User-agent: other\nDisallow: /\n\nUser-agent: *\nDisallow: /priv\n"
		case 3:
			h.body = "User-agent: antbot\nDisallow: /priv\n"
		case 4:
			h.body = "User-agent: *\nDisallow: /\n\nUser-agent: antbot\nAllow: /priv/ok\nDisallow: /priv\n"
		}
		w.hosts = append(w.hosts, h)
	}
	w.inf = rng.Intn(12) == 0
	n := 1 + rng.Intn(8)
	w.max = n
	if w.inf {
		w.max = 120
	}
	accAll := rng.Intn(2) == 0
	wide := opt == "complete" && !w.inf && rng.Intn(150) == 0
	if wide { // many URLs, and pages with hundreds of links
		n = 150 + rng.Intn(300)
		w.max = n
	}
	w.urls = []*curl{nil}
	for i := 1; i <= w.max; i++ {
		h := rng.Intn(nh)
		c := &curl{host: h, accept: accAll || rng.Intn(4) != 0}
		scheme := "http"
		if h == 2 {
			scheme = "https"
		}
		dir := []string{"/pub", "/priv", "/priv/ok", "/pub", "/private"}[rng.Intn(5)]
		p := fmt.Sprintf("%s/p%d", dir, i)
		q, user := "", ""
		if rng.Intn(4) == 0 {
			q = "?a=1&b=2"
		}
		if i > 1 && rng.Intn(4) == 0 {
			// Like another URL but for one part.
			o := w.urls[1+rng.Intn(i-1)]
			if h, p, q, user = o.host, o.path, o.query, o.user; h == 2 {
				scheme = "https"
			} else {
				scheme = "http"
			}
			switch rng.Intn(5) {
			case 0:
				user = fmt.Sprintf("u%d@", i)
			case 1:
				user = fmt.Sprintf("u:p%d@", i)
			case 2:
				p = p[:strings.LastIndex(p, "/")] + fmt.Sprintf("/P%d", i) // another letter case
				if j := strings.LastIndex(o.path, "/p"); j > 0 {
					p = o.path[:j] + "/P" + o.path[j+2:]
				}
			case 3:
				q = fmt.Sprintf("?a=%d&b=2", i)
			case 4:
				p += fmt.Sprintf("/%d", i)
			}
			if w.canon[scheme+"://"+user+w.hosts[h].name+p+q] > 0 {
				p, q, user = fmt.Sprintf("%s/p%d", dir, i), "", ""
			}
		}
		c.host, c.path, c.query, c.user = h, p, q, user
		k := w.hosts[h].kind
		priv := strings.HasPrefix(p, "/priv")
		c.allow = true
		switch k {
		case 2, 3:
			c.allow = !priv
		case 4:
			c.allow = !priv || strings.HasPrefix(p, "/priv/ok")
		}
		host := user + w.hosts[h].name
		c.canon = scheme + "://" + host + p + q
		c.vars = []string{
			scheme + "://" + user + strings.ToUpper(w.hosts[h].name) + p + q,
			strings.ToUpper(scheme) + "://" + host + p + q + "#frag",
			scheme + "://" + host + "/x/.." + p + q,
			scheme + "://" + host + "/." + p + "/." + q,
			scheme + "://" + host + strings.Replace(p, "p", "%70", 1) + q,
		}
		if q != "" {
			a, b, _ := strings.Cut(q[1:], "&")
			c.vars = append(c.vars, scheme+"://"+host+p+"?"+b+"&"+a)
		} else {
			c.vars = append(c.vars, scheme+"://"+host+p+"?", scheme+"://"+host+p+"#")
		}
		if !strings.Contains(w.hosts[h].name, ":") {
			port := ":80"
			if scheme == "https" {
				port = ":443"
			}
			c.vars = append(c.vars, scheme+"://"+host+port+p+q)
		}
		w.urls = append(w.urls, c)
		w.canon[c.canon] = i
		for _, v := range c.vars {
			w.byStr[v] = i
		}
	}
	if w.inf {
		w.next = n + 1
	}
	for i := 1; i <= n; i++ {
		for k := rng.Intn(4); k > 0; k-- {
			w.urls[i].links = append(w.urls[i].links, 1+rng.Intn(n))
		}
	}
	if wide {
		for _, j := range rng.Perm(n) {
			w.urls[1].links = append(w.urls[1].links, j+1)
		}
		for k := rng.Intn(3); k > 0; k-- {
			c := w.urls[1+rng.Intn(n)]
			for l := 200 + rng.Intn(300); l > 0; l-- {
				c.links = append(c.links, 1+rng.Intn(n))
			}
		}
	}
	if rng.Intn(3) == 0 {
		// Some URLs lead elsewhere, several of them to the same page.
		for i := 1; i <= n; i++ {
			switch rng.Intn(6) {
			case 0, 1:
				w.urls[i].redir = "http://a.example/shared"
			case 2:
				w.urls[i].redir = w.urls[1+rng.Intn(n)].canon
			case 3:
				w.urls[i].redir = w.urls[i].vars[rng.Intn(len(w.urls[i].vars))]
			}
		}
	}
	switch rng.Intn(5) {
	case 0, 1:
		w.pfail = 0
	case 2:
		w.pfail = 0.05
	case 3:
		w.pfail = 0.15
	default:
		w.pfail = 0.4
	}
	cancelAt := -1
	if rng.Intn(3) == 0 {
		cancelAt = rng.Intn(200)
		if rng.Intn(3) == 0 {
			cancelAt = rng.Intn(30)
		}
	}
	switch opt {
	case "complete":
		w.pfail, cancelAt = 0, -1
		if rng.Intn(4) == 0 {
			w.pfail = 0.1
		}
	case "fail":
		if w.pfail == 0 {
			w.pfail = 0.1
		}
		if rng.Intn(4) != 0 {
			cancelAt = -1
		}
	case "cancel":
		if cancelAt < 0 {
			cancelAt = rng.Intn(150)
		}
		if rng.Intn(3) != 0 {
			w.pfail = 0
		}
	}
	workers := 1 + rng.Intn(4)
	conc := 0
	if rng.Intn(2) == 0 || opt == "conc" {
		conc = 1 + rng.Intn(4)
	}
	if w.inf && cancelAt < 0 && w.pfail == 0 {
		cancelAt = 200 + rng.Intn(600)
	}
	cfg := ant.EngineConfig{Scraper: w, Workers: workers, Concurrency: conc, Impolite: impolite}
	if rng.Intn(20) == 0 {
		cfg.Workers = 0
	}
	maxAtt := 1 + rng.Intn(3)
	cfg.Fetcher = &ant.Fetcher{Client: w, MaxAttempts: maxAtt}
	*ant.DefaultClient = http.Client{Transport: w}
	qw := rng.Intn(4) != 0
	if qw {
		cfg.Queue = wqueue{w, ant.MemoryQueue(rng.Intn(5))}
	}
	dw := rng.Intn(2) == 0
	if dw {
		cfg.Deduper = wdedupe{w, ant.DedupeMap()}
	}
	if !accAll {
		cfg.Matcher = ant.MatcherFunc(func(u *url.URL) bool {
			i, norm := w.id(u.String())
			ok := i > 0 && w.urls[i].accept
			w.log("match", tr.M{"u": i, "norm": norm, "ok": ok})
			return ok
		})
	} else {
		for _, c := range w.urls[1:] {
			c.accept = true
		}
	}
	lim := rng.Intn(2) == 0
	if lim {
		cfg.Limiter = ant.LimiterFunc(func(ctx context.Context, u *url.URL) error {
			i, _ := w.id(u.String())
			n := w.enter(ctx)
			defer w.leave(n)
			w.count(ctx)
			w.log("lcall", tr.M{"u": i, "cx": ctx.Err() != nil})
			x.S.Park(true, "limit")
			if ctx.Err() != nil {
				w.log("lret", tr.M{"u": i, "kind": "ctx", "f": 0})
				return ctx.Err()
			}
			if w.rng.Float64() < w.pfail/3 {
				f := w.newFailure(false)
				w.log("lret", tr.M{"u": i, "kind": "fail", "f": f.id})
				return f
			}
			w.log("lret", tr.M{"u": i, "kind": "ok", "f": 0})
			return nil
		})
	}
	// Start URLs.
	var starts []string
	sids := []int{}
	for k := 1 + rng.Intn(3); k > 0; k-- {
		i := 1 + rng.Intn(n)
		raw := w.urls[i].canon
		if rng.Intn(2) == 0 {
			raw = w.urls[i].vars[rng.Intn(len(w.urls[i].vars))]
		}
		starts = append(starts, raw)
		sids = append(sids, i)
	}
	if wide {
		starts = append(starts, w.urls[1].canon)
		sids = append(sids, 1)
	}
	if rng.Intn(25) == 0 {
		// A long list that names the same few URLs over and over.
		for k := rng.Intn(600); k > 0; k-- {
			i := 1 + rng.Intn(n)
			raw := w.urls[i].canon
			if rng.Intn(4) == 0 {
				raw = w.urls[i].vars[rng.Intn(len(w.urls[i].vars))]
			}
			starts = append(starts, raw)
			sids = append(sids, i)
		}
	}
	badStart := false
	if rng.Intn(15) == 0 || (opt == "scope" && rng.Intn(3) == 0) {
		badStart = true
		b := []string{"ftp://a.example/x", "mailto:x@a.example", "/relative", "http://a b/", "a.example/x", "://x", "", "javascript:void(0)", "http://[::1/", "HTTPS:"}[rng.Intn(9)]
		k := rng.Intn(len(starts) + 1)
		starts = append(starts[:k], append([]string{b}, starts[k:]...)...)
	} else if rng.Intn(25) == 0 {
		starts, sids = nil, []int{}
	}
	hosts := make([]int, len(w.urls)-1)
	acc := make([]bool, len(w.urls)-1)
	alw := make([]bool, len(w.urls)-1)
	for i, c := range w.urls[1:] {
		hosts[i], acc[i], alw[i] = c.host+1, c.accept, c.allow
	}
	W.Log("begin", tr.M{"run": x.Run, "conc": conc, "workers": workers, "impolite": impolite, "host": hosts, "accept": acc, "allow": alw,
		"qw": qw, "lim": lim, "att": maxAtt, "bad": badStart, "starts": sids, "nh": nh, "inf": w.inf, "opt": opt})
	eng, err := ant.NewEngine(cfg)
	if err != nil {
		panic(err)
	}
	parent, cancel := context.WithCancel(context.Background())
	if rng.Intn(6) == 0 && cancelAt >= 0 {
		var c2 context.CancelFunc
		parent, c2 = context.WithTimeout(parent, time.Duration(1+rng.Intn(400))*time.Millisecond)
		defer c2()
	}
	w.parent = parent
	defer cancel()
	split := rng.Intn(8) == 0 && len(starts) > 0 && !badStart
	x.S.Start()
	go func() {
		var err error
		if split {
			// Part of the start URLs through Enqueue.
			k := rng.Intn(len(starts)) + 1
			if err = eng.Enqueue(parent, starts[:k]...); err == nil {
				starts = starts[k:]
			}
		}
		if err == nil {
			err = eng.Run(parent, starts...)
		}
		wraps := []int{}
		for _, f := range w.fails {
			if errors.Is(err, f) {
				wraps = append(wraps, f.id)
			}
		}
		fe, fp := ant.FetchError{}, &ant.FetchError{}
		if errors.As(err, &fp) {
			fe = *fp
		}
		if fe.URL != nil || errors.As(err, &fe) {
			for k, v := range w.stat {
				if v == (fstat{fe.URL.String(), fe.Status}) {
					wraps = append(wraps, k)
				}
			}
		}
		w.ret = true
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		w.log("ret", tr.M{"nil": err == nil, "wraps": wraps, "ctx": errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded), "msg": msg, "open": len(w.calls)})
	}()
	x.S.Settle()
	hang := func(why string) {
		W.Log("hang", tr.M{"why": why})
		if fVerbose {
			fmt.Println(sched.Dump())
		}
		W.End()
		abandon(8)
	}
	probe := func() {
		if !x.S.Drain(20000) {
			return
		}
		w.mu.Lock()
		dead := true
		for _, c := range w.calls {
			dead = dead && c.Err() != nil
		}
		w.mu.Unlock()
		if parent.Err() != nil || w.hard > 0 {
			w.settled = true
			w.log("probe", tr.M{"dead": dead})
		}
	}
	for i := 0; ; i++ {
		if i > 100000 {
			x.drop = true
			hang("steps")
		}
		if w.live > 40 {
			hang("runaway")
		}
		ps := x.S.Parked()
		if len(ps) == 0 {
			if !x.S.Idle(24 * time.Hour) {
				if w.ret {
					break
				}
				hang("idle")
			}
			continue
		}
		if i == cancelAt {
			if w.parent.Err() == nil {
				cancel()
			}
			continue
		}
		switch r := rng.Intn(200); {
		case r == 0:
			x.S.Advance(time.Duration(rng.Intn(300)) * time.Millisecond)
		case r < 4 || ((w.hard > 0 || w.cancd) && r < 30 && !w.settled):
			probe()
		}
		if ps = x.S.Parked(); len(ps) == 0 {
			continue
		}
		p := x.S.Choose(ps)
		if p.Env && x.S.Mode == 3 && len(w.calls) > 1 && rng.Intn(3) == 0 {
			// leave some calls open for long
			p = ps[rng.Intn(len(ps))]
		}
		x.S.Release(p)
	}
	x.S.Stop()
	if n, d := sched.Left("yields/ant."); n > 0 {
		W.Log("leak", tr.M{"n": n, "why": firstLine(d)})
		W.End()
		abandon(8)
	}
	W.Log("end", tr.M{})
}

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i > 0 {
		return s[:i]
	}
	return s
}

var fVerbose = false
