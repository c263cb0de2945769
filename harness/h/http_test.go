package h

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"antverif/tr"

	"github.com/yields/ant/antcache"
)

func init() {
	scenarios["http"] = scenario{true, func(x *X) { httpRun(x, *fOpt) }}
	scenarios["httpcases"] = scenario{true, httpCases}
}

const (
	hNone = -2000000000
	hBig  = 1000000000
)

type ckey struct{}

// dir is a Cache-Control directive; -1 means without a value.
type dir struct {
	n string
	v int64
}

func dirsOf(ds []dir) []any {
	r := []any{}
	for _, d := range ds {
		v := d.v
		if v > hBig {
			v = hBig
		}
		r = append(r, []any{d.n, v})
	}
	return r
}

// hworld is the origin and what lies under the cache.
type hworld struct {
	x     *X
	mu    sync.Mutex
	id    int
	calls int
	resps map[int]*hresp // the origin's answers
	open  map[int]*hcall
	cc    *antcache.Cache
	next  func(c *hcall, req *http.Request) *hplan // scripted answers
	agg   bool
	urls  []string
	seq   int // stored values
	kv    map[uint64][]byte
	kn    map[uint64]int
	nkeys map[uint64]int
	fails bool
	slow  bool
	conc  bool
	mem   bool
	left  int
	prevQ hreq // the last request and what was asked with it
	prev  *http.Request
	first *http.Request // as it was made
}

// hresp is what the origin answered.
type hresp struct {
	id   int
	body []byte
}

// hcall is a call of the cache and the request as the caller made it.
type hcall struct {
	n        int
	mu       string
	req      *http.Request
	inm, ims string
	resp     *http.Response
	base     int
	closing  bool
}

// hplan describes an answer.
type hplan struct {
	err     error
	status  int
	cc      []dir
	nocc    bool
	date    int64 // ms, hNone
	exp     int64
	etag    string
	lm      string
	vary    []string
	hasvary bool
	body    int // length
	framing int
	broken  bool
	delay   time.Duration
	proto   int
}

func (w *hworld) ms() int64 { return time.Since(w.x.T0).Milliseconds() }
func (w *hworld) log(e string, m tr.M) {
	m["t"] = w.ms()
	W.Log(e, m)
}
func (w *hworld) stamp(ms int64) string {
	return w.x.T0.Add(time.Duration(ms) * time.Millisecond).UTC().Format(http.TimeFormat)
}

// lines spreads directives over header lines in some spelling.
func (w *hworld) lines(ds []dir) []string {
	rng := w.x.Rng
	var out []string
	cur := ""
	for i, d := range ds {
		s := d.n
		switch rng.Intn(6) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = http.CanonicalHeaderKey(s)
		}
		if d.v >= 0 {
			s += "=" + strconv.FormatInt(d.v, 10)
		}
		if i > 0 && rng.Intn(3) == 0 {
			out = append(out, cur)
			cur = ""
		}
		if cur != "" {
			cur += []string{",", ", ", " ,  ", ",,"}[rng.Intn(4)]
		}
		cur += s
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

var hopByHop = map[string]bool{"Connection": true, "Keep-Alive": true, "Proxy-Authenticate": true, "Proxy-Authorization": true,
	"Te": true, "Trailer": true, "Trailers": true, "Transfer-Encoding": true, "Upgrade": true, "X-From-Cache": true}

// hdrOf returns the end-to-end headers; the length of a body is framing.
func hdrOf(h http.Header, method string) tr.M {
	m := tr.M{}
	for k, v := range h {
		if k == "Content-Length" && (method != "HEAD" || v[0] == "0") {
			continue
		}
		if !hopByHop[k] {
			m[k] = strings.Join(v, "\n")
		}
	}
	return m
}

// hbody is a body of the origin.
type hbody struct {
	w    *hworld
	c    int
	id   int
	r    io.Reader
	step int
	eof  bool
	said map[string]bool
}

func (b *hbody) say(e string) {
	if !b.said[e] {
		b.said[e] = true
		W.Log(e, tr.M{"c": b.c, "id": b.id})
	}
}
func (b *hbody) Read(p []byte) (int, error) {
	if b.said["oclose"] {
		return 0, errors.New("read after close")
	}
	if b.step > 0 && len(p) > b.step {
		p = p[:b.step]
	}
	n, err := b.r.Read(p)
	if err == io.EOF {
		b.say("oeof")
	} else if err != nil {
		b.say("oerr")
	}
	return n, err
}
func (b *hbody) Close() error { b.say("oclose"); return nil }

// lastEOF returns the end of the data together with the last bytes.
type lastEOF struct{ b []byte }

func (r *lastEOF) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

var errOrigin = errors.New("origin unreachable")

// Do is the origin.
func (w *hworld) Do(req *http.Request) (*http.Response, error) {
	c, _ := req.Context().Value(ckey{}).(*hcall)
	if c == nil {
		panic("request without its caller's context")
	}
	inm, ims := req.Header.Get("If-None-Match"), req.Header.Get("If-Modified-Since")
	same := req.Method == c.req.Method && req.URL.String() == c.req.URL.String()
	hs := func(h http.Header) string {
		var s []string
		for k, v := range h {
			if k != "If-None-Match" && k != "If-Modified-Since" {
				s = append(s, fmt.Sprintf("%s:%q", k, v))
			}
		}
		sort.Strings(s)
		return strings.Join(s, ";")
	}
	same = same && hs(req.Header) == hs(c.req.Header)
	w.log("oreq", tr.M{"c": c.n, "inm": inm, "ims": ims, "same": same})
	if w.conc {
		w.x.S.Park(true, "origin")
	}
	p := w.next(c, req)
	if p.delay > 0 {
		time.Sleep(p.delay)
		if w.conc {
			w.x.S.Park(true, "origin")
		}
	}
	w.id++
	id := w.id
	if p.err == nil && req.Context().Err() != nil && w.x.Rng.Intn(2) == 0 {
		p.err = req.Context().Err()
	}
	if p.err != nil {
		w.log("oans", tr.M{"c": c.n, "id": id, "err": true, "status": 0})
		return nil, p.err
	}
	h := http.Header{"X-Gen": {strconv.Itoa(id)}}
	if p.status != 304 {
		h.Set("X-Base", strconv.Itoa(id))
	}
	rng := w.x.Rng
	if rng.Intn(3) == 0 {
		h["Set-Cookie"] = []string{fmt.Sprintf("a=%d; Path=/", id), "b=2"}
	}
	if rng.Intn(4) == 0 {
		h.Set("X-Long", strings.Repeat("v ", rng.Intn(150))+"e")
	}
	if rng.Intn(4) == 0 {
		h.Set([]string{"Content-Type", "Link", "X-Empty", "Server", "Age"}[rng.Intn(5)], []string{"text/html; charset=utf-8", "<a>; rel=\"next\"", "0"}[rng.Intn(3)])
	}
	if p.status == 304 && rng.Intn(4) == 0 {
		h.Set("Keep-Alive", "timeout=5")
		h.Set("Connection", "keep-alive")
	}
	if !p.nocc && len(p.cc) > 0 {
		h["Cache-Control"] = w.lines(p.cc)
	}
	if p.date != hNone {
		h.Set("Date", w.stamp(p.date))
	}
	if p.exp != hNone {
		h.Set("Expires", w.stamp(p.exp))
	}
	if p.etag != "" {
		h.Set("Etag", p.etag)
	}
	if p.lm != "" {
		h.Set("Last-Modified", p.lm)
	}
	for i, v := range p.vary {
		if i > 0 && rng.Intn(2) == 0 {
			h["Vary"][len(h["Vary"])-1] += ", " + recase(rng.Intn(3), v)
		} else {
			h["Vary"] = append(h["Vary"], recase(rng.Intn(3), v))
		}
	}
	text := []byte(fmt.Sprintf("body %d of %s;", id, c.mu))
	for len(text) < p.body {
		text = append(text, byte('a'+len(text)%23))
	}
	text = text[:p.body]
	nobody := req.Method == "HEAD" || p.status == 204 || p.status == 304
	if nobody {
		text = nil
	}
	w.resps[id] = &hresp{id, text}
	resp := &http.Response{StatusCode: p.status, Status: fmt.Sprintf("%d %s", p.status, http.StatusText(p.status)), Header: h, ContentLength: int64(len(text))}
	switch p.proto {
	case 0:
		resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/1.1", 1, 1
	case 1:
		resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/2.0", 2, 0
	case 2:
		resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/1.0", 1, 0
	}
	r2 := req
	resp.Request = r2
	switch {
	case req.Method == "HEAD" && p.status != 304:
		resp.ContentLength = int64(p.body)
		if p.body > 0 {
			h.Set("Content-Length", strconv.Itoa(p.body))
		}
	case p.status == 204 || p.status == 304:
		resp.ContentLength = 0
	case p.framing == 1 && p.proto == 0:
		resp.ContentLength, resp.TransferEncoding = -1, []string{"chunked"}
	case p.framing == 2:
		resp.ContentLength, resp.Uncompressed = -1, true
	case p.framing == 3:
		resp.ContentLength = -1
	default:
		if len(text) > 0 {
			h.Set("Content-Length", strconv.Itoa(len(text)))
		}
	}
	var r io.Reader = bytes.NewReader(text)
	if rng.Intn(3) == 0 {
		r = &lastEOF{text}
	}
	if p.broken && !nobody {
		cut := rng.Intn(len(text) + 1)
		r = io.MultiReader(bytes.NewReader(text[:cut]), brokenReader{})
	}
	resp.Body = &hbody{w: w, c: c.n, id: id, r: r, step: []int{0, 0, 1, 7, 4096}[rng.Intn(5)], said: map[string]bool{}}
	w.log("oans", tr.M{"c": c.n, "id": id, "err": false, "status": p.status, "hdr": hdrOf(h, req.Method), "cc": dirsOf(p.cc), "hascc": len(p.cc) > 0,
		"date": p.date, "exp": p.exp, "etag": p.etag, "lm": p.lm, "vary": append([]string{}, p.vary...), "hasvary": p.hasvary, "blen": len(text)})
	return resp, nil
}

func recase(k int, s string) string {
	switch k {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return http.CanonicalHeaderKey(s)
	}
	return s
}

// hstore is the storage under the cache.
type hstore struct{ w *hworld }

func (s hstore) call(ctx context.Context) int {
	if c, ok := ctx.Value(ckey{}).(*hcall); ok {
		return c.n
	}
	n := 0
	for _, c := range s.w.open {
		if c.closing {
			if n != 0 {
				return 0
			}
			n = c.n
		}
	}
	return n
}
func (s hstore) Store(ctx context.Context, key uint64, v []byte) error {
	w := s.w
	if w.conc {
		w.x.S.Park(true, "store")
	}
	c := s.call(ctx)
	if w.fails && w.x.Rng.Intn(3) == 0 {
		w.log("store", tr.M{"c": c, "n": 0, "err": true})
		return errors.New("disk full")
	}
	w.seq++
	w.kv[key] = append([]byte{}, v...)
	w.kn[key] = w.seq
	w.log("store", tr.M{"c": c, "n": w.seq, "err": false})
	return nil
}
func (s hstore) Load(ctx context.Context, key uint64) ([]byte, error) {
	w := s.w
	if w.conc {
		w.x.S.Park(true, "load")
	}
	c := s.call(ctx)
	if w.fails && w.x.Rng.Intn(6) == 0 {
		w.log("load", tr.M{"c": c, "err": true})
		return nil, errors.New("disk broken")
	}
	w.log("load", tr.M{"c": c, "err": false})
	return w.kv[key], nil
}

// hreq is a request a caller makes.
type hreq struct {
	method string
	url    int
	cc     []dir
	rng    bool
	rngh   string
	inm    string
	ims    string
	sel    map[string]string
	lines  bool // values in lines of their own
	extra  bool
	again  bool // with the request value of the previous call
}

func (w *hworld) call(q hreq, ctx context.Context) *hcall {
	w.calls++
	c := &hcall{n: w.calls, mu: q.method + " " + w.urls[q.url], inm: q.inm, ims: q.ims}
	w.open[c.n] = c
	ctx = context.WithValue(ctx, ckey{}, c)
	req, err := http.NewRequestWithContext(ctx, q.method, w.urls[q.url], nil)
	if err != nil {
		panic(err)
	}
	defer func() { w.prevQ = q }()
	if q.again {
		// The caller uses its request value for another call.
		req = w.prev.WithContext(ctx)
		return w.do(q, req, c)
	}
	if len(q.cc) > 0 {
		req.Header["Cache-Control"] = w.lines(q.cc)
	}
	if q.rng {
		req.Header.Set(q.rngh, map[string]string{"Range": "bytes=0-9", "Content-Range": "bytes 0-9/100", "Authorization": "Basic eDp5"}[q.rngh])
	}
	if q.inm != "" {
		req.Header.Set("If-None-Match", q.inm)
	}
	if q.ims != "" {
		req.Header.Set("If-Modified-Since", q.ims)
	}
	for k, v := range q.sel {
		if v != "" && q.lines {
			req.Header[http.CanonicalHeaderKey(k)] = strings.Split(v, ",")
		} else if v != "" {
			req.Header.Set(k, v)
		}
	}
	if q.extra {
		req.Header.Set("User-Agent", "spy")
		req.Header["X-Two"] = []string{"1", "2"}
	}
	return w.do(q, req, c)
}

func reqStr(r *http.Request) string {
	hdr := []string{}
	for k, v := range r.Header {
		hdr = append(hdr, fmt.Sprintf("%s:%q", k, v))
	}
	sort.Strings(hdr)
	return fmt.Sprint(r.Method, r.URL, r.Host, r.Proto, hdr)
}

func (w *hworld) do(q hreq, req *http.Request, c *hcall) *hcall {
	w.prev = req
	c.req = req.Clone(req.Context())
	if q.again {
		c.req = w.first
	} else {
		w.first = c.req
	}
	w.log("call", tr.M{"c": c.n, "mu": c.mu, "cm": q.method == "GET" || q.method == "HEAD", "cc": dirsOf(q.cc), "rng": q.rng, "inm": q.inm, "ims": q.ims, "sel": q.sel})
	resp, err := w.cc.Do(req)
	m := tr.M{"c": c.n, "mine": w.conc || reqStr(req) == reqStr(c.req), "kind": "err", "status": 0, "base": 0, "hdr": tr.M{"x": ""}, "xfc": false, "wraps": errors.Is(err, errOrigin) || errors.Is(err, context.Canceled)}
	if err == nil && resp != nil {
		m["kind"], m["status"], m["hdr"] = "resp", resp.StatusCode, hdrOf(resp.Header, q.method)
		m["xfc"] = resp.Header.Get("X-From-Cache") != ""
		c.base, _ = strconv.Atoi(resp.Header.Get("X-Base"))
		m["base"] = c.base
		c.resp = resp
	}
	w.log("ret", m)
	return c
}

// use reads the call's response in some way and closes it.
func (w *hworld) use(c *hcall, how int) {
	rng := w.x.Rng
	if c.resp == nil {
		return
	}
	var want []byte
	if r := w.resps[c.base]; r != nil {
		want = r.body
	}
	if w.mem && (how == 1 || len(want) < 2) {
		how = 0
	}
	b := c.resp.Body
	var got []byte
	kind := "part"
	var err error
	all := func() {
		buf := make([]byte, []int{1 << 16, 512, 13, 1}[rng.Intn(4)])
		for err == nil {
			var n int
			n, err = b.Read(buf)
			got = append(got, buf[:n]...)
		}
		kind = "err"
		if err == io.EOF {
			kind = "full"
		}
	}
	switch how {
	case 0: // everything
		all()
	case 1: // every byte, but not the end
		if len(want) == 0 {
			kind = "part"
			break
		}
		got = make([]byte, len(want))
		var n int
		n, err = io.ReadFull(b, got)
		got = got[:n]
		if err == nil {
			kind = "all"
		} else {
			kind = "err"
		}
	case 2: // a part
		if len(want) == 0 {
			break
		}
		got = make([]byte, 1+rng.Intn(len(want)))
		if w.mem {
			got = got[:len(got)-1]
		}
		var n int
		n, err = io.ReadFull(b, got)
		got = got[:n]
		if err != nil {
			kind = "err"
		} else if n == len(want) {
			kind = "all"
		}
	case 3: // nothing
	}
	if rng.Intn(6) == 0 {
		// the response belongs to the caller
		c.resp.Header.Set("X-Base", "0")
		c.resp.Header.Del("X-Gen")
		c.resp.Header.Set("Cache-Control", "max-age=99999")
	}
	w.log("eat", tr.M{"c": c.n, "how": kind, "n": len(got), "match": len(got) <= len(want) && bytes.Equal(got, want[:len(got)])})
	if how == 3 && rng.Intn(2) == 0 {
		return // never closed
	}
	for i := 0; i < 1+rng.Intn(5)/4; i++ {
		c.closing = true
		w.log("closing", tr.M{"c": c.n})
		err := b.Close()
		w.log("closed", tr.M{"c": c.n, "err": err != nil})
		c.closing = false
		delete(w.open, c.n)
	}
}

func (w *hworld) plan(c *hcall, req *http.Request) *hplan {
	rng := w.x.Rng
	p := &hplan{date: hNone, exp: hNone}
	cond := req.Header.Get("If-None-Match") != "" || req.Header.Get("If-Modified-Since") != ""
	switch k := rng.Intn(20); {
	case k == 0:
		p.err = errOrigin
		return p
	case k < 9 && cond, k == 1 && rng.Intn(8) == 0:
		p.status = 304
	case k < 14:
		p.status = 200
	default:
		p.status = []int{200, 201, 202, 203, 204, 206, 300, 301, 302, 307, 400, 403, 404, 405, 410, 414, 418, 500, 501, 502, 503, 504, 505, 599}[rng.Intn(24)]
	}
	if rng.Intn(10) != 0 {
		p.date = w.ms() / 1000 * 1000
		if rng.Intn(5) == 0 {
			p.date += int64(rng.Intn(20)-10) * 1000
		}
	}
	if rng.Intn(3) == 0 {
		base := p.date
		if base == hNone {
			base = 0
		}
		p.exp = base + int64([]int{0, 5, 10, -5, 60, 3600}[rng.Intn(6)])*1000
	}
	if rng.Intn(8) != 0 {
		p.cc = w.respDirs()
	}
	if rng.Intn(3) != 0 {
		p.etag = fmt.Sprintf(`"e%d"`, rng.Intn(4))
		if p.status == 304 && rng.Intn(2) == 0 {
			p.etag = req.Header.Get("If-None-Match")
		}
	}
	if rng.Intn(3) == 0 {
		p.lm = w.stamp(int64(rng.Intn(4)) * -100000)
	}
	if rng.Intn(4) == 0 && p.status != 304 {
		p.vary = [][]string{{"accept"}, {"accept-language"}, {"accept", "x-sel"}, {"*"}, {"accept-language", "*"}, {"x-sel"}, {"user-agent"}}[rng.Intn(7)]
		p.hasvary = true
	}
	p.body = []int{0, 1, 10, 100, 1000, 5000}[rng.Intn(6)]
	if rng.Intn(60) == 0 {
		p.body = 100000
		if rng.Intn(8) == 0 {
			p.body = 1200000 + rng.Intn(400000)
		}
	}
	if w.conc && p.body > 100 {
		p.body = 100 + rng.Intn(100)
	}
	p.framing = rng.Intn(5)
	p.proto = []int{0, 0, 0, 0, 1, 2}[rng.Intn(6)]
	p.broken = rng.Intn(12) == 0
	if rng.Intn(6) == 0 {
		p.delay = time.Duration(rng.Intn(8)) * 500 * time.Millisecond
	}
	return p
}

func (w *hworld) respDirs() []dir {
	rng := w.x.Rng
	var ds []dir
	if rng.Intn(5) != 0 {
		ds = append(ds, dir{"max-age", []int64{0, 1, 5, 10, 10, 10, 60, 3600, 31536000, 4294967296, 10000000000, 9223372036}[rng.Intn(12-w.small())]})
	}
	for _, d := range []string{"no-cache", "no-store", "public", "must-revalidate", "private", "immutable", "s-maxage=0"} {
		if rng.Intn(10) == 0 {
			ds = append(ds, dir{d, -1})
		}
	}
	rng.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	return ds
}

func (w *hworld) small() int {
	if w.mem {
		return 4
	}
	return 0
}

func (w *hworld) reqDirs() []dir {
	rng := w.x.Rng
	var ds []dir
	vals := []int64{0, 1, 2, 5, 10, 60, 4000, 31536000}
	for _, d := range []string{"max-age", "min-fresh", "max-stale"} {
		if rng.Intn(6) == 0 {
			v := vals[rng.Intn(len(vals))]
			if rng.Intn(12) == 0 && !w.mem {
				v = []int64{4294967296, 10000000000, 9223372036, 18446744073}[rng.Intn(4)]
			}
			if d == "max-stale" && rng.Intn(4) == 0 {
				v = -1
			}
			ds = append(ds, dir{d, v})
		}
	}
	for _, d := range []string{"no-cache", "only-if-cached", "stale-if-error", "no-transform", "no-store"} {
		if rng.Intn(12) == 0 && (d != "no-store" || rng.Intn(2) == 0) {
			ds = append(ds, dir{d, -1})
		}
	}
	rng.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	return ds
}

func (w *hworld) request() hreq {
	rng := w.x.Rng
	if !w.conc && w.prev != nil && rng.Intn(5) == 0 {
		q := w.prevQ
		q.again = true
		return q
	}
	q := hreq{method: "GET", url: rng.Intn(len(w.urls)), sel: map[string]string{"accept": "", "accept-language": "", "x-sel": "", "user-agent": ""}}
	if rng.Intn(8) == 0 {
		q.method = []string{"HEAD", "HEAD", "HEAD", "POST", "PUT", "DELETE"}[rng.Intn(6)]
	}
	if rng.Intn(2) == 0 {
		q.cc = w.reqDirs()
	}
	if rng.Intn(20) == 0 {
		q.rng, q.rngh = true, []string{"Range", "Content-Range", "Authorization"}[rng.Intn(3)]
	}
	if rng.Intn(12) == 0 {
		q.inm = fmt.Sprintf(`"e%d"`, rng.Intn(4))
	}
	if rng.Intn(12) == 0 {
		q.ims = w.stamp(-300000)
	}
	for _, k := range []string{"accept", "accept-language", "x-sel"} {
		if rng.Intn(3) == 0 {
			q.sel[k] = []string{"a", "b", "a", "b", "A", "A", "a,b", "a,c"}[rng.Intn(8)]
		}
	}
	q.lines = rng.Intn(2) == 0
	if q.extra = rng.Intn(4) == 0; q.extra {
		q.sel["user-agent"] = "spy"
	}
	return q
}

func (w *hworld) begin(mode string, life time.Duration, opts ...antcache.Option) {
	strat := "rfc"
	if w.agg {
		strat = "agg"
		opts = append(opts, antcache.Aggressive(life))
		if life <= 0 {
			life = 24 * time.Hour
		}
	}
	w.mem = mode == "mem"
	if mode == "obs" {
		opts = append(opts, antcache.WithStorage(hstore{w}))
	}
	c, err := antcache.New(w, opts...)
	if err != nil {
		panic(err)
	}
	w.cc = c
	w.log("begin", tr.M{"run": w.x.Run, "strat": strat, "life": life.Milliseconds(), "mode": mode})
}

func newHworld(x *X) *hworld {
	w := &hworld{x: x, resps: map[int]*hresp{}, open: map[int]*hcall{}, kv: map[uint64][]byte{}, kn: map[uint64]int{}}
	w.next = w.plan
	return w
}

// httpRun makes calls, one after the other or at the same time, to an origin
// that answers in any way.
func httpRun(x *X, opt string) {
	rng := x.Rng
	w := newHworld(x)
	w.agg = rng.Intn(4) == 0
	w.urls = []string{"http://h.example/a"}
	for n := rng.Intn(4)/2*rng.Intn(2) + rng.Intn(2); n > 0; n-- {
		// Resources that differ in one part of the URL only.
		w.urls = append(w.urls, []string{
			"http://h.example/a?q=1", "http://h.example/a?q=2", "http://h.example/a?Q=1", "http://h.example/a?q=1&q=2", "http://h.example/a?",
			"https://h.example/a", "http://g.example/a", "http://h.example:8080/a", "http://sub.h.example/a",
			"http://h.example/A", "http://h.example/a/", "http://h.example/b/a", "http://h.example/", "http://h.example/a%2Fb",
			"http://h.example/a/b", "http://h.example/a%3Fq=1", "http://h.example/a;p=1", "http://h.example/a?q=1%262",
		}[rng.Intn(18)])
	}
	w.conc = opt == "conc"
	mode := "obs"
	if !w.conc && rng.Intn(4) == 0 {
		mode = "mem"
	}
	w.fails = mode == "obs" && rng.Intn(6) == 0
	life := []time.Duration{0, -1, time.Second, 5 * time.Second, 10 * time.Second}[rng.Intn(5)]
	w.begin(mode, life)
	wait := func() {
		switch rng.Intn(5) {
		case 0, 1:
		case 2:
			time.Sleep(time.Duration(rng.Intn(24)) * 500 * time.Millisecond)
		case 3:
			time.Sleep([]time.Duration{time.Second, 5 * time.Second, 10 * time.Second, 9999 * time.Millisecond, time.Minute}[rng.Intn(5)])
		case 4:
			if rng.Intn(5) == 0 {
				time.Sleep([]time.Duration{time.Hour, 24 * time.Hour, 24*time.Hour - time.Millisecond}[rng.Intn(3)])
			}
		}
	}
	how := func() int { return []int{0, 0, 0, 0, 0, 0, 1, 2, 2, 3}[rng.Intn(10)] }
	if !w.conc {
		var later []*hcall
		for i := 2 + rng.Intn(8); i > 0; i-- {
			ctx, cancel := context.WithCancel(context.Background())
			if rng.Intn(15) == 0 {
				cancel()
			}
			c := w.call(w.request(), ctx)
			if rng.Intn(6) == 0 {
				later = append(later, c)
			} else {
				wait2 := rng.Intn(10) == 0
				if wait2 {
					wait()
				}
				w.use(c, how())
			}
			wait()
			if len(later) > 0 && rng.Intn(3) == 0 {
				w.use(later[0], how())
				later = later[1:]
			}
			_ = cancel
		}
		for _, c := range later {
			w.use(c, how())
		}
		W.Log("end", nil)
		return
	}
	k := 2 + rng.Intn(2)
	w.left = k
	x.S.Start()
	for g := 0; g < k; g++ {
		n := 1 + rng.Intn(4)
		go func() {
			for i := 0; i < n; i++ {
				x.S.Park(true, "call")
				c := w.call(w.request(), context.Background())
				x.S.Park(true, "use")
				w.use(c, how())
				if rng.Intn(3) == 0 {
					wait()
				}
			}
			w.left--
		}()
	}
	x.S.Settle()
	for i := 0; i < 1000000 && w.left > 0; i++ {
		ps := x.S.Parked()
		if len(ps) == 0 {
			if !x.S.Idle(100 * time.Hour) {
				break
			}
			continue
		}
		x.S.Release(x.S.Choose(ps))
	}
	if w.left > 0 {
		W.Log("stuck", nil)
		W.End()
		abandon(8)
	}
	W.Log("end", nil)
}

// hcase is a case made by TLC.
type hcase struct {
	Strat string  `json:"strat"`
	Life  int64   `json:"life"`
	Req   [][]any `json:"req"`
	Resp  [][]any `json:"resp"`
	Exp   int64   `json:"exp"`
	Date  int64   `json:"date"`
	Age   int64   `json:"age"`
	Ans   int     `json:"ans"`
}

// httpCases runs the cases of the input file that fall to this run.
func httpCases(x *X) {
	cases := rawCases()
	const chunk = 40
	for i := x.Run * chunk; i < (x.Run+1)*chunk && i < len(cases); i++ {
		var hc hcase
		if err := json.Unmarshal(cases[i], &hc); err != nil {
			panic(err)
		}
		time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(time.Second)))
		x.T0 = time.Now()
		w := newHworld(x)
		w.agg = hc.Strat == "agg"
		w.urls = []string{"http://h.example/a"}
		mk := func(in [][]any) (ds []dir) {
			for _, d := range in {
				ds = append(ds, dir{d[0].(string), int64(d[1].(float64))})
			}
			return
		}
		n := 0
		w.next = func(c *hcall, req *http.Request) *hplan {
			n++
			p := &hplan{status: 200, date: hNone, exp: hNone, body: 40}
			if n == 1 || hc.Ans == 0 {
				p.cc = mk(hc.Resp)
				p.etag = `"e1"`
				if hc.Date != hNone {
					p.date = w.ms()/1000*1000 + hc.Date
				}
				if hc.Exp != hNone {
					p.exp = w.ms()/1000*1000 + hc.Exp
				}
				return p
			}
			p.status = hc.Ans
			p.date = w.ms() / 1000 * 1000
			p.cc = []dir{{"max-age", 7}}
			return p
		}
		w.begin("obs", time.Duration(hc.Life)*time.Millisecond)
		sel := map[string]string{"accept": "", "accept-language": "", "x-sel": "", "user-agent": ""}
		w.useFull(w.call(hreq{method: "GET", sel: sel}, context.Background()))
		time.Sleep(time.Duration(hc.Age) * time.Millisecond)
		for k := 0; k < 2; k++ {
			w.useFull(w.call(hreq{method: "GET", cc: mk(hc.Req), sel: sel}, context.Background()))
		}
		W.Log("end", nil)
	}
}

func (w *hworld) useFull(c *hcall) { w.use(c, 0) }
