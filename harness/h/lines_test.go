package h

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"sync"
	"sync/atomic"

	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["json"] = scenario{true, linesRun}
	scenarios["jsonstress"] = scenario{false, linesRun}
}

var errWriter = errors.New("writer is full")

// lineWriter takes what the scraper writes, at its own pace.
type lineWriter struct {
	x    *X
	t    sshape
	typ  reflect.Type
	mu   sync.Mutex
	buf  []byte
	n    int
	fail int // the write that fails, if any
	once bool
	part bool
}

func (w *lineWriter) Write(p []byte) (int, error) {
	if w.x.S != nil {
		w.x.S.Park(true, "write")
	}
	w.mu.Lock()
	w.n++
	n := w.n
	w.mu.Unlock()
	if n == w.fail || n > w.fail && w.fail > 0 && !w.once {
		W.Log("wfail", nil)
		if w.part {
			return len(p) / 2, errWriter
		}
		return 0, errWriter
	}
	// In two pieces: somebody else may get in between.
	h := len(p) / 2
	w.take(p[:h])
	if w.x.S != nil {
		w.x.S.Park(true, "write")
	}
	w.take(p[h:])
	return len(p), nil
}

func (w *lineWriter) take(p []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.buf = append(w.buf, p...)
	for {
		i := bytes.IndexByte(w.buf, '\n')
		if i < 0 {
			return
		}
		v := reflect.New(w.typ)
		d := json.NewDecoder(bytes.NewReader(w.buf[:i]))
		d.DisallowUnknownFields()
		ok := d.Decode(v.Interface()) == nil
		if _, err := d.Token(); err != io.EOF {
			ok = false
		}
		w.buf = w.buf[i+1:]
		if ok {
			W.Log("line", tr.M{"ok": true, "v": w.t.out(v.Elem())})
		} else {
			W.Log("line", tr.M{"ok": false, "v": []int{}})
		}
	}
}

// slowBody is a body read in pieces that may fail.
type slowBody struct {
	x   *X
	r   *bytes.Reader
	bad bool
}

func (b *slowBody) Read(p []byte) (int, error) {
	if b.x.S != nil {
		b.x.S.Park(true, "body")
	}
	if b.bad && b.r.Len() < int(b.r.Size())/2+1 {
		return 0, errors.New("connection reset")
	}
	if len(p) > 100 && b.r.Size() < 1<<20 {
		p = p[:100]
	}
	return b.r.Read(p)
}
func (b *slowBody) Close() error { return nil }

type bodyClient struct{ b io.ReadCloser }

func (c bodyClient) Do(req *http.Request) (*http.Response, error) {
	r := mkresp(req, 200, nil, "")
	r.Body, r.ContentLength = c.b, -1
	return r, nil
}

// jsonShape is a struct whose first field names the document.
func jsonShape(r *rand.Rand) sshape {
	t := genShape(r, 2)
	nobytes(&t)
	t.F = append([]sfield{{S: ssel{{{Tag: "ii"}}}, T: sshape{K: "s"}}}, t.F...)
	return t
}

func nobytes(t *sshape) {
	if t.K == "b" {
		t.K = "s"
	}
	if t.El != nil {
		nobytes(t.El)
	}
	for i := range t.F {
		nobytes(&t.F[i].T)
	}
}

func linesRun(x *X) {
	r := x.Rng
	W.Log("begin", tr.M{"run": x.Run})
	t := jsonShape(r)
	switch r.Intn(25) {
	case 0:
		t = sshape{K: pickS(r, "s", "i", "f")}
	case 1:
		t = sshape{K: "sl", El: &sshape{K: "s"}}
	}
	typ := t.typ(r)
	var sels []ssel
	var css []string
	for n := r.Intn(4); n > 0; n-- {
		s := genLinkSel(r)
		sels = append(sels, s)
		css = append(css, s.css(r))
	}
	if sels == nil {
		sels = []ssel{}
	}
	W.Log("type", tr.M{"t": t, "sels": sels})
	w := &lineWriter{x: x, t: t, typ: typ, once: r.Intn(2) == 0, part: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		w.fail = 1 + r.Intn(5)
	}
	v := reflect.New(typ)
	if r.Intn(2) == 0 {
		v = v.Elem()
	}
	sc := ant.JSON(w, v.Interface(), css...)

	var id atomic.Int64
	k := 2 + r.Intn(3)
	type job struct {
		d    []snode
		base string
		bad  bool
		page *ant.Page
	}
	plans := make([][]job, k)
	for g := range plans {
		for c := 1 + r.Intn(3); c > 0; c-- {
			n := int(id.Add(1))
			d := []snode{{K: "d"}, {P: 1, K: "e", Tag: "ii"}, {P: 2, K: "t", Txt: codes(fmt.Sprint(n))}}
			for _, nd := range genDoc(r, 9)[1:] {
				if nd.P > 1 {
					nd.P += 2
				}
				d = append(d, nd)
			}
			for m := r.Intn(4); m > 0; m-- {
				nd := snode{P: 1, K: "e", Tag: "a", Attr: [][2]any{{"href", codes(genHref(r))}}}
				if r.Intn(2) == 0 {
					nd.Cls = []string{pickS(r, "x", "y")}
				}
				d = append(d, nd)
			}
			d = plain(d)
			html := render(r, d)
			if !fits(html, d) {
				continue
			}
			j := job{d: d, base: lbases[r.Intn(len(lbases))], bad: r.Intn(8) == 0}
			u, err := url.Parse(j.base)
			if err != nil {
				panic(err)
			}
			b := &slowBody{x: x, r: bytes.NewReader([]byte(html)), bad: j.bad}
			if j.page, err = (&ant.Fetcher{Client: bodyClient{b}}).Fetch(context.Background(), u); err != nil {
				panic(err)
			}
			plans[g] = append(plans[g], j)
		}
	}
	var op atomic.Int64
	work := func(p []job) {
		for _, j := range p {
			o := op.Add(1)
			W.Log("sc", tr.M{"o": o, "d": j.d, "base": codes(j.base), "body": !j.bad})
			func() {
				defer func() {
					if e := recover(); e != nil {
						W.Log("panic", tr.M{"msg": fmt.Sprint(e)})
					}
				}()
				us, err := sc.Scrape(context.Background(), j.page)
				got := [][]int{}
				for _, u := range us {
					got = append(got, codes(u.String()))
				}
				W.Log("ret", tr.M{"o": o, "err": err != nil, "werr": errors.Is(err, errWriter), "r": got})
			}()
			if x.S != nil {
				x.S.Park(true, "op")
			}
		}
	}
	if x.S == nil {
		var wg sync.WaitGroup
		for _, p := range plans {
			wg.Add(1)
			go func() { defer wg.Done(); work(p) }()
		}
		wg.Wait()
		W.Log("end", nil)
		return
	}
	left := k
	x.S.Start()
	for _, p := range plans {
		go func() { work(p); left-- }()
	}
	runAll(x, &left, func() { W.Log("stuck", nil) })
	W.Log("end", nil)
}
