package h

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"syscall"
	"time"

	"antverif/tr"
	"antverif/yield"

	"github.com/gorilla/websocket"
	"github.com/yields/ant/antcdp"
)

// A scripted browser, spoken to over its debugging protocol.

func init() {
	scenarios["cdp"] = scenario{false, func(x *X) { cdpRun(x, nil) }}
	scenarios["cdpcases"] = scenario{false, cdpCases}
}

// cscript is the order in which the browser tells about a navigation.
type cscript struct {
	S   []string
	Cut int
}

type cdpReq struct {
	id      int
	url     string
	hdr     http.Header
	cookies map[string]string
	script  cscript
	status  int
	body    string
	proto   string
	low     bool   // lower case header names
	fault   string // method that fails
	kind    string // error, drop, hang; for navigate also "text"
	abort   int    // ms after which it is cancelled, or -1
	cancel  func()
}

type cdpTab struct {
	id     int
	conns  map[int]*cdpConn
	url    string // committed document
	body   string
	done   bool // the document is complete
	dead   bool
	dialed bool
	stale  *cdpReq // navigation that was going on when its connection went away
	loader string
	late   string // loader of the document whose inner frame has not answered yet
}

type browser struct {
	mu    sync.Mutex
	cond  *sync.Cond
	over  bool
	rng   *rand.Rand
	reqs  []*cdpReq // by id - 1
	tabs  map[int]*cdpTab
	open  int
	conns int
	nload int
	live  int // in flight
	peak  int
	pf    float64 // probability of faults that belong to no request
	srv   *httptest.Server
}

func (b *browser) log(e string, m tr.M) { // with b.mu held
	if !b.over {
		W.Log(e, m)
	}
}
func (b *browser) put(e string, m tr.M) {
	b.mu.Lock()
	b.log(e, m)
	b.mu.Unlock()
}
func (b *browser) chance(p float64) bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.rng.Float64() < p
}
func (b *browser) intn(n int) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.rng.Intn(n)
}
func (b *browser) pause() {
	if b.chance(0.25) {
		time.Sleep(time.Duration(b.intn(900)) * time.Microsecond)
	}
}

// wait waits for f to hold, with b.mu held; false after d.
func (b *browser) wait(d time.Duration, f func() bool) bool {
	tm := time.AfterFunc(d, func() { b.mu.Lock(); b.cond.Broadcast(); b.mu.Unlock() })
	defer tm.Stop()
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		b.cond.Wait()
	}
	return true
}

func newBrowser(seed int64) *browser {
	b := &browser{rng: rand.New(rand.NewSource(seed)), tabs: map[int]*cdpTab{}}
	b.cond = sync.NewCond(&b.mu)
	b.srv = httptest.NewUnstartedServer(b)
	b.srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	b.srv.Start()
	return b
}

func (b *browser) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	switch {
	case r.URL.Path == "/json/version":
		fmt.Fprint(w, `{"Browser":"Fake/1","webSocketDebuggerUrl":"ws://127.0.0.1/browser"}`)
	case r.URL.Path == "/json/new":
		b.pause()
		b.mu.Lock()
		if r.Method == "PUT" && b.rng.Float64() < b.pf {
			b.mu.Unlock()
			w.WriteHeader(405)
			return
		}
		if r.Method == "GET" && b.rng.Float64() < 0.5 {
			b.log("cfault", tr.M{"t": 0})
			k := b.rng.Intn(3)
			b.mu.Unlock()
			switch k {
			case 0:
				w.WriteHeader(500)
			case 1:
				fmt.Fprint(w, `{"id":`)
			default:
				panic(http.ErrAbortHandler)
			}
			return
		}
		t := &cdpTab{id: len(b.tabs) + 1, conns: map[int]*cdpConn{}, url: "about:blank", done: true}
		b.tabs[t.id] = t
		b.log("created", tr.M{"t": t.id})
		b.mu.Unlock()
		json.NewEncoder(w).Encode(map[string]string{"id": fmt.Sprint(t.id), "type": "page", "url": "about:blank",
			"webSocketDebuggerUrl": strings.Replace(b.srv.URL, "http", "ws", 1) + fmt.Sprintf("/t/%d", t.id)})
	case strings.HasPrefix(r.URL.Path, "/json/close/"):
		var id int
		fmt.Sscan(r.URL.Path[len("/json/close/"):], &id)
		b.mu.Lock()
		if t := b.tabs[id]; t != nil && !t.dead {
			b.wait(3*time.Second, func() bool { return len(t.conns) == 0 })
			t.dead = true
			b.log("tclosed", tr.M{"t": id})
			b.cond.Broadcast()
			b.mu.Unlock()
			fmt.Fprint(w, "Target is closing")
			return
		}
		b.mu.Unlock()
		w.WriteHeader(404)
	case strings.HasPrefix(r.URL.Path, "/t/"):
		var id int
		fmt.Sscan(r.URL.Path[len("/t/"):], &id)
		b.session(w, r, id)
	default:
		w.WriteHeader(404)
	}
}

type cdpConn struct {
	b    *browser
	t    *cdpTab
	c    int
	ws   *websocket.Conn
	wmu  sync.Mutex
	r    *cdpReq
	hdr  map[string]string
	ck   map[string]string
	gone bool
}

func (s *cdpConn) send(v any) {
	s.wmu.Lock()
	defer s.wmu.Unlock()
	s.ws.WriteJSON(v)
}
func (s *cdpConn) event(m string, p any) { s.send(map[string]any{"method": m, "params": p}) }

func (b *browser) session(w http.ResponseWriter, r *http.Request, id int) {
	b.pause()
	b.mu.Lock()
	t := b.tabs[id]
	if t == nil || t.dead {
		if t != nil {
			b.conns++
			b.log("dial", tr.M{"c": b.conns, "t": id})
			b.log("gone", tr.M{"c": b.conns})
		}
		b.mu.Unlock()
		w.WriteHeader(404)
		return
	}
	busy := !b.left(t)
	b.log("knock", tr.M{"t": id, "busy": busy})
	b.wait(3*time.Second, func() bool { return len(t.conns) == 0 })
	b.conns++
	s := &cdpConn{b: b, t: t, c: b.conns}
	t.conns[s.c] = s
	t.dialed = true
	b.open++
	b.log("dial", tr.M{"c": s.c, "t": id})
	refuse := b.rng.Float64() < b.pf/3
	early := ""
	if b.rng.Float64() < b.pf {
		early = []string{"Page.enable", "Network.enable"}[b.rng.Intn(2)]
	}
	if refuse {
		b.log("fault", tr.M{"c": s.c})
	}
	b.mu.Unlock()
	defer func() {
		b.mu.Lock()
		s.gone = true
		delete(t.conns, s.c)
		b.open--
		b.log("gone", tr.M{"c": s.c})
		b.cond.Broadcast()
		b.mu.Unlock()
	}()
	if refuse {
		w.WriteHeader(500)
		return
	}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	ws, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	b.mu.Lock()
	s.ws = ws
	b.mu.Unlock()
	defer ws.Close()
	for {
		var m struct {
			ID     int64           `json:"id"`
			Method string          `json:"method"`
			Params json.RawMessage `json:"params"`
		}
		if err := ws.ReadJSON(&m); err != nil {
			return
		}
		b.put("cmd", tr.M{"c": s.c, "m": m.Method})
		b.pause()
		s.pre(m.Method, m.Params)
		kind := ""
		if m.Method == early {
			kind = []string{"error", "drop", "slow"}[b.intn(3)]
		} else if s.r != nil && s.r.fault == m.Method {
			kind = s.r.kind
		}
		switch kind {
		case "error":
			b.put("fault", tr.M{"c": s.c})
			s.send(map[string]any{"id": m.ID, "error": map[string]any{"code": -32000, "message": "no"}})
			continue
		case "slow":
			time.Sleep(5 * time.Millisecond)
			fallthrough
		case "drop":
			b.put("fault", tr.M{"c": s.c})
			return
		case "hang":
			go s.r.stop(b)
			continue
		}
		b.put("rep", tr.M{"c": s.c})
		switch m.Method {
		case "Page.navigate":
			if s.r != nil {
				go s.navigate(m.ID, kind == "text")
				continue
			}
			s.send(map[string]any{"id": m.ID, "result": map[string]any{"frameId": "F"}})
		case "Page.reload":
			s.send(map[string]any{"id": m.ID, "result": map[string]any{}})
			if s.r != nil {
				go s.play(0, false)
			}
		case "DOM.getDocument":
			s.send(map[string]any{"id": m.ID, "result": map[string]any{"root": map[string]any{"nodeId": 1, "backendNodeId": 1,
				"nodeType": 9, "nodeName": "#document", "localName": "", "nodeValue": ""}}})
		case "DOM.getOuterHTML":
			b.mu.Lock()
			h := t.body
			if !t.done {
				h = h[:len(h)/2]
			}
			b.mu.Unlock()
			s.send(map[string]any{"id": m.ID, "result": map[string]any{"outerHTML": h}})
		case "Storage.getCookies", "Network.getCookies", "Network.getAllCookies":
			var l []any
			if s.r != nil {
				l = append(l, map[string]any{"name": "sid", "value": fmt.Sprintf("v%d", s.r.id), "domain": "site.example", "path": "/",
					"expires": -1, "size": 5, "httpOnly": false, "secure": false, "session": true, "priority": "Medium", "sameParty": false, "sourceScheme": "NonSecure", "sourcePort": 80})
			}
			s.send(map[string]any{"id": m.ID, "result": map[string]any{"cookies": l}})
		default:
			s.send(map[string]any{"id": m.ID, "result": map[string]any{}})
		}
	}
}

// left waits a moment for the connections of the tab to be closed by the
// client, with b.mu held; false if one is not.
func (b *browser) left(t *cdpTab) bool {
	for i := 0; ; i++ {
		all := true
		for _, s := range t.conns {
			if s.ws == nil || !ended(s.ws.UnderlyingConn()) {
				all = false
			}
		}
		if all || i == 30 {
			return all
		}
		b.mu.Unlock()
		time.Sleep(5 * time.Millisecond)
		b.mu.Lock()
	}
}

// ended tells if something that was not read yet has arrived: the end of the
// connection, or its announcement.
func ended(c net.Conn) bool {
	sc, ok := c.(syscall.Conn)
	if !ok {
		return true
	}
	rc, err := sc.SyscallConn()
	if err != nil {
		return true
	}
	res := true
	rc.Control(func(fd uintptr) {
		var buf [1]byte
		_, _, err := syscall.Recvfrom(int(fd), buf[:], syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
		res = err != syscall.EAGAIN
	})
	return res
}

// stop cancels the request a little later.
func (q *cdpReq) stop(b *browser) {
	time.Sleep(time.Duration(b.intn(4000)) * time.Microsecond)
	b.put("cancel", tr.M{"r": q.id})
	q.cancel()
}

// pre notes what the command says.
func (s *cdpConn) pre(method string, params json.RawMessage) {
	b := s.b
	b.mu.Lock()
	defer b.mu.Unlock()
	switch method {
	case "Network.setExtraHTTPHeaders":
		var p struct{ Headers map[string]string }
		json.Unmarshal(params, &p)
		s.hdr = p.Headers
		var id int
		for k, v := range p.Headers {
			if strings.EqualFold(k, "X-Req") {
				fmt.Sscan(v, &id)
			}
		}
		if id >= 1 && id <= len(b.reqs) {
			s.r = b.reqs[id-1]
			b.log("hdr", tr.M{"c": s.c, "r": id})
		}
	case "Storage.setCookies", "Network.setCookies":
		var p struct {
			Cookies []struct{ Name, Value string }
		}
		json.Unmarshal(params, &p)
		if s.ck == nil {
			s.ck = map[string]string{}
		}
		for _, c := range p.Cookies {
			s.ck[c.Name] = c.Value
		}
	case "Page.navigate":
		var p struct{ URL string }
		json.Unmarshal(params, &p)
		for _, q := range b.reqs {
			if q.url == p.URL {
				s.r = q
				ok := true
				for k := range q.hdr {
					v, has := "", false
					for a, w := range s.hdr {
						if strings.EqualFold(a, k) {
							v, has = w, true
						}
					}
					if k != "Cookie" && (!has || v != q.hdr.Get(k)) {
						ok = false
					}
				}
				for k, v := range q.cookies {
					if w, has := s.ck[k]; !has || v != w {
						ok = false
					}
				}
				b.log("nav", tr.M{"c": s.c, "r": q.id, "ok": ok})
			}
		}
	}
}

func sansFrag(u string) string {
	s, _, _ := strings.Cut(u, "#")
	return s
}

// navigate performs the navigation of the connection's request.
func (s *cdpConn) navigate(id int64, fail bool) {
	b, t, q := s.b, s.t, s.r
	b.mu.Lock()
	same := t.url != q.url && sansFrag(t.url) == sansFrag(q.url) && strings.Contains(q.url, "#")
	if same && !fail {
		t.url = q.url
	}
	old, late := t.stale, t.late
	t.stale, t.late = nil, ""
	ld := t.loader
	b.mu.Unlock()
	if late != "" && b.chance(0.7) { // an inner frame of the last document
		s.response(late+"x", late+"x", "G", "Document", 295, q)
	}
	if old != nil { // the interrupted navigation makes itself heard
		if b.chance(0.7) {
			s.response(ld, ld, "F", "Document", 299, old)
			if b.chance(0.5) {
				b.mu.Lock()
				t.url, t.body, t.done = old.url, old.body, true
				b.mu.Unlock()
				s.event("Page.domContentEventFired", map[string]any{"timestamp": 1})
			}
		}
	}
	if same && !fail {
		s.send(map[string]any{"id": id, "result": map[string]any{"frameId": "F"}})
		return
	}
	s.play(id, fail)
}

func (s *cdpConn) request(id, loader, frame, typ string, redir bool) {
	p := map[string]any{"requestId": id, "loaderId": loader, "documentURL": s.r.url, "timestamp": 1, "wallTime": 1, "type": typ,
		"request":   map[string]any{"url": s.r.url, "method": "GET", "headers": map[string]any{}, "initialPriority": "High", "referrerPolicy": "origin"},
		"initiator": map[string]any{"type": "other"}}
	if frame != "" {
		p["frameId"] = frame
	}
	if redir {
		p["redirectResponse"] = s.resp(302, s.r)
	}
	s.event("Network.requestWillBeSent", p)
}

func (s *cdpConn) resp(status int, q *cdpReq) map[string]any {
	h := map[string]any{"Content-Type": "text/html", "X-Doc": fmt.Sprintf("%d-%d", q.id, status), "Content-Length": "77777"}
	if q.low {
		h = map[string]any{"content-type": "text/html", "x-doc": fmt.Sprintf("%d-%d", q.id, status), "content-length": "77777"}
	}
	p := map[string]any{"url": q.url, "status": status, "statusText": "", "headers": h, "mimeType": "text/html", "connectionReused": false,
		"connectionId": 1, "encodedDataLength": 10, "securityState": "neutral"}
	if q.proto != "" {
		p["protocol"] = q.proto
	}
	return p
}

func (s *cdpConn) response(id, loader, frame, typ string, status int, q *cdpReq) {
	p := map[string]any{"requestId": id, "loaderId": loader, "timestamp": 1, "type": typ, "response": s.resp(status, q), "hasExtraInfo": false}
	if frame != "" {
		p["frameId"] = frame
	}
	s.event("Network.responseReceived", p)
}

// play tells about the navigation, in the order of its script.
func (s *cdpConn) play(id int64, fail bool) {
	b, t, q := s.b, s.t, s.r
	b.mu.Lock()
	b.nload++
	ld := fmt.Sprintf("L%d", b.nload)
	t.loader = ld
	b.mu.Unlock()
	said, asked := false, false
	for i := 0; i <= len(q.script.S); i++ {
		b.pause()
		b.mu.Lock()
		if s.gone || t.loader != ld {
			if t.loader == ld && !t.done || i == 0 {
				t.stale = q
			}
			b.mu.Unlock()
			return
		}
		b.mu.Unlock()
		if i == q.script.Cut && !fail {
			b.mu.Lock()
			t.stale = q
			b.mu.Unlock()
			if q.kind == "drop" {
				b.put("fault", tr.M{"c": s.c})
				s.ws.Close()
			} else {
				q.stop(b)
			}
			return
		}
		if i == len(q.script.S) {
			b.mu.Lock()
			if t.loader == ld && asked {
				t.late = ld
			}
			b.mu.Unlock()
			return
		}
		switch tok := q.script.S[i]; tok {
		case "req":
			b.mu.Lock()
			t.done = false
			b.mu.Unlock()
			s.request(ld, ld, "F", "Document", false)
			if fail {
				b.put("fault", tr.M{"c": s.c})
				s.send(map[string]any{"id": id, "result": map[string]any{"frameId": "F", "loaderId": ld, "errorText": "net::ERR_NAME_NOT_RESOLVED"}})
				return
			}
		case "redir":
			s.request(ld, ld, "F", "Document", true)
		case "reply":
			if id != 0 && !said {
				said = true
				s.send(map[string]any{"id": id, "result": map[string]any{"frameId": "F", "loaderId": ld}})
			}
		case "res":
			b.mu.Lock()
			t.url, t.body = q.url, q.body
			b.mu.Unlock()
			s.response(ld, ld, "F", "Document", q.status, q)
		case "dom":
			b.mu.Lock()
			t.done = true
			b.mu.Unlock()
			s.event("Page.domContentEventFired", map[string]any{"timestamp": 1})
		case "pre":
			s.request(ld+".1", ld, "", "Stylesheet", false)
		case "preres":
			s.response(ld+".1", ld, "", "Stylesheet", 298, q)
		case "sub":
			s.request(ld+".2", ld, "F", "Script", false)
		case "subres":
			s.response(ld+".2", ld, "F", "Script", 297, q)
		case "ifr":
			asked = true
			s.request(ld+"x", ld+"x", "G", "Document", false)
		case "ifrres":
			asked = false
			s.response(ld+"x", ld+"x", "G", "Document", 296, q)
		}
	}
}

// randScript draws a legal order.
func randScript(r *rand.Rand) cscript {
	after := map[string][]string{"req": nil, "redir": {"req"}, "res": {"req", "redir"}, "reply": {"req"}, "dom": {"res"}, "pre": {"req"}, "sub": {"res"},
		"ifr": {"res"}, "preres": {"pre"}, "subres": {"sub"}, "ifrres": {"ifr"}}
	want := map[string]bool{"req": true, "res": true, "reply": true, "dom": true}
	for _, k := range []string{"redir", "pre", "sub", "ifr"} {
		if r.Intn(3) == 0 {
			want[k] = true
			if k != "redir" && r.Intn(4) > 0 {
				want[k+"res"] = true
			}
		}
	}
	var s []string
	for len(want) > 0 {
		var can []string
		for _, t := range []string{"req", "redir", "res", "reply", "dom", "pre", "sub", "ifr", "preres", "subres", "ifrres"} {
			if !want[t] {
				continue
			}
			ok := true
			for _, a := range after[t] {
				ok = ok && !want[a]
			}
			if ok {
				can = append(can, t)
			}
		}
		t := can[r.Intn(len(can))]
		s = append(s, t)
		delete(want, t)
	}
	return cscript{s, -1}
}

func cdpCases(x *X) {
	ls := rawCases()
	per := 6
	var ss []cscript
	for i := x.Run * per; i < (x.Run+1)*per && i < len(ls); i++ {
		var c struct {
			S   []string
			Cut int
		}
		if err := json.Unmarshal(ls[i], &c); err != nil {
			panic(err)
		}
		ss = append(ss, cscript{c.S, c.Cut})
	}
	cdpRun(x, ss)
}

func cdpRun(x *X, scripts []cscript) {
	r := x.Rng
	b := newBrowser(r.Int63())
	client := &antcdp.Client{Addr: b.srv.URL}
	if *fOpt == "slow" {
		var mu sync.Mutex
		rng := rand.New(rand.NewSource(r.Int63()))
		yield.Set(func(string) {
			mu.Lock()
			z := rng.Intn(120) == 0
			mu.Unlock()
			if z {
				time.Sleep(250 * time.Millisecond)
			}
		})
		defer yield.Set(nil)
	}
	n, k, quiet := 1+r.Intn(8), 1+r.Intn(4), r.Intn(3) == 0
	if r.Intn(12) == 0 {
		k, n, quiet = 11+r.Intn(5), 40, true
	}
	if scripts != nil {
		n, k = len(scripts), 1
		if n == 0 {
			n = 1
		}
	}
	if k > n {
		k = n
	}
	shared := r.Intn(8) == 0
	if !quiet && scripts == nil {
		b.pf = 0.08
	}
	methods := []string{"Network.setExtraHTTPHeaders", "Storage.setCookies", "Page.navigate", "DOM.getDocument", "DOM.getOuterHTML", "Storage.getCookies"}
	ctxs := make([]context.Context, n)
	for i := 1; i <= n; i++ {
		q := &cdpReq{id: i, url: fmt.Sprintf("http://site.example/r%d?a=%d", i, r.Intn(9)), status: []int{200, 200, 200, 404, 500, 201}[r.Intn(6)],
			body: fmt.Sprintf("<html><body>%d %s</body></html>", i, strings.Repeat("é<b>", r.Intn(30))), low: r.Intn(2) == 0,
			proto: []string{"", "http/1.1", "h2"}[r.Intn(3)], script: randScript(r), abort: -1, hdr: http.Header{}, cookies: map[string]string{}}
		if shared && r.Intn(3) > 0 {
			q.url = fmt.Sprintf("http://site.example/shared#f%d", i)
		}
		q.hdr.Set("X-Req", fmt.Sprint(i))
		if r.Intn(2) == 0 {
			q.hdr.Set("User-Agent", fmt.Sprintf("ua%d", i))
		}
		for j := r.Intn(3); j > 0; j-- {
			q.cookies[fmt.Sprintf("c%d", j)] = fmt.Sprintf("%d-%d", i, j)
		}
		if scripts != nil && i <= len(scripts) {
			q.script = scripts[i-1]
			q.kind = pickS(r, "drop", "hang")
		} else if !quiet {
			switch r.Intn(8) {
			case 0:
				q.fault, q.kind = methods[r.Intn(len(methods))], pickS(r, "error", "drop", "hang")
			case 1:
				q.fault, q.kind = "Page.navigate", "text"
			case 2:
				q.kind = pickS(r, "drop", "hang")
				for j, t := range q.script.S {
					if t == "dom" {
						q.script.Cut = r.Intn(j + 1)
					}
				}
			case 3:
				q.abort = r.Intn(12)
			}
		}
		ctxs[i-1], q.cancel = context.WithCancel(context.Background())
		b.reqs = append(b.reqs, q)
	}
	b.log("begin", tr.M{"run": x.Run, "n": n, "k": k})
	next := make(chan *cdpReq)
	go func() {
		for _, q := range b.reqs {
			next <- q
		}
		close(next)
	}()
	var wg sync.WaitGroup
	stuck := false
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := range next {
				if !cdpDo(b, client, q, ctxs[q.id-1]) {
					b.mu.Lock()
					stuck = true
					b.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	b.mu.Lock()
	b.wait(5*time.Second, func() bool {
		live := 0
		for _, t := range b.tabs {
			if t.dialed && !t.dead {
				live++
			}
		}
		return b.open == 0 && live <= b.peak
	})
	b.log("end", nil)
	b.over = true
	if stuck {
		*fSec = 0.001
	}
	b.mu.Unlock()
	for _, q := range b.reqs {
		q.cancel()
	}
	b.srv.CloseClientConnections()
	http.DefaultClient.CloseIdleConnections()
	go b.srv.Close()
}

// cdpDo performs the request; false if it never returns.
func cdpDo(b *browser, client *antcdp.Client, q *cdpReq, ctx context.Context) bool {
	req, err := http.NewRequestWithContext(ctx, "GET", q.url, nil)
	if err != nil {
		panic(err)
	}
	req.Header = q.hdr.Clone()
	for k, v := range q.cookies {
		req.AddCookie(&http.Cookie{Name: k, Value: v})
	}
	b.mu.Lock()
	b.live++
	if b.live > b.peak {
		b.peak = b.live
	}
	b.log("do", tr.M{"r": q.id})
	b.mu.Unlock()
	if q.abort >= 0 {
		time.AfterFunc(time.Duration(q.abort)*time.Millisecond, func() { b.put("cancel", tr.M{"r": q.id}); q.cancel() })
	}
	done := make(chan tr.M, 1)
	go func() {
		resp, err := client.Do(req)
		m := tr.M{"r": q.id, "ok": err == nil}
		if err == nil {
			buf, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			sid := ""
			for _, c := range resp.Cookies() {
				if c.Name == "sid" {
					sid = c.Value
				}
			}
			m["status"] = resp.StatusCode == q.status && strings.HasPrefix(resp.Status, fmt.Sprint(q.status))
			m["body"] = err == nil && string(buf) == q.body
			m["len"] = resp.ContentLength == int64(len(buf)) && resp.Header.Get("Content-Length") == fmt.Sprint(len(buf))
			m["hdr"] = resp.Header.Get("X-Doc") == fmt.Sprintf("%d-%d", q.id, q.status)
			m["ck"] = sid == fmt.Sprintf("v%d", q.id)
		} else {
			m["why"] = err.Error()
		}
		done <- m
	}()
	ret := func(m tr.M) {
		b.mu.Lock()
		b.live--
		b.log("ret", m)
		b.mu.Unlock()
	}
	select {
	case m := <-done:
		ret(m)
		return true
	case <-time.After(25 * time.Second):
	}
	b.put("stuck", tr.M{"r": q.id})
	b.put("cancel", tr.M{"r": q.id})
	q.cancel()
	select {
	case m := <-done:
		ret(m)
	case <-time.After(5 * time.Second):
	}
	return false
}
