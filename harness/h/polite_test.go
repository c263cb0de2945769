package h

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"time"

	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["polite"] = scenario{true, func(x *X) { polite(x, *fOpt) }}
	scenarios["limit"] = scenario{true, limitDirect}
}

// A limiter with the set of URLs it has to cover, decided without the
// libraries the limiter uses.
func mklimiter(rng *rand.Rand, n int, hosts []string) (ant.Limiter, func(host, path string) bool, string) {
	h := hosts[rng.Intn(len(hosts))]
	switch rng.Intn(9) {
	case 0:
		return ant.Limit(n), func(string, string) bool { return true }, "all"
	case 1:
		return ant.LimitHostname(n, h), func(host, _ string) bool { return host == h }, "host " + h
	case 2:
		return ant.LimitPattern(n, h+"/*"), func(host, path string) bool { return host == h && strings.HasPrefix(path, "/") }, "pattern " + h + "/*"
	case 3:
		return ant.LimitPattern(n, "*/priv/*"), func(host, path string) bool { return strings.Contains(host+path, "/priv/") }, "pattern */priv/*"
	case 4:
		return ant.LimitPattern(n, h+"/pub/p?"), func(host, path string) bool {
			return host == h && len(path) == len("/pub/p?") && strings.HasPrefix(path, "/pub/p")
		}, "pattern " + h + "/pub/p?"
	case 5:
		return ant.LimitRegexp(n, "^"+strings.ReplaceAll(h, ".", `\.`)+"/pub/"), func(host, path string) bool { return host == h && strings.HasPrefix(path, "/pub/") }, "regexp ^" + h + "/pub/"
	case 6:
		return ant.LimitRegexp(n, "p[1-3]$"), func(host, path string) bool {
			return strings.HasSuffix(path, "p1") || strings.HasSuffix(path, "p2") || strings.HasSuffix(path, "p3")
		}, "regexp p[1-3]$"
	case 7:
		return ant.LimitRegexp(n, `\?|http`), func(host, path string) bool { return false }, "regexp with query or scheme"
	default:
		return ant.LimitPattern(n, h), func(host, path string) bool { return host+path == h }, "pattern " + h
	}
}

type pworld struct {
	x      *X
	canon  map[string]int
	urls   []string
	links  [][]int
	bodies []string // robots.txt per host
	hosts  []string
	parent context.Context
	cancd  bool
}

func (w *pworld) log(e string, m tr.M) {
	if w.parent != nil && w.parent.Err() != nil && !w.cancd {
		w.cancd = true
		W.Log("cancel", tr.M{"t": w.x.Ms()})
	}
	m["t"] = w.x.Ms()
	W.Log(e, m)
}
func (w *pworld) RoundTrip(req *http.Request) (*http.Response, error) {
	h := 0
	for i, n := range w.hosts {
		if n == req.URL.Host {
			h = i + 1
		}
	}
	w.log("rreq", tr.M{"h": h})
	w.x.S.Park(true, "robots")
	if req.Context().Err() != nil {
		return nil, req.Context().Err()
	}
	if w.bodies[h-1] == "" {
		return mkresp(req, 404, nil, ""), nil
	}
	return mkresp(req, 200, nil, w.bodies[h-1]), nil
}
func (w *pworld) Do(req *http.Request) (*http.Response, error) {
	u := w.canon[req.URL.String()]
	w.log("freq", tr.M{"u": u})
	w.x.S.Park(true, "fetch")
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if w.x.Rng.Intn(15) == 0 {
		return mkresp(req, 503, nil, ""), nil
	}
	return mkresp(req, 200, http.Header{"X-Id": {fmt.Sprint(u)}}, ""), nil
}
func (w *pworld) Scrape(ctx context.Context, p *ant.Page) (ret ant.URLs, err error) {
	var u int
	fmt.Sscan(p.Header.Get("X-Id"), &u)
	w.x.S.Park(true, "scrape")
	for _, v := range w.links[u] {
		pu, _ := url.Parse(w.urls[v])
		ret = append(ret, pu)
	}
	return ret, nil
}

type pqueue struct {
	ant.Queue
	w *pworld
}

func (q pqueue) Dequeue(ctx context.Context) (*ant.URL, error) {
	u, err := q.Queue.Dequeue(ctx)
	if err == nil {
		q.w.log("deq", tr.M{"u": q.w.canon[u.String()]})
	}
	return u, err
}

func kindOf(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
		return "ctx"
	}
	return "fail"
}

// polite runs whole crawls; virtual time passes only when nothing can run, so
// whatever time passes is a wait of the code itself.
func polite(x *X, opt string) {
	rng := x.Rng
	w := &pworld{x: x, canon: map[string]int{}, hosts: []string{"a.example", "a.example:8080", "www.a.example"}[:1+rng.Intn(3)]}
	many := 0
	switch r := rng.Intn(80); {
	case r == 0:
		many = 64 + rng.Intn(16)
	case r < 7:
		many = 6 + rng.Intn(14)
	}
	for i := 1; i <= many; i++ {
		w.hosts = append(w.hosts, fmt.Sprintf("h%d.example", i))
	}
	nh := len(w.hosts)
	delays := make([]int, nh)
	for i := range w.hosts {
		b := ""
		k := rng.Intn(6)
		if many > 0 && i >= 3 {
			k = 5
		}
		switch k {
		case 0:
		case 1:
			b = "User-agent: *\nDisallow:\n"
		case 2:
			b = "User-agent: other\nCrawl-delay: 9\n\nUser-agent: *\nDisallow: /none\n"
		default:
			d := []string{"1", "2", "0.5", "5"}[rng.Intn(4)]
			delays[i] = map[string]int{"1": 1000, "2": 2000, "0.5": 500, "5": 5000}[d]
			switch rng.Intn(3) {
			case 0:
				b = "User-agent: *\nCrawl-delay: " + d + "\n"
			case 1:
				b = "User-agent: antbot\nCrawl-delay: " + d + "\n"
			case 2:
				b = "User-agent: *\nCrawl-delay: 30\n\nUser-agent: antbot\nCrawl-delay: " + d + "\n"
			}
		}
		w.bodies = append(w.bodies, b)
	}
	n := 2 + rng.Intn(14)
	if many > 0 {
		n = nh + rng.Intn(nh)
	}
	w.urls = []string{""}
	w.links = make([][]int, n+1)
	host := make([]int, n)
	cover := make([]bool, n)
	paths := []string{}
	for i := 1; i <= n; i++ {
		h := rng.Intn(nh)
		if many > 0 && i <= nh {
			h = i - 1
		}
		host[i-1] = h + 1
		p := fmt.Sprintf("%s/p%d", []string{"/pub", "/priv"}[rng.Intn(2)], i)
		if rng.Intn(8) == 0 {
			p = fmt.Sprintf("/p%d", i)
		}
		paths = append(paths, p)
		s := []string{"http://", "https://"}[rng.Intn(2)] + w.hosts[h] + p
		if rng.Intn(4) == 0 {
			s += "?q=" + fmt.Sprint(i)
		}
		w.urls = append(w.urls, s)
		w.canon[s] = i
		for k := rng.Intn(4); k > 0; k-- {
			w.links[i] = append(w.links[i], 1+rng.Intn(n))
		}
	}
	impolite := rng.Intn(6) == 0
	cfg := ant.EngineConfig{Scraper: w, Workers: 1 + rng.Intn(4), Impolite: impolite}
	if rng.Intn(4) == 0 {
		cfg.Concurrency = 1 + rng.Intn(4)
	}
	cfg.Queue = pqueue{ant.MemoryQueue(1), w}
	cfg.Fetcher = &ant.Fetcher{Client: w}
	*ant.DefaultClient = http.Client{Transport: w}
	nlim := 1 + rng.Intn(4)
	lim := (opt == "limit" && rng.Intn(8) != 0) || rng.Intn(4) == 0
	what := ""
	if lim {
		var l ant.Limiter
		var cov func(string, string) bool
		l, cov, what = mklimiter(rng, nlim, w.hosts)
		for i := range cover {
			cover[i] = cov(w.hosts[host[i]-1], paths[i])
		}
		cfg.Limiter = ant.LimiterFunc(func(ctx context.Context, u *url.URL) error {
			i := w.canon[u.String()]
			w.log("lcall", tr.M{"u": i, "c": i})
			err := l.Limit(ctx, u)
			w.log("lret", tr.M{"u": i, "c": i, "kind": kindOf(err)})
			return err
		})
	}
	cancelAt := -1
	var dl time.Duration
	if rng.Intn(4) == 0 {
		cancelAt = rng.Intn(60)
	} else if rng.Intn(4) == 0 {
		dl = time.Duration(rng.Intn(8000)) * time.Millisecond
	}
	W.Log("begin", tr.M{"run": x.Run, "mode": "engine", "host": host, "nh": nh, "delay": delays, "cover": cover, "n": nlim,
		"lim": lim, "what": what, "conc": cfg.Concurrency, "impolite": impolite, "opt": opt})
	eng, err := ant.NewEngine(cfg)
	if err != nil {
		panic(err)
	}
	parent, cancel := context.WithCancel(context.Background())
	defer cancel()
	if dl > 0 {
		var c2 context.CancelFunc
		parent, c2 = context.WithTimeout(parent, dl)
		defer c2()
	}
	w.parent = parent
	ret := false
	x.S.Start()
	go func() {
		var starts []string
		for k := 1 + rng.Intn(4); k > 0; k-- {
			starts = append(starts, w.urls[1+rng.Intn(n)])
		}
		if many > 0 {
			starts = w.urls[1:]
		}
		err := eng.Run(parent, starts...)
		ret = true
		w.log("ret", tr.M{"kind": kindOf(err)})
	}()
	x.S.Settle()
	for i := 0; i < 200000; i++ {
		ps := x.S.Parked()
		if len(ps) == 0 {
			if !x.S.Idle(24 * time.Hour) {
				if ret {
					W.Log("end", tr.M{})
					return
				}
				break
			}
			continue
		}
		if i == cancelAt {
			cancel()
			w.log("probe", tr.M{})
		}
		x.S.Release(x.S.Choose(ps))
	}
	// A run that does not end is the business of C03.
	W.Log("stuck", tr.M{})
	W.End()
	abandon(8)
}

// limitDirect calls one limiter from many goroutines at random times.
func limitDirect(x *X) {
	rng := x.Rng
	hosts := []string{"a.example", "a.example:8080"}
	n := 1 + rng.Intn(8)
	if rng.Intn(5) == 0 {
		n = 20
	}
	l, cov, what := mklimiter(rng, n, hosts)
	k := 2 + rng.Intn(40)
	cover := make([]bool, k)
	type call struct {
		u    *url.URL
		at   time.Duration
		stop time.Duration
		dl   bool
	}
	calls := make([]call, k)
	span := []int{1, 300, 3000, 20000}[rng.Intn(4)]
	for i := range calls {
		h := hosts[rng.Intn(2)]
		if rng.Intn(6) == 0 {
			h = []string{"xa.example", "a.example.org", "A.example"}[rng.Intn(3)]
		}
		p := []string{"/pub/p1", "/pub/p2", "/priv/p1", "/priv/", "/", "", "/pub", "/pub/p12"}[rng.Intn(8)]
		q := []string{"", "?x=1", "?http"}[rng.Intn(3)]
		u, err := url.Parse("http://" + h + p + q)
		if err != nil {
			panic(err)
		}
		cover[i] = cov(u.Host, u.Path)
		calls[i] = call{u: u, at: time.Duration(rng.Intn(span)) * time.Millisecond}
		if rng.Intn(5) == 0 {
			calls[i].stop = time.Duration(rng.Intn(4000)) * time.Millisecond
			calls[i].dl = rng.Intn(2) == 0
		}
	}
	W.Log("begin", tr.M{"run": x.Run, "mode": "direct", "host": []int{}, "nh": 0, "delay": []int{}, "cover": cover, "n": n,
		"lim": true, "what": what, "conc": 0, "impolite": true, "opt": ""})
	left := k
	x.S.Start()
	for i := range calls {
		c := calls[i]
		go func() {
			time.Sleep(c.at)
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if c.stop > 0 {
				if c.dl {
					ctx, cancel = context.WithTimeout(ctx, c.stop)
					defer cancel()
				} else {
					time.AfterFunc(c.stop, func() {
						W.Log("lstop", tr.M{"c": i + 1, "t": x.Ms()})
						cancel()
					})
				}
			}
			W.Log("lcall", tr.M{"u": i + 1, "c": i + 1, "t": x.Ms()})
			err := l.Limit(ctx, c.u)
			kind := "ok"
			if err != nil {
				kind = "ctx"
			}
			W.Log("lret", tr.M{"u": i + 1, "c": i + 1, "t": x.Ms(), "kind": kind, "dl": c.dl})
			left--
		}()
	}
	x.S.Settle()
	for i := 0; i < 200000; i++ {
		ps := x.S.Parked()
		if len(ps) == 0 {
			if left == 0 {
				break
			}
			if !x.S.Idle(24*time.Hour) && left > 0 {
				W.Log("stuck", tr.M{})
				W.End()
				abandon(8)
			}
			continue
		}
		x.S.Release(x.S.Choose(ps))
	}
	W.Log("end", tr.M{})
}
