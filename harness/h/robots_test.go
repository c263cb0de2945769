package h

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["robots"] = scenario{false, robotsRun}
	scenarios["robotscases"] = scenario{false, robotsCase}
}

type rrule struct {
	Allow bool   `json:"allow"`
	Pat   string `json:"-"`
	Codes []int  `json:"pat"`
}
type rgroup struct {
	agents []string
	rules  []rrule
}
type rhost struct {
	name   string
	status int
	groups []rgroup
	text   string
	bad    bool // cannot be read
	cut    int  // reading fails after so many bytes
}

func (h rhost) m() tr.M {
	gs := []tr.M{}
	for _, g := range h.groups {
		as, rs := [][]int{}, []tr.M{}
		for _, a := range g.agents {
			as = append(as, codes(a))
		}
		for _, r := range g.rules {
			rs = append(rs, tr.M{"allow": r.Allow, "pat": codes(r.Pat)})
		}
		gs = append(gs, tr.M{"agents": as, "rules": rs})
	}
	return tr.M{"status": h.status, "groups": gs, "bad": h.bad}
}

type rurl struct {
	h   int // 1-based
	raw string
	t   string // path and query
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

// rworld answers for the hosts.
type rworld struct {
	mu    sync.Mutex
	hosts []rhost
	ids   map[string]int
	links map[int][]string
}

func (w *rworld) Do(req *http.Request) (*http.Response, error) {
	w.mu.Lock()
	i := w.ids[req.URL.String()]
	W.Log("page", tr.M{"u": i})
	w.mu.Unlock()
	return mkresp(req, 200, http.Header{"X-Id": {fmt.Sprint(i)}}, "x"), nil
}

func (w *rworld) RoundTrip(req *http.Request) (*http.Response, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, h := range w.hosts {
		if h.name == req.URL.Host {
			W.Log("robots", tr.M{"h": i + 1, "path": req.URL.RequestURI()})
			resp := mkresp(req, h.status, nil, h.text)
			if h.cut > 0 {
				resp.Body = io.NopCloser(io.MultiReader(strings.NewReader(h.text[:h.cut]), errReader{}))
			}
			return resp, nil
		}
	}
	W.Log("robots", tr.M{"h": 0, "path": req.URL.RequestURI()})
	return mkresp(req, 404, nil, ""), nil
}

func (w *rworld) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	var i int
	fmt.Sscan(p.Header.Get("X-Id"), &i)
	var us ant.URLs
	for _, l := range w.links[i] {
		us = append(us, mustParse(l))
	}
	return us, nil
}

// robotsCrawl crawls the URLs politely.
func robotsCrawl(rng *rand.Rand, run int, hosts []rhost, urls []rurl) {
	w := &rworld{hosts: hosts, ids: map[string]int{}, links: map[int][]string{}}
	hs, us, starts := []tr.M{}, []tr.M{}, []string{}
	for _, h := range hosts {
		hs = append(hs, h.m())
	}
	for i, u := range urls {
		w.ids[u.raw] = i + 1
		us = append(us, tr.M{"h": u.h, "t": codes(u.t)})
		starts = append(starts, u.raw)
	}
	text := ""
	if len(hosts) == 1 && len(hosts[0].text) < 5000 {
		text = hosts[0].text
	}
	W.Log("begin", tr.M{"run": run, "hosts": hs, "urls": us, "text": text})
	*ant.DefaultClient = http.Client{Transport: w}
	eng, err := ant.NewEngine(ant.EngineConfig{
		Scraper: w, Fetcher: &ant.Fetcher{Client: w}, Workers: 1 + rng.Intn(3),
	})
	if err != nil {
		panic(err)
	}
	err = eng.Run(context.Background(), starts...)
	msg := ""
	if err != nil {
		msg = err.Error()
	}
	W.Log("ret", tr.M{"nil": err == nil, "msg": msg})
}

// robotsText writes a robots.txt in one of many ways.
func robotsText(rng *rand.Rand, gs []rgroup) string {
	plain := rng.Intn(3) == 0
	eol := "\n"
	if !plain {
		eol = []string{"\n", "\n", "\r\n", "\r"}[rng.Intn(4)]
	}
	var b strings.Builder
	line := func(k, v string) {
		if !plain {
			switch rng.Intn(5) {
			case 0:
				k = strings.ToUpper(k)
			case 1:
				k = strings.ToLower(k)
			}
			if rng.Intn(10) == 0 {
				k = []string{" ", "\t", "  "}[rng.Intn(3)] + k
			}
		}
		b.WriteString(k + ":")
		if plain || rng.Intn(4) != 0 {
			b.WriteString(" ")
		}
		b.WriteString(v)
		if !plain {
			switch r := rng.Intn(8); {
			case r == 0 && v != "":
				b.WriteString(" # note: see /")
			case r == 1:
				b.WriteString("  \t")
			}
		}
		b.WriteString(eol)
	}
	junk := func() {
		if plain {
			return
		}
		switch rng.Intn(9) {
		case 0:
			b.WriteString("# Disallow: /" + eol)
		case 1:
			b.WriteString(eol)
		case 2:
			line("Sitemap", "http://a.example/sitemap.xml")
		case 3:
			line("Noindex", "/p")
		}
	}
	if !plain && rng.Intn(8) == 0 {
		b.WriteString("\uFEFF")
	}
	for i, g := range gs {
		if i > 0 && (plain || rng.Intn(3) != 0) {
			b.WriteString(eol)
		}
		junk()
		for _, a := range g.agents {
			line("User-agent", a)
		}
		for _, r := range g.rules {
			k := "Disallow"
			if r.Allow {
				k = "Allow"
			}
			line(k, r.Pat)
			junk()
		}
	}
	s := b.String()
	if rng.Intn(5) == 0 && len(gs[len(gs)-1].rules) > 0 {
		rs := gs[len(gs)-1].rules
		if rs[len(rs)-1].Pat != "" {
			s = strings.TrimRight(s, "\r\n")
		}
	}
	return s
}

var rsegs = []string{"p", "q", "pq", "pr", "priv", "a.h", "a.html", "p-q", "P", "img", "x", "z~1", "1"}

func rpath(rng *rand.Rand) string {
	n := rng.Intn(4)
	if n == 0 {
		return "/"
	}
	if rng.Intn(15) == 0 {
		n += rng.Intn(60)
	}
	s := ""
	for ; n > 0; n-- {
		s += "/" + rsegs[rng.Intn(len(rsegs))]
	}
	return s
}

func rpat(rng *rand.Rand, urls []rurl) string {
	p := rpath(rng)
	if rng.Intn(3) != 0 && len(urls) > 0 {
		p = urls[rng.Intn(len(urls))].t
	}
	if rng.Intn(2) == 0 && len(p) > 1 {
		p = p[:1+rng.Intn(len(p))]
	}
	switch rng.Intn(12) {
	case 0:
		return ""
	case 1:
		return "/"
	case 2, 3:
		i := 1 + rng.Intn(len(p))
		j := i + rng.Intn(len(p)-i+1)
		p = p[:i] + "*" + p[j:]
	case 4:
		i := rng.Intn(len(p))
		p = "*" + p[i:]
		if p == "*" {
			p = "*p"
		}
	case 5:
		p += "$"
	case 6:
		p += "*"
		if rng.Intn(2) == 0 {
			p += "$"
		}
	case 7:
		i := 1 + rng.Intn(len(p))
		p = p[:i] + "*" + p[i:] + "$"
	}
	// An escape cut in half is no rule anyone writes.
	if i := strings.LastIndex(p, "%"); i >= 0 && i+2 >= len(p) {
		p = p[:i]
	}
	if strings.Contains(p, "%*") || strings.Contains(p, "%C*") || strings.Contains(p, "%c*") || p == "" || p == "*" {
		return "/x"
	}
	if i := strings.Index(p, "$"); i >= 0 && i != len(p)-1 {
		return "/x"
	}
	return p
}

func robotsRun(x *X) {
	rng := x.Rng
	names := []string{"a.example", "a.example:8080", "b.a.example"}
	var hosts []rhost
	var urls []rurl
	nh := 1 + rng.Intn(3)
	seen := map[string]bool{}
	odd := rng.Intn(10) == 0
	for i := 0; i < nh; i++ {
		base := len(urls)
		for k := 2 + rng.Intn(10); k > 0; k-- {
			t := rpath(rng)
			if odd && rng.Intn(3) == 0 {
				t = strings.TrimSuffix(t, "/") + []string{"/%C3%A9", "/caf%C3%A9", "/y%20y"}[rng.Intn(3)]
			}
			if rng.Intn(3) == 0 {
				t += "?" + []string{"k", "k=1", "a=1&k=2", "q=p/q", "sort=a", "p"}[rng.Intn(6)]
			}
			raw := "http://" + names[i] + t
			if !seen[raw] {
				seen[raw] = true
				urls = append(urls, rurl{i + 1, raw, t})
			}
		}
		mine := urls[base:]
		rules := func() []rrule {
			var rs []rrule
			for k := 1 + rng.Intn(5); k > 0; k-- {
				rs = append(rs, rrule{Allow: rng.Intn(3) == 0, Pat: rpat(rng, mine)})
			}
			if rng.Intn(25) == 0 {
				rs = append(rs, rrule{Pat: "*"})
			}
			return rs
		}
		h := rhost{name: names[i], status: 200}
		if rng.Intn(8) == 0 {
			h.status = []int{404, 403, 401, 410, 500, 503, 201, 204}[rng.Intn(8)]
		}
		n := 1 + rng.Intn(4)
		if rng.Intn(12) == 0 {
			n = 60
		}
		for k := 0; k < n; k++ {
			var g rgroup
			for m := 1 + rng.Intn(2); m > 0; m-- {
				a := []string{"other", "badbot", "googlebot", "*", "antbot", "AntBot", "ANTBOT", "botant", "antbotx", "xyz", fmt.Sprint("bot", k)}[rng.Intn(11)]
				if n == 60 && k != 40 {
					a = fmt.Sprint("bot", k, m)
				}
				g.agents = append(g.agents, a)
			}
			g.rules = rules()
			h.groups = append(h.groups, g)
		}
		h.text = robotsText(rng, h.groups)
		if h.status == 204 {
			h.text, h.groups = "", nil
		}
		if rng.Intn(100) == 0 {
			// A very long file.
			line := "# " + strings.Repeat("x", rng.Intn(100)) + "\n"
			h.text = strings.Repeat(line, 1+(10+rng.Intn(400))<<10/len(line)) + strings.TrimPrefix(h.text, "\uFEFF")
		}
		if h.status == 200 && rng.Intn(20) == 0 {
			h.bad = true
			switch rng.Intn(4) {
			case 0:
				h.text = "Disallow: /x\n" + h.text
			case 1:
				h.text += "\nUser-agent: last\nCrawl-delay: soon\n"
			default:
				h.cut = 1 + rng.Intn(len(h.text))
			}
		}
		hosts = append(hosts, h)
	}
	rng.Shuffle(len(urls), func(i, j int) { urls[i], urls[j] = urls[j], urls[i] })
	robotsCrawl(rng, x.Run, hosts, urls)
}

func robotsCase(x *X) {
	cs := rawCases()
	if x.Run >= len(cs) {
		W.Log("begin", tr.M{"run": x.Run, "hosts": []int{}, "urls": []int{}})
		return
	}
	var c struct {
		Groups []struct {
			Agents [][]int
			Rules  []struct {
				Allow bool
				Pat   []int
			}
		}
		Paths [][]int
	}
	if err := json.Unmarshal(cs[x.Run], &c); err != nil {
		panic(err)
	}
	str := func(a []int) string {
		b := make([]byte, len(a))
		for i, n := range a {
			b[i] = byte(n)
		}
		return string(b)
	}
	h := rhost{name: "a.example", status: 200}
	for _, g := range c.Groups {
		var r rgroup
		for _, a := range g.Agents {
			r.agents = append(r.agents, str(a))
		}
		for _, u := range g.Rules {
			r.rules = append(r.rules, rrule{Allow: u.Allow, Pat: str(u.Pat)})
		}
		h.groups = append(h.groups, r)
	}
	h.text = robotsText(x.Rng, h.groups)
	var urls []rurl
	for _, p := range c.Paths {
		urls = append(urls, rurl{1, "http://a.example" + str(p), str(p)})
	}
	robotsCrawl(x.Rng, x.Run, []rhost{h}, urls)
}

func mustParse(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}
