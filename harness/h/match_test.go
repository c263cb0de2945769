package h

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"regexp"
	"sync"

	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["match"] = scenario{false, matchRun}
	scenarios["matchconc"] = scenario{true, matchRun}
	scenarios["matchcases"] = scenario{false, matchCase}
}

func runes(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

// re is a regular expression.
type re struct {
	Op string `json:"op"`
	C  int    `json:"c"`
	L  []*re  `json:"l"`
}

func (r *re) String() string {
	switch r.Op {
	case "lit":
		return regexp.QuoteMeta(string(rune(r.C)))
	case "any":
		return "."
	case "digit":
		return "[0-9]"
	case "not":
		return "[^" + regexp.QuoteMeta(string(rune(r.C))) + "]"
	case "begin":
		return "^"
	case "end":
		return "$"
	case "seq":
		s := ""
		for _, x := range r.L {
			s += x.String()
		}
		return s
	case "alt":
		s := "(?:"
		for i, x := range r.L {
			if i > 0 {
				s += "|"
			}
			s += x.String()
		}
		return s + ")"
	}
	op := map[string]string{"opt": "?", "star": "*", "plus": "+"}[r.Op]
	return "(?:" + r.L[0].String() + ")" + op
}

func lits(s string) (l []*re) {
	for _, c := range s {
		l = append(l, &re{"lit", int(c), []*re{}})
	}
	return l
}

func genRe(rng *rand.Rand, text string, depth int) *re {
	rs := []rune(text)
	if len(rs) == 0 {
		rs = []rune("a")
	}
	atom := func() *re {
		c := int(rs[rng.Intn(len(rs))])
		switch rng.Intn(6) {
		case 0:
			return &re{"any", 0, []*re{}}
		case 1:
			return &re{"digit", 0, []*re{}}
		case 2:
			return &re{"not", c, []*re{}}
		}
		return &re{"lit", c, []*re{}}
	}
	if depth == 0 {
		return atom()
	}
	switch rng.Intn(6) {
	case 0:
		n := 1 + rng.Intn(3)
		r := &re{Op: "alt"}
		for ; n > 0; n-- {
			r.L = append(r.L, genRe(rng, text, depth-1))
		}
		return r
	case 1:
		return &re{[]string{"opt", "star", "plus"}[rng.Intn(3)], 0, []*re{genRe(rng, text, depth-1)}}
	case 2:
		return atom()
	}
	r := &re{Op: "seq"}
	i := rng.Intn(len(rs))
	for k := 1 + rng.Intn(4); k > 0; k-- {
		switch {
		case rng.Intn(3) == 0:
			r.L = append(r.L, genRe(rng, text, depth-1))
		case i < len(rs):
			r.L = append(r.L, lits(string(rs[i]))...)
			i++
		}
	}
	if len(r.L) == 0 {
		r.L = []*re{atom()}
	}
	return r
}

var mhosts = []string{"a.example", "www.a.example", "a.example:8080", "b.example", "a-example", "xa.example", "bücher.example", "[::1]", "127.0.0.1:80"}

// mcased adds hosts that differ in the case of letters only.
var mcased = append([]string{"A.example", "a.EXAMPLE", "WWW.A.example"}, mhosts...)
var msegs = []string{"a", "b", "ab", "p", "posts", "p1", "42", "a.html", "a?b", "é", "日本", "x y", "a*b", "A"}

func mpath(rng *rand.Rand) string {
	s := ""
	for k := rng.Intn(4); k > 0; k-- {
		s += "/" + msegs[rng.Intn(len(msegs))]
	}
	if rng.Intn(6) == 0 {
		s += "/"
	}
	return s
}

func mpattern(rng *rand.Rand, text string) string {
	rs := []rune(text)
	out := ""
	quote := func(c rune) string {
		if c == '*' || c == '?' || c == '\\' {
			return "\\" + string(c)
		}
		return string(c)
	}
	for i := 0; i < len(rs); i++ {
		switch rng.Intn(14) {
		case 0:
			out += "*"
			i += rng.Intn(5) - 1
			if i < -1 {
				i = -1
			}
			if len(out) > 40 {
				return out
			}
		case 1:
			out += "?"
		case 2:
			if rng.Intn(4) == 0 {
				out += "**"
			} else {
				out += quote(rs[i])
			}
		case 3:
			if rng.Intn(6) == 0 && rs[i] < 128 {
				out += "\\" + string(rs[i])
			} else {
				out += quote(rs[i])
			}
		default:
			out += quote(rs[i])
		}
	}
	if rng.Intn(5) == 0 {
		out += "*"
	}
	if rng.Intn(8) == 0 {
		out = "*" + out
	}
	if rng.Intn(30) == 0 {
		out += "x"
	}
	return out
}

type mclient struct {
	mu   sync.Mutex
	seen map[string]bool
}

func (c *mclient) Do(req *http.Request) (*http.Response, error) {
	c.mu.Lock()
	c.seen[req.URL.Host+" "+req.URL.Path] = true
	c.mu.Unlock()
	return mkresp(req, 200, nil, ""), nil
}

func tryMatcher(m ant.Matcher, u *url.URL) {
	was := u.String()
	got := m.Match(u)
	if u.String() != was {
		W.Log("changed", tr.M{"url": was})
	}
	W.Log("match", tr.M{"host": runes(u.Host), "path": runes(u.Path), "got": got})
}

func matchRun(x *X) {
	rng := x.Rng
	mu := func() *url.URL {
		u := &url.URL{Scheme: []string{"http", "https"}[rng.Intn(2)], Host: mcased[rng.Intn(len(mcased))], Path: mpath(rng)}
		if rng.Intn(4) == 0 {
			u.RawQuery = []string{"a=1", "x=/posts", "b", "a.html"}[rng.Intn(4)]
		}
		if rng.Intn(8) == 0 {
			u.Fragment = "frag"
		}
		if rng.Intn(8) == 0 {
			u.User = url.User("u")
		}
		if rng.Intn(25) == 0 {
			u = &url.URL{Path: "p/q"}
		}
		return u
	}
	seed := mu()
	var m ant.MatcherFunc
	d := tr.M{"pat": []int{}, "re": &re{"any", 0, []*re{}}}
	text := seed.Host + seed.Path
	src := ""
	switch kind := rng.Intn(5); kind {
	case 0:
		src = mcased[rng.Intn(len(mcased))]
		d["kind"], d["pat"] = "host", runes(src)
		m = ant.MatchHostname(src)
	case 1, 2:
		src = mpattern(rng, text)
		d["kind"], d["pat"] = "pattern", runes(src)
		m = ant.MatchPattern(src)
	default:
		r := genRe(rng, text, 1+rng.Intn(3))
		if rng.Intn(2) == 0 {
			l := []*re{r}
			if rng.Intn(2) == 0 {
				l = append([]*re{{"begin", 0, []*re{}}}, l...)
			}
			if rng.Intn(2) == 0 {
				l = append(l, &re{"end", 0, []*re{}})
			}
			r = &re{"seq", 0, l}
		}
		src = r.String()
		fix(r)
		d["kind"], d["re"] = "regexp", r
		m = ant.MatchRegexp(src)
	}
	W.Log("begin", tr.M{"run": x.Run, "m": d, "src": src})
	if x.S != nil {
		matchConc(x, m, seed, mu)
		return
	}
	tryMatcher(m, seed)
	for k := 3 + rng.Intn(8); k > 0; k-- {
		u := mu()
		switch rng.Intn(4) {
		case 0:
			u.Host = seed.Host
		case 1:
			u.Path = seed.Path
		}
		tryMatcher(m, u)
	}
	if rng.Intn(4) != 0 {
		return
	}
	// A crawl with that matcher.
	c := &mclient{seen: map[string]bool{}}
	var us ant.URLs
	n := map[string]*url.URL{}
	for k := 2 + rng.Intn(6); k > 0; k-- {
		u := &url.URL{Scheme: "http", Host: []string{"a.example", "www.a.example", "b.example"}[rng.Intn(3)], Path: "/" + msegs[rng.Intn(7)]}
		if rng.Intn(2) == 0 {
			u.Path += "/" + msegs[rng.Intn(7)]
		}
		if rng.Intn(3) == 0 {
			u.RawQuery = "a=1"
		}
		us = append(us, u)
		n[u.Host+" "+u.Path] = u
	}
	viaLinks := rng.Intn(2) == 0
	first := true
	sc := scraperFunc(func(ctx context.Context, p *ant.Page) (ant.URLs, error) {
		if viaLinks && first {
			first = false
			return us, nil
		}
		return nil, nil
	})
	const start = "http://start.example/start"
	mm := ant.MatcherFunc(func(u *url.URL) bool { return u.Host == "start.example" || m.Match(u) })
	eng, err := ant.NewEngine(ant.EngineConfig{Scraper: sc, Matcher: mm, Fetcher: &ant.Fetcher{Client: c}, Impolite: true, Workers: 2})
	if err != nil {
		panic(err)
	}
	starts := []string{start}
	if !viaLinks {
		for _, u := range us {
			starts = append(starts, u.String())
		}
	}
	if err := eng.Run(context.Background(), starts...); err != nil {
		panic(fmt.Sprint("crawl: ", err))
	}
	out := []tr.M{}
	for k, u := range n {
		out = append(out, tr.M{"host": runes(u.Host), "path": runes(u.Path), "got": c.seen[k]})
	}
	W.Log("crawl", tr.M{"urls": out})
}

// matchConc asks the matcher from several goroutines.
func matchConc(x *X, m ant.Matcher, seed *url.URL, mu func() *url.URL) {
	var plans [][]*url.URL
	for k := 2 + x.Rng.Intn(2); k > 0; k-- {
		var p []*url.URL
		for n := 1 + x.Rng.Intn(4); n > 0; n-- {
			u := mu()
			switch x.Rng.Intn(4) {
			case 0:
				c := *seed
				u = &c
			case 1:
				u.Path = seed.Path
			}
			p = append(p, u)
		}
		plans = append(plans, p)
	}
	left := len(plans)
	x.S.Start()
	for _, p := range plans {
		go func() {
			for _, u := range p {
				x.S.Park(true, "op")
				tryMatcher(m, u)
			}
			left--
		}()
	}
	x.S.Settle()
	for i := 0; i < 100000 && left > 0; i++ {
		ps := x.S.Parked()
		if len(ps) == 0 {
			break
		}
		x.S.Release(x.S.Choose(ps))
	}
	x.S.Stop()
}

func fix(r *re) {
	if r.L == nil {
		r.L = []*re{}
	}
	for _, x := range r.L {
		fix(x)
	}
}

// matchCase tries one generated pattern on all short texts.
func matchCase(x *X) {
	cs := rawCases()
	if x.Run >= len(cs) {
		W.Log("begin", tr.M{"run": x.Run, "m": tr.M{"kind": "none"}})
		return
	}
	var p []int
	if err := json.Unmarshal(cs[x.Run], &p); err != nil {
		panic(err)
	}
	src := ""
	for _, c := range p {
		src += string(rune(c))
	}
	m := ant.MatchPattern(src)
	W.Log("begin", tr.M{"run": x.Run, "m": tr.M{"kind": "pattern", "pat": p, "re": &re{"any", 0, []*re{}}}})
	for _, h := range []string{"", "a", "é", "aa", "aé", "éa"} {
		for _, s := range []string{"", "/", "/a", "/é", "//", "/a/", "/aé", "a"} {
			tryMatcher(m, &url.URL{Scheme: "http", Host: h, Path: s})
		}
	}
}
