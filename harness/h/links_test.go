package h

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["links"] = scenario{false, linksRun}
	scenarios["linkcases"] = scenario{false, linkCases}
}

// hops serves body at last; every other URL redirects to the next one.
type hops struct {
	to     map[string]string
	status int
	body   string
	served string
}

func (h *hops) RoundTrip(req *http.Request) (*http.Response, error) {
	if l, ok := h.to[req.URL.String()]; ok {
		delete(h.to, req.URL.String())
		return mkresp(req, h.status, http.Header{"Location": {l}}, "moved"), nil
	}
	h.served = req.URL.String()
	return mkresp(req, 200, nil, h.body), nil
}

// linksPage returns the page served from base, possibly after redirects, and
// the URL it was served from.
func linksPage(r *rand.Rand, base, body string) (*ant.Page, string) {
	h := &hops{to: map[string]string{}, status: []int{301, 302, 303, 307, 308}[r.Intn(5)], body: body}
	start := base
	for n := r.Intn(3); n > 0; n-- {
		from := fmt.Sprintf("%s://start%d.example/one/two?n=%d", pickS(r, "http", "https"), n, r.Intn(3))
		h.to[from] = start
		start = from
	}
	u, err := url.Parse(start)
	if err != nil {
		panic(err)
	}
	p, err := (&ant.Fetcher{Client: &http.Client{Transport: h}}).Fetch(context.Background(), u)
	if err != nil || p == nil {
		panic(fmt.Sprint("no page: ", err))
	}
	return p, h.served
}

func linkCases(x *X) {
	ls := rawCases()
	per := 60
	W.Log("begin", tr.M{"run": x.Run})
	defer W.Log("end", nil)
	var base string
	var hrefs []string
	flush := func() {
		if len(hrefs) > 0 {
			d := []snode{{K: "d"}}
			for _, h := range hrefs {
				d = append(d, snode{P: 1, K: "e", Tag: "a", Attr: [][2]any{{"href", codes(h)}}})
			}
			askLinks(x.Rng, plain(d), base, 1)
			hrefs = nil
		}
	}
	for i := x.Run * per; i < (x.Run+1)*per && i < len(ls); i++ {
		var c struct{ B, H []int }
		if err := json.Unmarshal(ls[i], &c); err != nil {
			panic(err)
		}
		if b := uncodes(c.B); b != base || len(hrefs) == 8 {
			flush()
			base = b
		}
		hrefs = append(hrefs, uncodes(c.H))
	}
	flush()
}

// askLinks asks a page for its links several times, from n goroutines.
func askLinks(r *rand.Rand, d []snode, base string, n int) {
	defer func() {
		if e := recover(); e != nil {
			W.Log("panic", tr.M{"p": "C24", "msg": fmt.Sprint(e)})
		}
	}()
	p, served := linksPage(r, base, render(r, d))
	if !fits(render(r, d), d) {
		return
	}
	type ask struct {
		s   ssel
		css string
		all bool
		mod bool
	}
	var asks []ask
	for i := 0; i < n; i++ {
		s := genLinkSel(r)
		a := ask{s, s.css(r), r.Intn(2) == 0 || n == 1, r.Intn(3) == 0}
		asks = append(asks, a)
		if r.Intn(3) == 0 {
			asks = append(asks, a)
		}
	}
	one := func(a ask) {
		var us ant.URLs
		if a.all {
			us = p.URLs()
		} else {
			var err error
			if us, err = p.Next(a.css); err != nil {
				W.Log("panic", tr.M{"p": "C24", "msg": "Next: " + err.Error()})
				return
			}
		}
		got := [][]int{}
		for _, u := range us {
			got = append(got, codes(u.String()))
		}
		W.Log("links", tr.M{"d": d, "base": codes(served), "s": a.s, "all": a.all, "r": got})
		if a.mod { // they are the caller's
			for i, u := range us {
				u.Path, u.RawPath, u.Host = "/changed", "", "changed.example"
				us[i] = nil
			}
		}
	}
	if n > 1 && r.Intn(2) == 0 {
		var wg sync.WaitGroup
		for _, a := range asks {
			wg.Add(1)
			go func() { defer wg.Done(); one(a) }()
		}
		wg.Wait()
		return
	}
	for _, a := range asks {
		one(a)
	}
}

var lbases = []string{"http://a.example", "http://a.example/", "https://a.example/d/p.html", "http://u@a.example:8080/d/e/?q=1", "http://[::1]/x/y", "https://A.Example/%7Eu/%2F/p?x#f", "http://a.example/d//e/"}

func genHref(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return pickS(r, "mailto:a@b.example", "javascript:void(0)", "tel:+1234", "data:text/html,x", "ftp://b.example/x", "about:blank", "httpx://b.example/", "http", "HTTP://B.Example/X", "Https://b.example")
	case 1:
		return pickS(r, "%", "/%g0", "http://b.example/%", "http://b.example:x/", "http://b.example:80a/", "1:2", ":x", "//b.example:8o/", "http://", "https:///x", "http:x", "https:/x", "http://:80/x", "http://u@/x", "http://u:p@:1/", "http:?q", "https:#f")
	case 2:
		return pickS(r, "", "#", "#top", "?", "?p=2", "?p=2#top", "//b.example", "//b.example:8080/x?y")
	case 3:
		return pickS(r, "/é", "/漢/字", "é", "/a b", " /a", "/a|b", "/a\tb", "/<x>", "\\x")
	}
	var b strings.Builder
	if r.Intn(3) == 0 {
		b.WriteString(pickS(r, "http://b.example", "https://c.example:444", "//b.example", "http://a.example", "http://[::1]:80"))
		if r.Intn(4) == 0 {
			return b.String()
		}
		b.WriteString("/")
	} else if r.Intn(2) == 0 {
		b.WriteString("/")
	}
	for n := r.Intn(5); n > 0; n-- {
		b.WriteString(pickS(r, "a", "b.html", "..", "..", ".", "x%20y", "%C3%A9", "%2F", "c:d", "~u", "a@b", ";p=1", "*", "...", "a,b", "(x)"))
		if n > 1 || r.Intn(3) == 0 {
			b.WriteString("/")
			if r.Intn(8) == 0 {
				b.WriteString("/")
			}
		}
	}
	if r.Intn(3) == 0 {
		b.WriteString(pickS(r, "?", "?a=b", "?a=1&b=2", "?u=http://x/../y", "?%20", "?x?y"))
	}
	if r.Intn(4) == 0 {
		b.WriteString(pickS(r, "#", "#x", "#!/y", "#x?y"))
	}
	return b.String()
}

func genLinkSel(r *rand.Rand) ssel {
	c := func() scomp {
		c := scomp{}
		if r.Intn(3) != 0 {
			c.Tag = pickS(r, "a", "a", "bb", "cc", "base")
		}
		if r.Intn(3) == 0 {
			c.Cls = pickS(r, "x", "y")
		}
		if r.Intn(4) == 0 {
			c.Attr = pickS(r, "href", "href", "rel")
		}
		if c == (scomp{}) { // * would also be the html and body elements
			c.Attr = "href"
		}
		return c
	}
	s := ssel{{c()}}
	if r.Intn(4) == 0 {
		k := c()
		k.Comb = pickS(r, " ", ">", "+", "~")
		s[0] = append(s[0], k)
	}
	if r.Intn(5) == 0 {
		s = append(s, []scomp{c()})
	}
	return s
}

func linksRun(x *X) {
	r := x.Rng
	W.Log("begin", tr.M{"run": x.Run})
	for i := 0; i < 8; i++ {
		d := []snode{{K: "d"}}
		par := 1
		for n := r.Intn(9); n > 0; n-- {
			nd := snode{P: par, K: "e", Tag: pickS(r, "a", "a", "a", "bb", "cc")}
			if r.Intn(12) == 0 && len(d) > 1 {
				nd.Tag = "base"
			}
			for _, c := range sclss {
				if r.Intn(3) == 0 {
					nd.Cls = append(nd.Cls, c)
				}
			}
			if r.Intn(6) == 0 {
				nd.Attr = append(nd.Attr, [2]any{"rel", codes(pickS(r, "next", "prev", "nofollow", "nofollow noopener", "ugc", "noreferrer", "canonical", "alternate"))})
			}
			if r.Intn(12) == 0 {
				nd.Attr = append(nd.Attr, [2]any{pickS(r, "target", "download", "hidden", "hreflang", "type", "data-href", "src", "xlink:href"), codes(pickS(r, "", "_blank", "en", "/other"))})
			}
			if r.Intn(6) != 0 {
				nd.Attr = append(nd.Attr, [2]any{"href", codes(genHref(r))})
			}
			d = append(d, nd)
			if nd.Tag == "base" { // has no end
				continue
			}
			if nd.Tag != "a" { // links do not nest
				if r.Intn(2) == 0 {
					par = len(d)
				}
			} else if par > 1 && r.Intn(3) == 0 {
				par = 1
			}
		}
		askLinks(r, plain(d), lbases[r.Intn(len(lbases))], 1+r.Intn(4))
	}
	W.Log("end", nil)
}
