package h

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"

	"antverif/tr"

	"github.com/yields/ant"
)

func init() {
	scenarios["norm"] = scenario{false, normRun}
}

type passDedupe struct{}

func (passDedupe) Dedupe(_ context.Context, us ant.URLs) (ant.URLs, error) { return us, nil }

// capture is a memory queue that keeps what was put in.
type capture struct {
	ant.Queue
	mu  sync.Mutex
	got ant.URLs
}

func (c *capture) Enqueue(ctx context.Context, us ant.URLs) error {
	c.mu.Lock()
	c.got = append(c.got, us...)
	c.mu.Unlock()
	return c.Queue.Enqueue(ctx, us)
}

type scraperFunc func(context.Context, *ant.Page) (ant.URLs, error)

func (f scraperFunc) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) { return f(ctx, p) }

type okClient struct{}

func (okClient) Do(req *http.Request) (*http.Response, error) { return mkresp(req, 200, nil, ""), nil }

// queued gives raw to an engine, as a start URL or as a link, and returns
// what it queues.
func queued(raw string, link bool) *ant.URL {
	c := &capture{Queue: ant.MemoryQueue(1)}
	cfg := ant.EngineConfig{Queue: c, Deduper: passDedupe{}, Impolite: true, Fetcher: &ant.Fetcher{Client: okClient{}}}
	first := true
	cfg.Scraper = scraperFunc(func(ctx context.Context, p *ant.Page) (ant.URLs, error) {
		if !first {
			return nil, nil
		}
		first = false
		u, err := url.Parse(raw)
		if err != nil {
			panic(err)
		}
		return ant.URLs{u}, nil
	})
	eng, err := ant.NewEngine(cfg)
	if err != nil {
		panic(err)
	}
	if !link {
		err = eng.Enqueue(context.Background(), raw)
	} else {
		err = eng.Run(context.Background(), "http://start.example/")
		if len(c.got) > 0 {
			c.got = c.got[1:]
		}
	}
	if err != nil || len(c.got) != 1 {
		return &ant.URL{}
	}
	return c.got[0]
}

func codes(s string) []int {
	r := make([]int, len(s))
	for i := range r {
		r[i] = int(s[i])
	}
	return r
}

var normCases []string

func loadCases() {
	if normCases != nil {
		return
	}
	for _, b := range rawCases() {
		var a []byte
		var n []int
		if err := json.Unmarshal(b, &n); err != nil {
			panic(err)
		}
		for _, b := range n {
			a = append(a, byte(b))
		}
		normCases = append(normCases, string(a))
	}
}

var inLines [][]byte

// rawCases returns the lines of the input file.
func rawCases() [][]byte {
	if *fIn == "" || inLines != nil {
		return inLines
	}
	f, err := os.Open(*fIn)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		inLines = append(inLines, append([]byte{}, sc.Bytes()...))
	}
	return inLines
}

// part is one URL in pieces, spelled in many ways by spell.
type part struct {
	scheme, user, host, port string
	segs, params             []string
}

func pickS(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

func genPart(r *rand.Rand) part {
	p := part{scheme: pickS(r, "http", "https"), host: pickS(r, "a.example", "b.example", "www.a-b.example", "127.0.0.1", "[::1]", "[2001:db8::80]", "a", "a.example.", "x_y.example", "[fe80::443]", "xn--bcher-kva.example")}
	if r.Intn(6) == 0 {
		p.user = pickS(r, "User", "u:p", "u:", "a%40b", "u:p%3Aq")
	}
	if r.Intn(3) == 0 {
		p.port = pickS(r, "80", "443", "8080", "8", "180", "4443", "800", "0")
	}
	long := r.Intn(40) == 0 // many segments or parameters
	for n := r.Intn(5) + more(r, long); n > 0; n-- {
		p.segs = append(p.segs, genSeg(r))
	}
	for n := r.Intn(4) + more(r, long); n > 0; n-- {
		p.params = append(p.params, pickS(r, "q=a%20b", "q=a%2bb", "a=1;b=2", "a=1%26b", "é=1", "a[]=1", "=1", "a==", "b=%zz", "a=1", "b=2", "a", "b=", "", "=", "a=%41", "a=A", "a=/x", "q=a+b", "a=1", "z", "A=1", "a=?", "a=%2f"))
	}
	if len(p.params) == 1 && p.params[0] == "" {
		p.params = nil
	}
	return p
}

func more(r *rand.Rand, long bool) int {
	if long {
		return r.Intn(24)
	}
	return 0
}

func genSeg(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(4); n > 0; n-- {
		switch r.Intn(12) {
		case 0:
			b.WriteString(pickS(r, "%20", "%C3%A9", "%25", "%3F", "%23", "%2B", "%3B", "%00", "%7F", "%FF"))
		case 1:
			b.WriteString(pickS(r, "-", "_", "~", ".", "..", "=", "+", ":", "@", "&", "$", ",", ";", "!", "'", "(", "*"))
		case 2:
			b.WriteString(pickS(r, "%2F", "é", "%2A"))
		default:
			b.WriteByte("abcXYZ019"[r.Intn(9)])
		}
	}
	s := b.String()
	if s == "." || s == ".." {
		return s + "x"
	}
	return s
}

func spell(r *rand.Rand, p part) string {
	mix := func(s string) string {
		b := []byte(s)
		for i := range b {
			if r.Intn(3) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	var b strings.Builder
	b.WriteString(mix(p.scheme) + "://")
	if p.user != "" {
		b.WriteString(p.user + "@")
	}
	b.WriteString(mix(p.host))
	if p.port != "" {
		b.WriteString(":" + p.port)
	} else if r.Intn(3) == 0 {
		b.WriteString(map[string]string{"http": ":80", "https": ":443"}[p.scheme])
	}
	esc := func(s string) string {
		var o strings.Builder
		for i := 0; i < len(s); i++ {
			c := s[i]
			un := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~", c) >= 0
			switch {
			case c == '%':
				h := s[i : i+3]
				if r.Intn(2) == 0 {
					h = strings.ToLower(h)
				}
				o.WriteString(h)
				i += 2
			case un && r.Intn(6) == 0:
				f := "%%%02X"
				if r.Intn(2) == 0 {
					f = "%%%02x"
				}
				fmt.Fprintf(&o, f, c)
			default:
				o.WriteByte(c)
			}
		}
		return o.String()
	}
	dots := func(s string) string {
		if r.Intn(3) == 0 {
			s = strings.Replace(s, ".", pickS(r, "%2e", "%2E"), 1)
		}
		return s
	}
	for _, s := range p.segs {
		for r.Intn(4) == 0 {
			b.WriteString(pickS(r, "/", "/"+dots("."), "/zz/"+dots(".."), "/%7Ay/"+dots("..")))
		}
		b.WriteString("/" + esc(s))
	}
	for r.Intn(3) == 0 {
		b.WriteString(pickS(r, "/", "/.", "/q/..", "/q/../", "//"))
	}
	if len(p.segs) == 0 && r.Intn(4) == 0 {
		b.WriteString(pickS(r, "/..", "/../..", "/../"))
	}
	ps := append([]string(nil), p.params...)
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	if len(ps) > 0 || r.Intn(4) == 0 {
		b.WriteString("?" + strings.Join(ps, "&"))
	}
	if r.Intn(4) == 0 {
		b.WriteString(pickS(r, "#", "#frag", "#a?b=c", "#/x", "#a%2Fb", "#%41", "#é", "#!/a/../b", "#%23", "#a b"))
	}
	return b.String()
}

func tweak(r *rand.Rand, p part) part {
	p.segs = append([]string(nil), p.segs...)
	p.params = append([]string(nil), p.params...)
	switch r.Intn(8) {
	case 0:
		p.scheme = map[string]string{"http": "https", "https": "http"}[p.scheme]
	case 1:
		p.user = pickS(r, "", "user", "User", "u", "u:q")
	case 2:
		p.port = pickS(r, "", "80", "443", "81")
	case 3:
		p.segs = append(p.segs, "x")
	case 4:
		if len(p.segs) > 0 {
			i := r.Intn(len(p.segs))
			p.segs[i] = strings.ToUpper(p.segs[i])
		}
	case 5:
		p.params = append(p.params, "a=1")
	case 6:
		if len(p.params) > 1 {
			p.params = p.params[1:]
		}
	case 7:
		p.host = pickS(r, "a.example", "b.example", "[::1]")
	}
	return p
}

func normRun(x *X) {
	r := x.Rng
	loadCases()
	var in []string
	if *fOpt == "cases" && len(normCases) > 0 {
		// every case once: this run's slice of a fixed permutation
		perm := rand.New(rand.NewSource(*fSeed)).Perm(len(normCases))
		for i := 0; i < 16; i++ {
			in = append(in, normCases[perm[(x.Run*16+i)%len(perm)]])
		}
	} else {
		p := genPart(r)
		for i := 0; i < 12; i++ {
			q := p
			if i > 5 {
				q = tweak(r, p)
			}
			if i == 11 {
				q = genPart(r)
			}
			in = append(in, spell(r, q))
		}
	}
	link := r.Intn(3) == 0
	W.Log("begin", tr.M{"run": x.Run, "link": link})
	var ins, outs, again, paths [][]int
	for _, s := range in {
		if _, err := url.Parse(s); err != nil {
			continue
		}
		u := queued(s, link)
		o := u.String()
		ins = append(ins, codes(s))
		outs = append(outs, codes(o))
		paths = append(paths, codes(u.Path))
		again = append(again, codes(queued(o, r.Intn(2) == 0).String()))
	}
	if len(ins) == 0 {
		x.drop = true
		return
	}
	W.Log("norm", tr.M{"in": ins, "out": outs, "again": again, "paths": paths})
	W.Log("end", nil)
}
