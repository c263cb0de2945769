package h

import (
	"context"
	"encoding/json"
	"fmt"
	"html"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"antverif/tr"

	"github.com/yields/ant"
	nethtml "golang.org/x/net/html"
)

func init() {
	scenarios["scan"] = scenario{false, scanRandom}
	scenarios["scancases"] = scenario{false, scanCases}
	scenarios["scanconc"] = scenario{true, scanConc}
	scenarios["scanstress"] = scenario{false, scanConc}
	scenarios["query"] = scenario{false, queryRun}
}

// A node of a document, see ScanObs.tla.
type snode struct {
	P    int           `json:"p"`
	K    string        `json:"k"`
	Tag  string        `json:"tag"`
	Cls  []string      `json:"cls"`
	Attr [][2]any      `json:"attr"`
	Txt  []int         `json:"txt"`
	n    *nethtml.Node // where it ended up
}

type scomp struct {
	Tag  string `json:"tag"`
	Cls  string `json:"cls"`
	Attr string `json:"attr"`
	Comb string `json:"comb"`
}
type ssel [][]scomp

type sshape struct {
	K  string   `json:"k"`
	F  []sfield `json:"f"`
	El *sshape  `json:"el,omitempty"`
}
type sfield struct {
	S ssel   `json:"s"`
	A string `json:"a"`
	T sshape `json:"t"`
}

func (t sshape) MarshalJSON() ([]byte, error) {
	f := t.F
	if f == nil {
		f = []sfield{}
	}
	m := tr.M{"k": t.K, "f": f}
	if t.El != nil {
		m["el"] = t.El
	}
	return json.Marshal(m)
}
func (s ssel) MarshalJSON() ([]byte, error) {
	if s == nil {
		s = ssel{}
	}
	return json.Marshal([][]scomp(s))
}

func uncodes(c []int) string {
	b := make([]byte, len(c))
	for i := range c {
		b[i] = byte(c[i])
	}
	return string(b)
}

// css writes the selector.
func (s ssel) css(r *rand.Rand) string {
	if len(s) == 0 {
		return "--"
	}
	var b strings.Builder
	for i, alt := range s {
		if i > 0 {
			b.WriteString(pickS(r, ",", ", ", " , "))
		}
		for j, c := range alt {
			if j > 0 {
				if c.Comb == " " {
					b.WriteString(" ")
				} else {
					b.WriteString(pickS(r, c.Comb, " "+c.Comb+" "))
				}
			}
			if c.Tag == "" && c.Cls == "" && c.Attr == "" {
				b.WriteString("*")
			}
			b.WriteString(c.Tag)
			if c.Cls != "" {
				b.WriteString("." + c.Cls)
			}
			if c.Attr != "" {
				b.WriteString("[" + c.Attr + "]")
			}
		}
	}
	return b.String()
}

// render writes the document.
func render(r *rand.Rand, d []snode) string {
	kids := map[int][]int{}
	for i := 1; i < len(d); i++ {
		kids[d[i].P] = append(kids[d[i].P], i+1)
	}
	var b strings.Builder
	var rec func(i int)
	rec = func(i int) {
		n := d[i-1]
		switch n.K {
		case "t":
			b.WriteString(html.EscapeString(uncodes(n.Txt)))
		case "c":
			b.WriteString("<!--" + uncodes(n.Txt) + "-->")
		case "e":
			b.WriteString("<" + n.Tag)
			if len(n.Cls) > 0 {
				b.WriteString(` class="` + strings.Join(n.Cls, pickS(r, " ", "  ", "\n")) + `"`)
			}
			for _, a := range n.Attr {
				fmt.Fprintf(&b, ` %s="%s"`, a[0], html.EscapeString(uncodes(a[1].([]int))))
			}
			b.WriteString(">")
		}
		for _, k := range kids[i] {
			rec(k)
		}
		if n.K == "e" {
			b.WriteString("</" + n.Tag + ">")
		}
	}
	rec(1)
	if r.Intn(250) == 0 { // a large page
		return strings.Repeat(" \n", 600000+r.Intn(200000)) + b.String()
	}
	return b.String()
}

type htmlClient struct{ body string }

func (c htmlClient) Do(req *http.Request) (*http.Response, error) {
	return mkresp(req, 200, nil, c.body), nil
}

func pageOf(body string) *ant.Page {
	u, _ := url.Parse("http://a.example/")
	p, err := (&ant.Fetcher{Client: htmlClient{body}}).Fetch(context.Background(), u)
	if err != nil || p == nil {
		panic(fmt.Sprint("no page: ", err))
	}
	return p
}

// locate finds the nodes of d in the parsed page; false if the parser built
// another tree.
func locate(p *ant.Page, d []snode) bool {
	root, err := p.Document()
	return err == nil && locateIn(root, d)
}

// fits is true if the parser builds the tree d from the text.
func fits(text string, d []snode) bool {
	root, err := nethtml.Parse(strings.NewReader(text))
	return err == nil && locateIn(root, append([]snode(nil), d...))
}

func locateIn(root *nethtml.Node, d []snode) bool {
	d[0].n = root
	i := 1
	ok := true
	var rec func(n *nethtml.Node, p int)
	rec = func(n *nethtml.Node, p int) {
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			if c.Type == nethtml.ElementNode && (c.Data == "html" || c.Data == "head" || c.Data == "body") {
				rec(c, p)
				continue
			}
			if i >= len(d) || d[i].P != p {
				ok = false
				return
			}
			d[i].n = c
			i++
			rec(c, i)
		}
	}
	rec(root, 1)
	return ok && i == len(d)
}

var scalarTypes = map[string]reflect.Type{
	"s": reflect.TypeOf(""), "i": reflect.TypeOf(0), "u": reflect.TypeOf(uint(0)),
	"f": reflect.TypeOf(0.0), "b": reflect.TypeOf([]byte(nil)), "no": reflect.TypeOf(false),
}

func (t sshape) typ(r *rand.Rand) reflect.Type {
	switch t.K {
	case "st":
		var fs []reflect.StructField
		for i, f := range t.F {
			tag := f.S.css(r)
			if f.A != "" {
				tag += "@" + f.A
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.T.typ(r), Tag: reflect.StructTag(fmt.Sprintf(`css:%q json:"f%d"`, tag, i))})
		}
		switch r.Intn(6) { // fields that are not scanned
		case 0:
			fs = append(fs, reflect.StructField{Name: "NoTag", Type: scalarTypes["no"]})
		case 1:
			fs = append(fs, reflect.StructField{Name: "Skip", Type: scalarTypes["s"], Tag: `css:"-"`})
		case 2:
			fs = append([]reflect.StructField{{Name: "Empty", Type: scalarTypes["i"], Tag: `css:""`}}, fs...)
		}
		return reflect.StructOf(fs)
	case "sl":
		return reflect.SliceOf(t.El.typ(r))
	case "f":
		if r.Intn(3) == 0 {
			return reflect.TypeOf(float32(0))
		}
	}
	return scalarTypes[t.K]
}

// out reports a value of the shape.
func (t sshape) out(v reflect.Value) any {
	switch t.K {
	case "s":
		return codes(v.String())
	case "b":
		return codes(string(v.Bytes()))
	case "i":
		return codes(strconv.FormatInt(v.Int(), 10))
	case "u":
		return codes(strconv.FormatUint(v.Uint(), 10))
	case "f":
		if v.Float() == 0 {
			return codes("0")
		}
		return codes(strconv.FormatFloat(v.Float(), 'f', -1, v.Type().Bits()))
	case "st":
		r := []any{}
		for i, f := range t.F {
			r = append(r, f.T.out(v.FieldByName(fmt.Sprintf("F%d", i))))
		}
		return r
	case "sl":
		r := []any{}
		for i := 0; i < v.Len(); i++ {
			r = append(r, t.El.out(v.Index(i)))
		}
		return r
	}
	return nil
}

// plain makes the events of a document free of nulls.
func plain(d []snode) []snode {
	for i := range d {
		if d[i].Cls == nil {
			d[i].Cls = []string{}
		}
		if d[i].Attr == nil {
			d[i].Attr = [][2]any{}
		}
		if d[i].Txt == nil {
			d[i].Txt = []int{}
		}
		for j := range d[i].Attr { // as read from JSON
			if a, ok := d[i].Attr[j][1].([]any); ok {
				c := []int{}
				for _, x := range a {
					c = append(c, int(x.(float64)))
				}
				d[i].Attr[j][1] = c
			}
		}
	}
	return d
}

// scanOne scans node n of the page into a new value of the shape and logs
// what came out; used to hold something else before.
func scanOne(p *ant.Page, d []snode, n int, t sshape, typ reflect.Type, before *ant.Page) {
	defer func() {
		if r := recover(); r != nil {
			W.Log("panic", tr.M{"p": "C25", "msg": fmt.Sprint(r)})
		}
	}()
	dst := reflect.New(typ)
	old := reflect.New(typ).Elem()
	var was any
	if before != nil && before.Scan(dst.Interface()) == nil {
		old.Set(dst.Elem()) // as the caller may keep it
		was = t.out(old)
	}
	var err error
	if n == 1 {
		err = p.Scan(dst.Interface())
	} else {
		err = ant.List{d[n-1].n}.Scan(dst.Interface())
	}
	m := tr.M{"d": d, "n": n, "t": t, "err": err != nil, "v": []int{}}
	if err == nil {
		m["v"] = t.out(dst.Elem())
	}
	W.Log("scan", m)
	if was != nil {
		W.Log("kept", tr.M{"t": t, "v": was, "w": t.out(old)})
	}
}

func scanCases(x *X) {
	ls := rawCases()
	per := 40
	W.Log("begin", tr.M{"run": x.Run})
	for i := x.Run * per; i < (x.Run+1)*per && i < len(ls); i++ {
		var c struct {
			D []snode
			T sshape
		}
		if err := json.Unmarshal(ls[i], &c); err != nil {
			panic(err)
		}
		d := plain(c.D)
		text := render(x.Rng, d)
		if !fits(text, d) {
			panic("document of a case not parsed as given")
		}
		p := pageOf(text)
		if !locate(p, d) {
			W.Log("doc", tr.M{"p": "C25"})
			continue
		}
		scanOne(p, d, 1, c.T, c.T.typ(x.Rng), nil)
	}
	W.Log("end", nil)
}

var stexts = []string{"", "a", "b c", "12", "7", "-3", "0", "007", "2.5", "-1.5", "x<y&z", "\"q\"", "é漢", " 4", "5 ", "1e3", "+8", ".5", "3.", "-", "1.2.3", "0.250", "999999999", "true"}
var stags = []string{"aa", "bb", "cc"}
var sclss = []string{"x", "y"}
var skeys = []string{"key", "href"}

func genDoc(r *rand.Rand, max int) []snode {
	d := []snode{{K: "d"}}
	n := r.Intn(max)
	open := []int{1} // the last element and those above it
	for i := 0; i < n; i++ {
		for len(open) > 1 && r.Intn(3) == 0 {
			open = open[:len(open)-1]
		}
		nd := snode{P: open[len(open)-1]}
		last := d[len(d)-1]
		switch k := r.Intn(10); {
		case k < 6:
			nd.K, nd.Tag = "e", stags[r.Intn(len(stags))]
			for _, c := range sclss {
				if r.Intn(3) == 0 {
					nd.Cls = append(nd.Cls, c)
				}
			}
			if r.Intn(8) == 0 && len(nd.Cls) > 0 {
				nd.Cls[0] = "xx" // a class that only starts like one
			}
			for _, a := range skeys {
				if r.Intn(3) == 0 {
					nd.Attr = append(nd.Attr, [2]any{a, codes(stexts[r.Intn(len(stexts))])})
				}
			}
		case k < 9:
			t := stexts[r.Intn(len(stexts))]
			// texts directly after another melt together, blank ones at the
			// beginning of the body are dropped
			if last.K == "t" && last.P == nd.P || strings.TrimSpace(t) == "" || nd.P == 1 {
				continue
			}
			if len(d) > 1 && prevSibling(d, nd.P) == "t" {
				continue
			}
			nd.K, nd.Txt = "t", codes(t)
		default:
			if nd.P == 1 {
				continue
			}
			nd.K, nd.Txt = "c", codes(pickS(r, "", "note", "12"))
		}
		d = append(d, nd)
		if nd.K == "e" {
			open = append(open, len(d))
		}
	}
	return plain(d)
}

func prevSibling(d []snode, p int) string {
	for i := len(d) - 1; i > 0; i-- {
		if d[i].P == p {
			return d[i].K
		}
	}
	return ""
}

func genComp(r *rand.Rand) scomp {
	var c scomp
	if r.Intn(3) != 0 {
		c.Tag = stags[r.Intn(len(stags))]
	}
	if r.Intn(3) == 0 {
		c.Cls = sclss[r.Intn(len(sclss))]
	}
	if r.Intn(6) == 0 {
		c.Attr = skeys[r.Intn(len(skeys))]
	}
	if c == (scomp{}) {
		c.Tag = stags[r.Intn(len(stags))]
	}
	return c
}

func genSel(r *rand.Rand) ssel {
	var s ssel
	for n := 1 + r.Intn(8)/7; n > 0; n-- {
		alt := []scomp{genComp(r)}
		for r.Intn(4) == 0 && len(alt) < 3 {
			c := genComp(r)
			c.Comb = pickS(r, " ", " ", ">", ">", "+", "~")
			alt = append(alt, c)
		}
		s = append(s, alt)
	}
	return s
}

func genShape(r *rand.Rand, depth int) sshape {
	t := sshape{K: "st"}
	for n := 1 + r.Intn(3); n > 0; n-- {
		f := sfield{S: genSel(r)}
		if r.Intn(4) == 0 {
			f.A = pickS(r, "key", "href")
		}
		f.T = genFieldShape(r, depth)
		if r.Intn(150) == 0 {
			f.S = ssel{}
		}
		t.F = append(t.F, f)
	}
	if r.Intn(150) == 0 {
		t.F = []sfield{}
	}
	return t
}

func genFieldShape(r *rand.Rand, depth int) sshape {
	k := r.Intn(12)
	switch {
	case depth > 0 && k < 3:
		return genShape(r, depth-1)
	case depth > 0 && k < 6:
		el := genFieldShape(r, depth-1)
		if el.K == "sl" && r.Intn(20) != 0 {
			el = sshape{K: "s", F: []sfield{}}
		}
		return sshape{K: "sl", El: &el, F: []sfield{}}
	case r.Intn(120) == 0:
		return sshape{K: "no", F: []sfield{}}
	}
	return sshape{K: pickS(r, "s", "s", "i", "u", "f", "b"), F: []sfield{}}
}

func scanRandom(x *X) {
	r := x.Rng
	W.Log("begin", tr.M{"run": x.Run})
	for i := 0; i < 12; i++ {
		d := genDoc(r, 14)
		text := render(r, d)
		if !fits(text, d) {
			continue
		}
		p := pageOf(text)
		if !locate(p, d) {
			W.Log("doc", tr.M{"p": "C25"})
			continue
		}
		for j := 0; j < 3; j++ {
			var t sshape
			switch r.Intn(14) {
			case 0:
				t = sshape{K: pickS(r, "s", "i", "u", "f", "b"), F: []sfield{}}
			case 1:
				t = genFieldShape(r, 1)
			default:
				t = genShape(r, 2)
			}
			n := 1
			if r.Intn(3) == 0 || t.K != "st" {
				if n = 1 + r.Intn(len(d)); d[n-1].K != "e" {
					n = 1
				}
			}
			var before *ant.Page
			if r.Intn(3) == 0 {
				before = pageOf(render(r, genDoc(r, 14)))
			}
			scanOne(p, d, n, t, t.typ(r), before)
		}
	}
	W.Log("end", nil)
}

// Types of the same name.
func namedTypes() []struct {
	typ reflect.Type
	t   sshape
} {
	sh := func(k string, tag string) sshape {
		return sshape{K: "st", F: []sfield{{S: ssel{{{Tag: tag}}}, T: sshape{K: k, F: []sfield{}}}}}
	}
	type r = struct {
		typ reflect.Type
		t   sshape
	}
	one := func() r {
		type Item struct {
			F0 string `css:"aa"`
		}
		return r{reflect.TypeOf(Item{}), sh("s", "aa")}
	}
	two := func() r {
		type Item struct {
			F0 string `css:"bb"`
		}
		return r{reflect.TypeOf(Item{}), sh("s", "bb")}
	}
	three := func() r {
		type Item struct {
			F0 int `css:"cc"`
		}
		return r{reflect.TypeOf(Item{}), sh("i", "cc")}
	}
	return []r{one(), two(), three()}
}

// scanConc scans several pages, also the same one, from several goroutines.
func scanConc(x *X) {
	r := x.Rng
	W.Log("begin", tr.M{"run": x.Run})
	named := namedTypes()
	type job struct {
		p   *ant.Page
		d   []snode
		n   int
		t   sshape
		typ reflect.Type
	}
	k := 2 + r.Intn(3)
	plans := make([][]job, k)
	var shared []job
	for g := range plans {
		for c := 1 + r.Intn(4); c > 0; c-- {
			d := genDoc(r, 10)
			j := job{d: d, p: pageOf(render(r, d)), n: 1}
			if !fits(render(r, d), d) {
				continue
			}
			if r.Intn(3) == 0 {
				nt := named[r.Intn(len(named))]
				j.t, j.typ = nt.t, nt.typ
			} else {
				j.t = genShape(r, 1)
				j.typ = j.t.typ(r)
			}
			if len(shared) > 0 && r.Intn(3) == 0 { // the same type, page or both
				s := shared[r.Intn(len(shared))]
				if r.Intn(2) == 0 {
					j.p, j.d = s.p, s.d
				}
				if r.Intn(2) == 0 {
					j.t, j.typ = s.t, s.typ
				}
			}
			shared = append(shared, j)
			plans[g] = append(plans[g], j)
		}
	}
	left := k
	work := func(p []job) {
		for _, j := range p {
			if x.S != nil {
				x.S.Park(true, "op")
			}
			scanOne(j.p, j.d, j.n, j.t, j.typ, nil)
		}
	}
	if x.S == nil {
		var wg sync.WaitGroup
		for _, p := range plans {
			wg.Add(1)
			go func() { defer wg.Done(); work(p) }()
		}
		wg.Wait()
		W.Log("end", nil)
		return
	}
	x.S.Start()
	for _, p := range plans {
		go func() { work(p); left-- }()
	}
	runAll(x, &left, func() { W.Log("stuck", nil) })
	W.Log("end", nil)
}

// runAll lets the goroutines run until left is 0.
func runAll(x *X, left *int, stuck func()) {
	x.S.Settle()
	for i := 0; i < 100000 && *left > 0; i++ {
		ps := x.S.Parked()
		if len(ps) == 0 {
			if !x.S.Idle(time.Hour) {
				break
			}
			continue
		}
		x.S.Release(x.S.Choose(ps))
	}
	x.S.Stop()
	if *left > 0 {
		stuck()
		W.End()
		abandon(8)
	}
}

// queryRun queries documents.
func queryRun(x *X) {
	r := x.Rng
	W.Log("begin", tr.M{"run": x.Run})
	for i := 0; i < 10; i++ {
		d := genDoc(r, 14)
		text := render(r, d)
		if !fits(text, d) {
			continue
		}
		p := pageOf(text)
		if !locate(p, d) {
			W.Log("doc", tr.M{"p": "C27"})
			continue
		}
		idx := map[*nethtml.Node]int{}
		for i := range d {
			idx[d[i].n] = i + 1
		}
		ids := func(l ant.List) []int {
			r := []int{}
			for _, n := range l {
				r = append(r, idx[n])
			}
			return r
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					W.Log("panic", tr.M{"p": "C27", "msg": fmt.Sprint(e)})
				}
			}()
			log := func(op string, l ant.List, m tr.M) {
				for k, v := range map[string]any{"op": op, "d": d, "l": ids(l), "s": []int{}, "r": []int{}, "v": []int{}, "a": "", "ok": false, "i": 0} {
					if _, ok := m[k]; !ok {
						m[k] = v
					}
				}
				W.Log("op", m)
			}
			s := genSel(r)
			css := s.css(r)
			root := ant.List{d[0].n}
			l := p.Query(css)
			log("query", root, tr.M{"s": s, "r": ids(l)})
			log("text", l, tr.M{"v": codes(p.Text(css))})
			for j := 0; j < 5; j++ {
				switch r.Intn(5) {
				case 0:
					s := genSel(r)
					n := l.Query(s.css(r))
					log("query", l, tr.M{"s": s, "r": ids(n)})
					if r.Intn(2) == 0 {
						l = n
					}
				case 1:
					i := r.Intn(8) - 4
					n := l.At(i)
					log("at", l, tr.M{"i": i, "r": ids(n)})
					if r.Intn(3) == 0 {
						l = n
					}
				case 2:
					s := genSel(r)
					log("is", l, tr.M{"s": s, "ok": l.Is(s.css(r))})
				case 3:
					log("text", l, tr.M{"v": codes(l.Text())})
				case 4:
					a := pickS(r, "key", "href", "none")
					v, ok := l.Attr(a)
					log("attr", l, tr.M{"a": a, "v": codes(v), "ok": ok})
				}
			}
			if h, err := p.HTML(); r.Intn(3) == 0 {
				d2 := make([]snode, len(d))
				copy(d2, d)
				log("html", root, tr.M{"ok": err == nil && locate(pageOf(h), d2) && same(d, d2)})
			}
		}()
	}
	W.Log("end", nil)
}

// same reports whether the two parsed documents say the same.
func same(a, b []snode) bool {
	for i := range a {
		x, y := a[i].n, b[i].n
		if x.Type != y.Type || x.Data != y.Data || len(x.Attr) != len(y.Attr) {
			return false
		}
		for j := range x.Attr {
			if x.Attr[j] != y.Attr[j] {
				return false
			}
		}
	}
	return true
}
