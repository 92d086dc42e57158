package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C30",
		Rule: "values: a seeded tree with a harmless token for every string is compiled to a program in random API styles and run with Enforce off, plain or indented; the same calls with hostile strings (markup, illegal characters, bad names, reserved targets, invalid UTF-8) in place of the tokens must all succeed, and the bytes must be those of the first run with each token replaced by its string, escaped where text and attribute values are escaped; " +
			"places: nodes of every kind are nested in every kind with Enforce off: every call must succeed and the bytes must be the concatenation of what each node gives on its own; " +
			"switch: Enforce is turned off and on again between calls: only calls made while it is on are refused; contradictions: what no enforcement switch lets through (two URIs for a prefix, values of #REQUIRED, NDATA of parameter entities, ends that do not match) is refused; non-trivial when a call is one that enforcement refuses; distinct by program",
		Suites: []Suite{
			{Name: "values", Quick: 25000, Thor: 1000000, Run: c30values},
			{Name: "places", Quick: 40000, Thor: 800000, Run: c30places},
			{Name: "switch", Quick: 40000, Thor: 500000, Run: c30switch},
			{Name: "contradictions", Quick: 60000, Thor: 400000, Run: c30contra},
		},
	})
}

var c30tok = regexp.MustCompile(`Q[NPUTAVS]\d+z`)

type c30names struct {
	n    int
	seen map[string]string
}

func (t *c30names) new(class string) string { t.n++; return "Q" + class + strconv.Itoa(t.n) + "z" }

// same gives equal strings equal tokens.
func (t *c30names) same(class, s string) string {
	if s == "" {
		return ""
	}
	k := class + s
	if t.seen[k] == "" {
		t.seen[k] = t.new(class)
	}
	return t.seen[k]
}

func (t *c30names) any(class, s string) string {
	if s == "" {
		return ""
	}
	return t.new(class)
}

// tokenize replaces every string of the tree.
func (t *c30names) tokenize(n *N) *N {
	m := *n
	m.Name = t.same("N", n.Name)
	m.Prefix = t.same("P", n.Prefix)
	m.URI = t.same("U", n.URI)
	m.NData = t.any("N", n.NData)
	m.Pub = t.any("V", n.Pub)
	m.Sys = t.any("S", n.Sys)
	m.Type = t.any("V", n.Type)
	if n.FEnc != nil {
		s := t.any("A", *n.FEnc)
		m.FEnc = &s
	}
	if n.FVer != nil {
		s := t.any("A", *n.FVer)
		m.FVer = &s
	}
	switch n.K {
	case "text":
		m.Data = t.any("T", n.Data)
	case "attr", "dtdattr":
		m.Data = t.any("A", n.Data)
	case "entity":
		m.Data = t.any("S", n.Data)
		if n.Data == "" && n.Sys == "" && n.Pub == "" {
			m.Data = t.new("S")
		}
	default:
		m.Data = t.any("V", n.Data)
	}
	m.Pieces = nil
	for _, p := range n.Pieces {
		m.Pieces = append(m.Pieces, t.any("V", p))
	}
	m.Attrs = nil
	for _, a := range n.Attrs {
		b := A{Prefix: t.same("P", a.Prefix), URI: t.same("U", a.URI), Name: t.same("N", a.Name), Value: t.any("A", a.Value)}
		m.Attrs = append(m.Attrs, b)
	}
	m.Kids = nil
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, t.tokenize(k))
	}
	return &m
}

// subst maps every string of a program.
func subst(ops []Op, f func(string) string) []Op {
	memo := map[*N]*N{}
	var node func(n *N) *N
	node = func(n *N) *N {
		if n == nil {
			return nil
		}
		if m := memo[n]; m != nil {
			return m
		}
		m := *n
		memo[n] = &m
		for _, p := range []*string{&m.Name, &m.Prefix, &m.URI, &m.Data, &m.Pub, &m.Sys, &m.NData, &m.Type} {
			*p = f(*p)
		}
		if m.FEnc != nil {
			s := f(*m.FEnc)
			m.FEnc = &s
		}
		if m.FVer != nil {
			s := f(*m.FVer)
			m.FVer = &s
		}
		m.Pieces, m.Attrs, m.Kids = nil, nil, nil
		for _, p := range n.Pieces {
			m.Pieces = append(m.Pieces, f(p))
		}
		for _, a := range n.Attrs {
			m.Attrs = append(m.Attrs, A{f(a.Prefix), f(a.URI), f(a.Name), f(a.Value)})
		}
		for _, k := range n.Kids {
			m.Kids = append(m.Kids, node(k))
		}
		return &m
	}
	var out []Op
	for _, o := range ops {
		p := o
		p.N, p.S = nil, nil
		for _, n := range o.N {
			p.N = append(p.N, node(n))
		}
		for _, s := range o.S {
			p.S = append(p.S, f(s))
		}
		if o.M != "EndToDepth" {
			p.D = f(o.D)
		}
		out = append(out, p)
	}
	return out
}

// escapes of the real writer, which C02 is about
func realEsc(attr bool, s string) string {
	b := &capSink{}
	w := xw.Open(b)
	if attr {
		if err := w.WriteAttr(xw.Attr{Name: "a", Value: s}); err != nil {
			panic(&failure{msg: "a value was refused: " + err.Error()})
		}
		w.Flush()
		return strings.TrimSuffix(strings.TrimPrefix(b.String(), ` a="`), `"`)
	}
	if err := w.WriteText(s); err != nil {
		panic(&failure{msg: "a text was refused: " + err.Error()})
	}
	w.Flush()
	return b.String()
}

func (r *RNG) hostile(class byte, id string) string {
	s := ""
	switch r.N(8) {
	case 0:
		s = r.Pick("--", "-", "]]>", "?>", "xml", "XmL", "<", ">", "&", "&#0;", "\"", "'", "a b", " ", "1", "-->", "<!--", "<![CDATA[", "\x00", "\xff", "\uFFFE", "\u0085", "\U0001F600", "\r\n", "\t", "%", "[", "]>", ":", "::", "xmlns", "\ud7ff", "\xed\xa0\x80", "=\"", "/>")
	case 1:
		s = strings.Repeat(r.Pick("-", "]", "?", ">", "\x01", "é", "\xc3"), r.Range(1, 40))
	case 2:
		s = strings.Repeat(r.Pick("-->", "]]>", "?>", "a\x00", "<&>"), r.Range(1, 3000))
	default:
		s = r.anyString()
	}
	if s == "" {
		s = "\x00"
	}
	switch class {
	case 'S':
		if strings.Contains(s, `"`) && strings.Contains(s, "'") {
			s = strings.ReplaceAll(s, r.Pick(`"`, "'"), "")
			if s == "" {
				s = `"`
			}
		}
	case 'P', 'U', 'N':
		// different tokens stay different
		if r.Bool() {
			s += id
		} else {
			s = id + s
		}
	}
	return s
}

func c30values(c *Ctx, i int) {
	g := newG(c.R)
	g.Colons = true
	if i%2 == 0 {
		g.Budget = g.R.Range(1, 10)
	}
	t := &c30names{seen: map[string]string{}}
	var tops []*N
	for _, n := range g.document() {
		tops = append(tops, t.tokenize(n))
	}
	prog := compile(c.R, tops, c.R.P(80))
	cfg := Cfg{NoEnforce: true, NoStrict: c.R.Bool()}
	if c.R.P(40) {
		ind := c.R.Pick(" ", "\t", "  ")
		cfg.Indent = &ind
	}
	if c.R.P(20) {
		cfg.Buf = c.R.Range(16, 200)
	}
	// which tokens become hostile
	all := c.R.P(50)
	val := map[string]string{}
	id := 0
	f := func(s string) string {
		return c30tok.ReplaceAllStringFunc(s, func(m string) string {
			if v, ok := val[m]; ok {
				return v
			}
			v := m
			if all || c.R.P(20) {
				id++
				v = c.R.hostile(m[1], "k"+strconv.Itoa(id)+"k")
			}
			val[m] = v
			return v
		})
	}
	bad := subst(prog, f)
	c.Describe(func() string { return fmt.Sprintf("config %s\nprogram:\n%s", dump(cfg), opsString(bad)) })
	cfg = c.vary(cfg)
	ref, err, at := runOps(prog, cfg)
	if err != nil {
		c.Fail("harmless call %d failed: %v", at, err)
	}
	got, err, at := runOps(bad, cfg)
	if err != nil {
		c.Fail("call %d (%s) failed with Enforce off: %v", at, clip(bad[at%len(bad)].String()), err)
	}
	// quoted literals choose their quote by their content
	want := regexp.MustCompile(`"QS\d+z"`).ReplaceAllStringFunc(ref, func(m string) string {
		v := val[m[1:len(m)-1]]
		q := `"`
		if strings.Contains(v, `"`) {
			q = "'"
		}
		return q + "\x00" + m[1:len(m)-1] + "\x00" + q
	})
	var out strings.Builder
	last := 0
	for _, p := range c30tok.FindAllStringIndex(want, -1) {
		m := want[p[0]:p[1]]
		v, ok := val[m]
		if !ok {
			c.Fail("the output has %q, which was not written", m)
		}
		lo, hi := p[0], p[1]
		switch m[1] {
		case 'T':
			v = realEsc(false, v)
		case 'A', 'U':
			v = realEsc(true, v)
		case 'S':
			if want[lo-1] != 0 || want[hi] != 0 {
				c.Fail("a literal is not quoted: %q", clip(want[lo-1:hi+1]))
			}
			lo, hi = lo-1, hi+1
		}
		out.WriteString(want[last:lo])
		out.WriteString(v)
		last = hi
	}
	out.WriteString(want[last:])
	if out.String() != got {
		c.Fail("other bytes than with harmless values: %s", diffAt(out.String(), got))
	}
	c.Eval(1)
	c.Event("strings substituted", len(val))
	// would enforcement have refused it?
	if _, err, _ := runOps(bad, Cfg{}); err != nil {
		c.Event("programs that enforcement refuses", 1)
		c.Distinct(opsString(bad))
	}
	if i%7001 == 1 {
		c.Sample("%s", clip(got))
	}
}

// --- places ---

// c30shape is what a node gives on its own: start is written at once, next before the first child,
// close with children and empty without any.
type c30shape struct{ start, next, closing, empty string }

func c30measure(c *Ctx, n *N) c30shape {
	run := func(child bool) (string, string) {
		b := &capSink{}
		w := xw.Open(b, func(w *xw.Writer) { w.Enforce = false })
		var errs []error
		do := func(err error) { errs = append(errs, err) }
		do(w.Start(n.startable()))
		do(w.Flush())
		st := b.String()
		if child {
			do(w.Next())
			do(w.WriteRaw("Q0z"))
		}
		do(w.EndAny())
		do(w.Flush())
		for k, e := range errs {
			if e != nil {
				c.Fail("with Enforce off, call %d (%s on its own) failed: %v", k, n.K, e)
			}
		}
		return st, b.String()
	}
	st, all := run(true)
	_, empty := run(false)
	pre, post, ok := strings.Cut(all, "Q0z")
	if !ok || !strings.HasPrefix(pre, st) || !strings.HasPrefix(empty, st) {
		c.Fail("%s gives %q, %q and %q", n.K, st, all, empty)
	}
	return c30shape{st, pre[len(st):], post, empty[len(st):]}
}

func c30node(r *RNG, k string) *N { return c30any(r, k, 0) }

// c30wild has values which enforcement refuses, too.
func c30wild(r *RNG, k string) *N { return c30any(r, k, 12) }

func c30any(r *RNG, k string, wild int) *N {
	s := func() string {
		if r.P(wild) {
			return r.Pick("--", "-", "]]>", "?>", "1", "a b", "xml", "\x01", "\xff", "\"", "'", "<&>", "\u0085", "é", "")
		}
		return r.Pick("a", "b", "c-d", "e")
	}
	n := &N{K: k}
	switch k {
	case "doc":
		n.NoEnc = r.Bool()
		if r.P(40) {
			v := s()
			n.FEnc = &v
		}
		if r.P(20) {
			v := s()
			n.FVer = &v
		}
		n.Standalone = r.N(3)
	case "dtd":
		n.Name = s()
		if r.Bool() {
			n.Sys = s()
			if r.Bool() {
				n.Pub = s()
			}
		}
	case "attlist", "elem":
		n.Name = s()
		if k == "elem" {
			n.Full = r.P(20)
			if r.P(20) {
				n.Prefix = s()
				if r.Bool() && n.Prefix != "" {
					n.URI = s()
				}
			}
			for x := r.N(3); x > 0 && r.P(30); x-- {
				n.Attrs = append(n.Attrs, A{Name: s(), Value: s()})
			}
		}
	case "dtdelem", "pi":
		n.Name, n.Data = s(), s()
	case "dtdattr":
		n.Name, n.Type, n.Data = s(), r.Pick("CDATA", "(a|b)", s()), s()
		switch n.Default = r.PickInt(0, 0, int(xw.DTDAttrDefault), int(xw.DTDAttrFixed), int(xw.DTDAttrRequired), int(xw.DTDAttrImplied)); n.Default {
		case int(xw.DTDAttrRequired), int(xw.DTDAttrImplied):
			n.Data = ""
		}
	case "entity":
		n.Name, n.Data, n.PE = s(), s(), r.P(30)
		if r.P(40) {
			n.Data, n.Sys, n.Pub = "", "s"+s(), s()
			if !n.PE && r.P(30) {
				n.NData = "n" + s()
			}
		}
	case "notation":
		n.Name, n.Sys = s(), s()
		if r.P(40) {
			n.Pub = s()
		}
	case "attr":
		n.Name, n.Data = s(), s()
		if r.P(20) {
			n.Prefix = s()
		}
	case "text", "raw", "ccontent", "dcontent", "comment", "cdata":
		n.Data = s()
	}
	return n
}

func c30places(c *Ctx, i int) {
	type fr struct {
		sh   c30shape
		kids bool
		kind string
	}
	var stack []*fr
	var want strings.Builder
	var ops []Op
	touch := func() {
		if len(stack) > 0 {
			if t := stack[len(stack)-1]; !t.kids {
				t.kids = true
				want.WriteString(t.sh.next)
			}
		}
	}
	end := func() {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if t.kids {
			want.WriteString(t.sh.closing)
		} else {
			want.WriteString(t.sh.empty)
		}
		ops = append(ops, Op{M: "EndAny"})
	}
	steps := c.R.Range(2, 25)
	for k := 0; k < steps; k++ {
		switch x := c.R.N(10); {
		case x < 4:
			n := c30wild(c.R, startKinds[c.R.N(len(startKinds))])
			if n.K == "comment" || n.K == "cdata" {
				n.Data = ""
			}
			touch()
			sh := c30measure(c, n)
			want.WriteString(sh.start)
			stack = append(stack, &fr{sh: sh, kind: n.K})
			if c.R.Bool() {
				ops = append(ops, Op{M: "Start", N: []*N{n}})
			} else {
				ops = append(ops, Op{M: startMethod[n.K], N: []*N{n}})
			}
		case x < 8:
			k := allKinds[c.R.N(len(allKinds))]
			if !isWritable(k) {
				continue
			}
			n := c30wild(c.R, k)
			out, err, _ := runOps([]Op{{M: "Write", N: []*N{n}}}, Cfg{NoEnforce: true})
			if err != nil {
				c.Fail("with Enforce off, %s on its own failed: %v", k, err)
			}
			if k != "attr" && k != "raw" {
				touch()
			}
			want.WriteString(out)
			ops = append(ops, writeOps(c.R, n))
		case x < 9 && len(stack) > 0:
			end()
		}
	}
	for len(stack) > 0 {
		end()
	}
	c.Describe(func() string { return opsString(ops) })
	cfg := c.vary(Cfg{NoEnforce: true})
	cfg.Version, cfg.Newline, cfg.Enc = "", nil, ""
	got, err, at := runOps(ops, cfg)
	if err != nil {
		c.Fail("call %d (%s) failed with Enforce off: %v", at, clip(ops[at%len(ops)].String()), err)
	}
	if got != want.String() {
		c.Fail("not the concatenation of the nodes: %s", diffAt(want.String(), got))
	}
	c.Eval(1)
	c.Event("nodes placed", len(ops))
	if _, err, _ := runOps(ops, Cfg{}); err != nil {
		c.Event("programs that enforcement refuses", 1)
		c.Distinct(opsString(ops))
	}
}

// c30switch: Enforce is a field; what counts is its value at the time of the call.
func c30switch(c *Ctx, i int) {
	b := &capSink{}
	w := xw.Open(b)
	type fr struct {
		kind   string
		opened bool
	}
	var stack []*fr
	var log []string
	c.Describe(func() string { return strings.Join(log, "\n") })
	refused := 0
	for k := c.R.Range(2, 30); k > 0; k-- {
		on := c.R.Bool()
		w.Enforce = on
		parent, opened := "", false
		if len(stack) > 0 {
			t := stack[len(stack)-1]
			parent, opened = t.kind, t.opened
		}
		kind := allKinds[c.R.N(len(allKinds))]
		if kind == "doc" && parent == "" {
			continue
		}
		n := c30node(c.R, kind)
		start := isStartable(kind) && (!isWritable(kind) || c.R.Bool())
		var err error
		bad := false
		legal := mayWrite(kind, parent, opened)
		if start {
			if kind == "comment" || kind == "cdata" {
				n.Data = ""
			}
			err = call(w, Op{M: "Start", N: []*N{n}})
		} else {
			// content that enforcement refuses
			switch kind {
			case "ccontent", "comment":
				if bad = c.R.P(30); bad {
					n.Data = c.R.Pick("a--b", "x-->")
				}
			case "dcontent", "cdata":
				if bad = c.R.P(30); bad {
					n.Data = c.R.Pick("]]>", "a\x00")
				}
			case "pi":
				if bad = c.R.P(30); bad {
					n.Name = c.R.Pick("xml", "1", "a b")
				}
			case "elem", "attr", "dtdelem", "entity", "notation", "dtdattr", "attlist":
				if bad = c.R.P(30); bad {
					n.Prefix, n.Name = "", c.R.Pick("1", "a b", "<", "-")
				}
			}
			if kind != "raw" || c.R.Bool() {
				err = call(w, writeOps(c.R, n))
			} else {
				err = call(w, Op{M: "WriteRaw", D: n.Data})
			}
		}
		log = append(log, fmt.Sprintf("enforce=%v start=%v %s under %q opened=%v bad=%v: %v", on, start, dump(n), parent, opened, bad, err))
		want := on && (!legal || bad)
		if (err != nil) != want {
			c.Fail("the call's error is %v, with Enforce %v, placement legal %v, content bad %v", err, on, legal, bad)
		}
		c.Event("calls", 1)
		if want {
			refused++
			if legal {
				// a refused content may leave something behind (see C03)
				break
			}
			continue
		}
		if len(stack) > 0 && kind != "attr" && kind != "raw" {
			stack[len(stack)-1].opened = true
		}
		if start {
			stack = append(stack, &fr{kind: kind})
		}
		if len(stack) > 0 && c.R.P(25) {
			stack = stack[:len(stack)-1]
			if err := w.EndAny(); err != nil {
				c.Fail("EndAny: %v", err)
			}
			log = append(log, "EndAny")
		}
	}
	c.Eval(1)
	c.Event("calls refused", refused)
	if refused > 0 {
		c.Distinct(strings.Join(log, "\n"))
	}
}

// c30contra: what cannot be written is refused without enforcement as well.
func c30contra(c *Ctx, i int) {
	r := c.R
	w := newWalker(r)
	for k := r.N(8); k > 0; k-- {
		w.step()
	}
	var ops []Op
	what := ""
	switch r.N(5) {
	case 0, 1:
		// two URIs for one prefix, in the element or after it
		what = "two URIs for a prefix"
		var l []A
		for k := r.N(4); k > 0; k-- {
			l = append(l, A{Prefix: fmt.Sprintf("o%d", k), URI: "urn:o", Name: "n", Value: "v"})
		}
		e := &N{K: "elem", Name: "e"}
		if r.Bool() {
			e.Prefix, e.URI = "zz", "urn:1"
		} else {
			l = append(l, A{Prefix: "zz", URI: "urn:1", Name: "a", Value: "v"})
		}
		for k := r.N(3); k > 0; k-- {
			l = append(l, A{Prefix: "zz", URI: "urn:1", Name: fmt.Sprintf("b%d", k), Value: "v"})
		}
		l = append(l, A{Prefix: "zz", URI: r.Pick("urn:2", "urn:11", "URN:1", "urn:"), Name: "c", Value: "v"})
		k := r.N(len(l) + 1)
		e.Attrs = l[:k]
		if k == len(l) {
			ops = append(ops, pick(r, waysOf(e)))
			break
		}
		ops = append(ops, Op{M: r.Pick("Start", "StartElem"), N: n1(e)})
		o := Op{M: r.Pick("WriteAttr", "Write")}
		for _, a := range l[k:] {
			o.N = append(o.N, &N{K: "attr", Prefix: a.Prefix, URI: a.URI, Name: a.Name, Data: a.Value})
		}
		ops = append(ops, o)
	case 2:
		what = "a value with #REQUIRED or #IMPLIED"
		a := &N{K: "dtdattr", Name: "a", Type: "CDATA", Default: r.PickInt(int(xw.DTDAttrRequired), int(xw.DTDAttrImplied)), Data: r.Pick("v", " ", "\x00")}
		if r.Bool() {
			ops = append(ops, pick(r, waysOf(a)))
		} else {
			l := &N{K: "attlist", Name: "l", Kids: []*N{{K: "dtdattr", Name: "z", Type: "ID"}, a, {K: "dtdattr", Name: "y", Type: "ID"}}}
			l.Kids = l.Kids[r.N(2):r.Range(2, 3)]
			o := pick(r, waysOf(l))
			ops = append(ops, o)
			if strings.HasPrefix(o.M, "Start") {
				ops = append(ops, Op{M: "EndAny"})
			}
		}
	case 3:
		what = "NDATA of a parameter entity"
		ops = append(ops, pick(r, waysOf(&N{K: "entity", Name: "e", PE: true, Sys: "s", Pub: r.Pick("", "p"), NData: "n"})))
	case 4:
		what = "an end that does not match"
		e := &N{K: r.Pick("elem", "dtd", "attlist", "comment", "cdata"), Name: "e"}
		ops = append(ops, Op{M: r.Pick("Start", startMethod[e.K]), N: n1(e)})
		k := pick(r, allKinds)
		for k == e.K {
			k = pick(r, allKinds)
		}
		o := Op{M: "End", I: int(kindOf[k])}
		if e.K == "elem" && r.Bool() {
			o = Op{M: r.Pick("EndElem", "EndElemFull"), S: []string{"f"}}
			if r.Bool() {
				o.S = []string{"p", "e"}
			}
		}
		ops = append(ops, o)
	}
	c.Describe(func() string { return opsString(w.ops) + what + ":\n" + opsString(ops) })
	x := c.vary(Cfg{NoEnforce: true, Buf: r.PickInt(0, 1, 9)}).open(&capSink{})
	base := x.Depth()
	for k, o := range w.ops {
		if err := runStep(x, o, base); err != nil {
			c.Fail("call %d (%s) was refused: %v", k, clip(o.String()), err)
		}
	}
	for k, o := range ops {
		err := runStep(x, o, base)
		if last := k == len(ops)-1; last != (err != nil) {
			c.Fail("%s: call %d (%s): refused %v, should be %v: %v", what, k, clip(o.String()), err != nil, last, err)
		}
	}
	c.Event("contradictions refused", 1)
	c.Distinct(opsString(w.ops), opsString(ops))
}
