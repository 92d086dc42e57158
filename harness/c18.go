package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID: "C18",
		Rule: "seeded trees of elements and attributes that draw prefixes and URIs from small alphabets (with hostile URIs), written in every API style; every attribute call is predicted accepted or refused by a model of the bindings of its element; the parsed output is resolved by an independent namespace resolver, declarations are counted per start tag, and the document is compared with the one written without the refused calls; " +
			"all pairs of bindings on one element are enumerated; non-trivial: at least one URI; distinct by program",
		Suites: []Suite{
			{Name: "enumerated", Quick: 13122, Thor: 13122, Run: c18enum},
			{Name: "trees", Quick: 200000, Thor: 2000000, Run: c18trees},
			{Name: "nested", Quick: 100000, Thor: 1000000, Run: c18nested},
			{Name: "many", Quick: 600, Thor: 6000, Run: c18big},
		},
		Assume: []string{"no xmlns attributes are written by hand, and the prefixes xml and xmlns are not used"},
	})
}

// nsElem is an element of the model, with its accepted attributes.
type nsElem struct {
	A     // Value unused
	attrs []A
	bound map[string]string // what is declared on it
	kids  []*nsElem
	local int
}

func newNSElem(a A) *nsElem {
	e := &nsElem{A: a, bound: map[string]string{}}
	if a.URI != "" {
		e.bound[a.Prefix] = a.URI
	}
	return e
}

// attr says whether the attribute must be accepted, and binds its prefix.
func (e *nsElem) attr(a A) bool {
	if a.Name == "" || !isName(a.full()) {
		return false
	}
	if a.URI == "" {
		e.attrs = append(e.attrs, a)
		return true
	}
	if a.Prefix == "" {
		return false
	}
	if u, ok := e.bound[a.Prefix]; ok && u != a.URI {
		return false
	}
	e.bound[a.Prefix] = a.URI
	e.attrs = append(e.attrs, a)
	return true
}

func splitName(s string) (string, string) {
	if k := strings.IndexByte(s, ':'); k >= 0 {
		return s[:k], s[k+1:]
	}
	return "", s
}

// c18judge resolves the output and compares it with the model.
func c18judge(c *Ctx, out string, roots []*nsElem) {
	toks, err := parseFragment(out)
	if err != nil {
		c.Fail("the output is not well-formed: %v\n%s", err, clip(out))
	}
	type scope map[string]string
	stack := []scope{{}}
	type level struct {
		kids []*nsElem
		pos  int
	}
	lv := []*level{{kids: roots}}
	for _, t := range toks {
		switch t.Kind {
		case tkStart:
			l := lv[len(lv)-1]
			if l.pos >= len(l.kids) {
				c.Fail("an element too many: %s", t)
			}
			e := l.kids[l.pos]
			l.pos++
			lv = append(lv, &level{kids: e.kids})
			sc := scope{}
			for k, v := range stack[len(stack)-1] {
				sc[k] = v
			}
			decl := map[string]bool{}
			var attrs []KV
			for _, a := range t.Attrs {
				p, n := splitName(a.K)
				switch {
				case a.K == "xmlns":
					p, n = "", ""
				case p == "xmlns":
					p = n
				default:
					attrs = append(attrs, a)
					continue
				}
				if decl[p] {
					c.Fail("prefix %q is declared twice on %s", p, t)
				}
				decl[p] = true
				sc[p] = a.V
				c.Event("declarations observed", 1)
			}
			for p, u := range e.bound {
				// whether declared here or in scope already
				if sc[p] != sanitize(u) {
					c.Fail("prefix %q should be bound to %q on %s", p, u, t)
				}
			}
			for p := range decl {
				if _, ok := e.bound[p]; !ok {
					c.Fail("prefix %q is declared on %s, though no node with it gave a URI", p, t)
				}
			}
			stack = append(stack, sc)
			if t.Name != e.full() {
				c.Fail("element %q where %q was written", t.Name, e.full())
			}
			if e.URI != "" && sc[e.Prefix] != sanitize(e.URI) {
				c.Fail("element %s resolves to %q, it was given %q", t.Name, sc[e.Prefix], e.URI)
			}
			if len(attrs) != len(e.attrs) {
				c.Fail("%d attributes on %s, %d were accepted", len(attrs), t, len(e.attrs))
			}
			for k, a := range e.attrs {
				if attrs[k].K != a.full() {
					c.Fail("attribute %q where %q was written", attrs[k].K, a.full())
				}
				if a.URI != "" && sc[a.Prefix] != sanitize(a.URI) {
					c.Fail("attribute %s of %s resolves to %q, it was given %q", a.full(), t, sc[a.Prefix], a.URI)
				}
				c.Event("names resolved", 1)
			}
		case tkEnd:
			l := lv[len(lv)-1]
			if l.pos != len(l.kids) {
				c.Fail("%d children where %d were written", l.pos, len(l.kids))
			}
			lv = lv[:len(lv)-1]
			stack = stack[:len(stack)-1]
		}
	}
	if l := lv[0]; l.pos != len(l.kids) {
		c.Fail("%d top-level elements where %d were written", l.pos, len(l.kids))
	}
}

// some differ in case or length only
var c18prefixes = []string{"", "", "p", "p", "p", "q", "q", "q", "r", "r", "P", "pq", "é", "É"}

func (r *RNG) nsURI() string {
	switch r.N(8) {
	case 0, 1, 2:
		return "urn:1"
	case 3, 4:
		return "urn:2"
	case 5:
		return r.Pick("URN:1", "urn:", "urn:1/", "a&b", "<u>", "\"", "'", "é", " ", "u\n", "\x00", "日本")
	}
	return ""
}

type c18run struct {
	c    *Ctx
	r    *RNG
	all  []Op
	kept []Op
	good []bool
	uniq int
}

func (x *c18run) op(o Op, ok bool) {
	x.all = append(x.all, o)
	x.good = append(x.good, ok)
	if ok {
		x.kept = append(x.kept, o)
	}
}

func (x *c18run) newAttr() A {
	x.uniq++
	a := A{Name: fmt.Sprintf("a%d", x.uniq), URI: x.r.nsURI(), Prefix: pick(x.r, c18prefixes), Value: x.r.Pick("", "v", "p", "urn:1")}
	switch x.r.N(30) {
	case 0:
		a.Name = ""
	case 1:
		a.Name = "1 "
	case 2:
		a.Prefix = "-"
	}
	return a
}

func (x *c18run) elem(depth int) *nsElem {
	r := x.r
	ea := A{Prefix: pick(r, c18prefixes), Name: r.Pick("e", "f"), URI: r.nsURI()}
	e := newNSElem(ea)
	n := &N{K: "elem", Name: ea.Name, Prefix: ea.Prefix, URI: ea.URI, Full: r.P(20)}
	for k := r.N(3); k > 0; k-- {
		// given with the element: only ones that are accepted
		a := x.newAttr()
		probe := newNSElem(ea)
		for _, b := range n.Attrs {
			probe.attr(b)
		}
		if probe.attr(a) {
			n.Attrs = append(n.Attrs, a)
			e.attr(a)
		}
	}
	x.op(Op{M: r.Pick("Start", "StartElem"), N: n1(n)}, true)
	for k := r.N(4); k > 0; k-- {
		a := x.newAttr()
		o := Op{M: r.Pick("WriteAttr", "Write"), N: n1(&N{K: "attr", Prefix: a.Prefix, URI: a.URI, Name: a.Name, Data: a.Value})}
		x.op(o, e.attr(a))
	}
	opened := false
	open := func() {
		if !opened && r.P(15) {
			// too late for more
			a := x.newAttr()
			x.op(Op{M: "WriteAttr", N: n1(&N{K: "attr", Prefix: a.Prefix, URI: a.URI, Name: a.Name, Data: a.Value})}, false)
		}
		opened = true
	}
	for k := r.N(4); k > 0 && depth < 5; k-- {
		switch r.N(5) {
		case 0:
			x.op(Op{M: "WriteText", D: "t"}, true)
			open()
		case 1:
			x.op(Op{M: "WriteComment", N: n1(&N{K: "comment", Data: "c"})}, true)
			open()
		default:
			e.kids = append(e.kids, x.elem(depth+1))
			open()
		}
	}
	x.op(Op{M: r.Pick("EndElem", "EndElemFull", "EndAny")}, true)
	return e
}

func c18trees(c *Ctx, i int) {
	x := &c18run{c: c, r: c.R}
	var roots []*nsElem
	for k := c.R.Range(1, 2); k > 0; k-- {
		roots = append(roots, x.elem(0))
	}
	c18do(c, x, roots, Cfg{NoStrict: c.R.P(20), Buf: c.R.PickInt(0, 0, 1, 16)})
	if i%10007 == 3 {
		c.Sample("%s", clip(opsString(x.all)))
	}
}

func c18do(c *Ctx, x *c18run, roots []*nsElem, cfg Cfg) {
	c.Describe(func() string { return opsString(x.all) })
	s := &capSink{}
	w := c.vary(cfg).open(s)
	refused := 0
	uri := false
	for k, o := range x.all {
		err := call(w, o)
		if (err == nil) != x.good[k] {
			c.Fail("call %d (%s): accepted %v, should be %v: %v", k, o.String(), err == nil, x.good[k], err)
		}
		if err != nil {
			refused++
		}
		for _, n := range o.N {
			uri = uri || n.URI != ""
		}
	}
	w.Flush()
	c18judge(c, s.String(), roots)
	if refused > 0 {
		out, err, at := runOps(x.kept, cfg)
		if err != nil {
			c.Fail("without the refused calls, call %d fails: %v", at, err)
		}
		if out != s.String() {
			c.Fail("refused calls change the output: %s", diffAt(out, s.String()))
		}
	}
	c.Event("refused attributes", refused)
	if uri {
		c.Distinct(opsString(x.all))
	}
}

// c18enum: an element and two attributes with every pair of prefix and URI.
func c18enum(c *Ctx, i int) {
	pre := []string{"", "p", "q"}
	uri := []string{"", "urn:1", "urn:2"}
	mk := func(k int, name string) A { return A{Prefix: pre[k%3], URI: uri[k/3%3], Name: name, Value: name} }
	k := i
	ea := mk(k, "e")
	k /= 9
	a := mk(k, "a")
	k /= 9
	b := mk(k, "b")
	k /= 9
	d := mk(k%9, "d")
	k /= 9
	x := &c18run{c: c, r: c.R}
	e := newNSElem(ea)
	n := &N{K: "elem", Name: ea.Name, Prefix: ea.Prefix, URI: ea.URI}
	if k%2 == 1 {
		probe := newNSElem(ea)
		if probe.attr(a) {
			n.Attrs = []A{a}
			e.attr(a)
		}
	}
	x.op(Op{M: "StartElem", N: n1(n)}, true)
	for _, t := range []A{a, b, d} {
		if t == a && len(n.Attrs) > 0 {
			continue
		}
		x.op(Op{M: "WriteAttr", N: n1(&N{K: "attr", Prefix: t.Prefix, URI: t.URI, Name: t.Name, Data: t.Value})}, e.attr(t))
	}
	child := newNSElem(A{Prefix: ea.Prefix, Name: "k"})
	e.kids = append(e.kids, child)
	x.op(Op{M: "StartElem", N: n1(&N{K: "elem", Prefix: ea.Prefix, Name: "k"})}, true)
	x.op(Op{M: "WriteAttr", N: n1(&N{K: "attr", Prefix: "p", URI: "urn:2", Name: "z"})}, child.attr(A{Prefix: "p", URI: "urn:2", Name: "z"}))
	x.op(Op{M: "EndElem"}, true)
	x.op(Op{M: "EndElem"}, true)
	c18do(c, x, []*nsElem{e}, Cfg{})
	c.Enumerated(1)
}

// c18nested: whole trees given in one value, and in every other style.
func c18nested(c *Ctx, i int) {
	r := c.R
	x := &c18run{c: c, r: r}
	var mk func(depth int) (*nsElem, *N)
	mk = func(depth int) (*nsElem, *N) {
		ea := A{Prefix: pick(r, c18prefixes), Name: r.Pick("e", "f"), URI: r.nsURI()}
		e := newNSElem(ea)
		n := &N{K: "elem", Name: ea.Name, Prefix: ea.Prefix, URI: ea.URI, Full: r.P(20)}
		for k := r.N(4); k > 0; k-- {
			a := x.newAttr()
			probe := newNSElem(ea)
			for _, b := range n.Attrs {
				probe.attr(b)
			}
			if probe.attr(a) {
				n.Attrs = append(n.Attrs, a)
				e.attr(a)
			}
		}
		if depth < 5 {
			for k := r.N(4); k > 0; k-- {
				if r.P(20) {
					n.Kids = append(n.Kids, &N{K: "text", Data: "t"})
					continue
				}
				ke, kn := mk(depth + 1)
				e.kids = append(e.kids, ke)
				n.Kids = append(n.Kids, kn)
			}
		}
		return e, n
	}
	e, n := mk(0)
	ops := compile(r, []*N{n}, true)
	c.Describe(func() string { return opsString(ops) })
	var cfg Cfg
	if r.P(40) {
		s := " "
		cfg.Indent = &s
	}
	out, err, at := runOps(ops, cfg)
	if err != nil {
		c.Fail("call %d fails: %v", at, err)
	}
	c18judge(c, out, []*nsElem{e})
	c.Distinct(dump(n))
}
