package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID: "C11",
		Rule: "each seeded program (documents of every node kind, element-only documents, walks with refused calls) runs without and with the standard indenter, for various indent and newline strings; the indented output must be the plain one with whitespace added only between two pieces of markup, " +
			"and in documents of elements and text without mixed content each tag must be on the line and column the depth asks for; an element must be laid out the same after any sibling element; non-trivial when whitespace was added; distinct by program",
		Assume: []string{"indent and newline strings are white space; layout is judged for documents of elements and text only"},
		Suites: []Suite{
			{Name: "documents", Quick: 80000, Thor: 2000000, Run: c11docs},
			{Name: "layout", Quick: 100000, Thor: 2000000, Run: c11layout},
			{Name: "walks", Quick: 80000, Thor: 2000000, Run: c11walks},
			{Name: "repeat", Quick: 60000, Thor: 1000000, Run: c11repeat},
			{Name: "big", Quick: 540, Thor: 5400, Run: c11big},
			{Name: "big layout", Quick: 125, Thor: 1000, Run: c11biglayout},
		},
	})
}

// wsDiff explains how ind is not plain with whitespace added between markup.
func wsDiff(plain string, toks []Tok, ind string) (string, int) {
	p, added := 0, 0
	skip := func() {
		for p < len(ind) && isSpace(ind[p]) {
			p++
			added++
		}
	}
	offs := make([]int, len(toks)+1)
	offs[len(toks)] = len(plain)
	for k, t := range toks {
		offs[k] = t.Off
		if t.Kind == tkDoctypeE {
			// the token is reported after its bytes
			q := t.Off - 1
			for q > 0 && plain[q] != '>' {
				q--
			}
			for offs[k] = q; q > 0 && isSpace(plain[q-1]); q-- {
			}
			if q > 0 && plain[q-1] == ']' {
				offs[k] = q - 1
			}
		}
	}
	for k, t := range toks {
		seg := plain[offs[k]:offs[k+1]]
		if seg == "" {
			// the end of an empty-element tag
			continue
		}
		if k > 0 && t.Kind != tkText && toks[k-1].Kind != tkText {
			skip()
		}
		if t.Kind == tkAttList {
			var quote byte
			for i := 0; i < len(seg); i++ {
				ch := seg[i]
				if quote != 0 {
					if ch == quote {
						quote = 0
					}
				} else if ch == '"' || ch == '\'' {
					quote = ch
				} else if ch == ' ' || ch == '>' {
					for p < len(ind) && isSpace(ind[p]) && (ch == '>' || p+1 < len(ind) && isSpace(ind[p+1])) {
						p++
						added++
					}
					if ch == ' ' && p < len(ind) && isSpace(ind[p]) {
						p++
						continue
					}
				}
				if p >= len(ind) || ind[p] != ch {
					return fmt.Sprintf("in %q: %s", seg, around(ind, p)), added
				}
				p++
			}
			continue
		}
		if !strings.HasPrefix(ind[p:], seg) {
			return fmt.Sprintf("expected %q, found %s", clip(seg), around(ind, p)), added
		}
		p += len(seg)
	}
	if len(toks) > 0 && toks[len(toks)-1].Kind != tkText {
		skip()
	}
	if p != len(ind) {
		return "surplus output: " + around(ind, p), added
	}
	return "", added
}

func around(s string, p int) string {
	a, b := p-30, p+60
	if a < 0 {
		a = 0
	}
	if b > len(s) {
		b = len(s)
	}
	return fmt.Sprintf("%q at byte %d (after %q)", s[p:b], p, s[a:p])
}

func c11cfg(c *Ctx) Cfg {
	ind := c.R.Pick(" ", "\t", "  ", "    ", "", "\n", " \t")
	cfg := Cfg{Indent: &ind}
	if c.R.P(30) {
		nl := c.R.Pick("\r\n", "", "\n\n", " ")
		cfg.Newline = &nl
	}
	v := c.vary(cfg)
	v.Newline = cfg.Newline
	return v
}

func c11pair(c *Ctx, ops []Op, cfg Cfg, fragment bool) (string, []Tok, string) {
	c.Describe(func() string { return fmt.Sprintf("config %s\nprogram:\n%s", dump(cfg), opsString(ops)) })
	pc := cfg
	pc.Indent = nil
	plain, err, at := runOps(ops, pc)
	if err != nil {
		c.Fail("plain: call %d failed: %v", at, err)
	}
	ind, err, at := runOps(ops, cfg)
	if err != nil {
		c.Fail("indented: call %d failed: %v", at, err)
	}
	// the parser reports offsets after normalising line ends
	plain, ind = lineEnds(plain), lineEnds(ind)
	parse := parseXML
	if fragment {
		parse = parseFragment
	}
	toks, err := parse(plain)
	if err != nil {
		c.Fail("plain output: %v\n%q", err, clip(plain))
	}
	if d, n := wsDiff(plain, toks, ind); d != "" {
		c.Fail("the indented output is not the plain one with whitespace between markup: %s\nplain: %q\nindented: %q", d, clip(plain), clip(ind))
	} else {
		c.Event("whitespace bytes seen between markup", n)
		if n > 0 {
			c.Distinct(opsString(ops), dump(cfg))
		}
	}
	c.Event("tokens aligned", len(toks))
	return plain, toks, ind
}

func c11docs(c *Ctx, i int) {
	g := newG(c.R)
	g.Plain = c.R.P(30)
	tops := g.document()
	c11pair(c, compile(c.R, tops, c.R.P(80)), c11cfg(c), false)
}

func c11walks(c *Ctx, i int) {
	w := newWalker(c.R)
	for k := c.R.Range(3, 50); k > 0; k-- {
		if !c.R.P(35) {
			w.step()
			continue
		}
		w.end()
	}
	for len(w.stack) > 0 {
		w.pop(1)
		w.op(Op{M: "EndAny"}, false)
	}
	if len(w.tops) > 1 && w.tops[0].K == "doc" {
		// the end of a document ends its line: what follows is no longer XML
		return
	}
	// the refused calls are made too: nothing may come of them
	cfg := c11cfg(c)
	if cfg.Newline != nil {
		*cfg.Newline = c.R.Pick("\r\n", "", "\n")
	}
	c.Describe(func() string {
		return fmt.Sprintf("config %s\nprogram (EndToDepth counts open nodes):\n%s", dump(cfg), opsString(w.ops))
	})
	pc := cfg
	pc.Indent = nil
	a, _ := observe(w.ops, pc, false, nil)
	b, _ := observe(w.ops, cfg, false, nil)
	for k := range w.ops {
		if (a.errs[k] != "<nil>") != w.fail[k] || (b.errs[k] != "<nil>") != w.fail[k] {
			c.Fail("call %d: plain %s, indented %s", k, a.errs[k], b.errs[k])
		}
	}
	a.out, b.out = lineEnds(a.out), lineEnds(b.out)
	toks, err := parseFragment(a.out)
	if err != nil {
		c.Fail("plain output: %v\n%q", err, clip(a.out))
	}
	d, n := wsDiff(a.out, toks, b.out)
	if d != "" {
		c.Fail("the indented output is not the plain one with whitespace between markup: %s\nplain: %q\nindented: %q", d, clip(a.out), clip(b.out))
	}
	c.Event("tokens aligned", len(toks))
	if n > 0 {
		c.Distinct(opsString(w.ops), dump(cfg))
	}
}

// pure makes an element without mixed content.
func (g *G) pure(depth int) *N {
	g.Budget--
	n := &N{K: "elem", Name: g.name(), Full: g.R.P(15)}
	if g.R.P(15) {
		n.Prefix, n.URI = "p", "urn:p"
	}
	for k := g.R.N(3); g.R.P(40) && k > 0; k-- {
		n.Attrs = append(n.Attrs, A{Name: fmt.Sprintf("t%d", k), Value: g.R.Pick("v", "", "a\nb", "<")})
	}
	switch g.R.N(6) {
	case 0:
	case 1:
		n.Kids = append(n.Kids, &N{K: "text", Data: g.R.Pick("t", " ", "\n", "  text\n ", "<&>", "")})
		if g.R.P(20) {
			n.Kids = append(n.Kids, &N{K: "text", Data: "more"})
		}
	default:
		for k := g.R.Range(1, 5); k > 0 && (g.Budget > 0); k-- {
			n.Kids = append(n.Kids, g.pure(depth+1))
		}
	}
	return n
}

func c11layout(c *Ctx, i int) {
	g := newG(c.R)
	var root *N
	if c.R.P(10) {
		n := c.R.Range(5, 130)
		root = &N{K: "elem", Name: g.name()}
		cur := root
		for k := 1; k < n; k++ {
			e := &N{K: "elem", Name: g.name()}
			cur.Kids = append(cur.Kids, e)
			g.Budget = 2
			if c.R.P(20) {
				cur.Kids = append(cur.Kids, g.pure(k))
			}
			cur = e
		}
	} else {
		root = g.pure(0)
	}
	tops := []*N{root}
	if c.R.P(70) {
		tops = []*N{{K: "doc", Standalone: c.R.N(3), Kids: tops}}
	} else if c.R.P(40) {
		g.Budget = 10
		tops = append(tops, g.pure(0))
	}
	cfg := c11cfg(c)
	ind := c11judgeLayout(c, tops, cfg)
	if i%9001 == 3 {
		c.Sample("config %s: %q", dump(cfg), clip(ind))
	}
}

// c11judgeLayout: a document of elements and text without mixed content.
func c11judgeLayout(c *Ctx, tops []*N, cfg Cfg) string {
	_, _, ind := c11pair(c, compile(c.R, tops, c.R.P(80)), cfg, true)
	nl := "\n"
	if cfg.Newline != nil {
		nl = lineEnds(*cfg.Newline)
	}
	toks, err := parseFragment(ind)
	if err != nil {
		c.Fail("indented output: %v\n%q", err, clip(ind))
	}
	type lvl struct{ kids, text bool }
	var st []lvl
	tags := 0
	prevEnd := 0
	for _, t := range toks {
		line := nl + strings.Repeat(*cfg.Indent, len(st))
		switch t.Kind {
		case tkStart:
			if tags > 0 {
				// everything since the end of the tag before it
				if got := ind[prevEnd:t.Off]; got != line {
					c.Fail("the start tag of %s at byte %d, at depth %d, is preceded by %q instead of %q\n%q", t.Name, t.Off, len(st), got, line, clip(ind))
				}
			}
			tags++
			if len(st) > 0 {
				st[len(st)-1].kids = true
			}
			st = append(st, lvl{})
			prevEnd = tagEnd(ind, t.Off)
		case tkEnd:
			top := st[len(st)-1]
			st = st[:len(st)-1]
			if t.Off < prevEnd || !strings.HasPrefix(ind[t.Off:], "</") {
				// an empty-element tag
				continue
			}
			if top.kids {
				want := nl + strings.Repeat(*cfg.Indent, len(st))
				if got := ind[prevEnd:t.Off]; got != want {
					c.Fail("the end tag of %s at byte %d, at depth %d, is preceded by %q instead of %q\n%q", t.Name, t.Off, len(st), got, want, clip(ind))
				}
			}
			tags++
			prevEnd = tagEnd(ind, t.Off)
		}
	}
	c.Event("tags judged for line and column", tags)
	return ind
}

// tagEnd is the end of the tag at p; values in the documents of c11layout hold
// no quotes, and '>' is only in tags.
func tagEnd(s string, p int) int { return p + strings.IndexByte(s[p:], '>') + 1 }

// c11repeat: how an element is laid out does not depend on the content of the
// elements before it.
func c11repeat(c *Ctx, i int) {
	g := newG(c.R)
	g.Plain = true
	g.Budget = c.R.Range(1, 14)
	elem := func() *N {
		for {
			if n := g.elem(c.R.Range(0, 2)); n != nil {
				return n
			}
		}
	}
	t, a := elem(), elem()
	mark := func(s string) *N { return &N{K: "elem", Name: s} }
	var kids []*N
	before := c.R.Range(0, 3)
	// an element on its own line comes right before each of the three
	kids = append(kids, mark("m1"), t, mark("m2"))
	for k := 0; k < before; k++ {
		kids = append(kids, elem())
	}
	kids = append(kids, a, mark("m3"), t, mark("m4"), mark("m5"), t, mark("m6"))
	var top *N
	for d := c.R.Range(1, 4); d > 0; d-- {
		top = &N{K: "elem", Name: fmt.Sprintf("d%d", d), Kids: kids}
		kids = []*N{top}
		if c.R.P(30) {
			kids = append([]*N{elem()}, kids...)
		}
	}
	ops := compile(c.R, []*N{top}, c.R.P(65))
	cfg := c11cfg(c)
	c.Describe(func() string { return fmt.Sprintf("config %s\nprogram:\n%s", dump(cfg), opsString(ops)) })
	out, err, at := runOps(ops, cfg)
	if err != nil {
		c.Fail("call %d failed: %v", at, err)
	}
	between := func(a, b string) string {
		p := strings.Index(out, a)
		if p < 0 {
			c.Fail("no %s in %q", a, clip(out))
		}
		p += len(a)
		q := strings.Index(out[p:], b)
		if q < 0 {
			c.Fail("no %s in %q", b, clip(out))
		}
		return out[p : p+q]
	}
	one := between("<m1/>", "<m2/>")
	for _, s := range [][2]string{{"<m3/>", "<m4/>"}, {"<m5/>", "<m6/>"}} {
		if two := between(s[0], s[1]); one != two {
			c.Fail("the same element is laid out as %q first, as %q after %s", clip(one), clip(two), s[0])
		}
		c.Event("layouts compared with an earlier one", 1)
	}
	c.Distinct(opsString(ops), dump(cfg))
}
