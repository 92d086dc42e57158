package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

func init() {
	register(&Check{
		ID: "C32",
		Rule: "generated trees are spelled out twice, with attributes in another order, other quotes, white space in tags and in content without text, references, closing styles and case of the encoding name; tools.sh xmlclean, with the tools built from the working tree, must give the same bytes for both, " +
			"with the content of the document but for blank text, and other bytes for a tree with one change; documents that are not well-formed must be noticed by the status or on standard error; distinct by document",
		Assume: []string{"xmllint is taken as it is", "no DTD, CDATA sections next to each other are taken as one, no empty CDATA sections, and names are ASCII"},
		Suites: []Suite{
			{Name: "spellings", Quick: 4000, Thor: 40000, Run: c32spell},
			{Name: "broken", Quick: 1500, Thor: 15000, Run: c32broken},
		},
	})
}

var (
	c32once sync.Once
	c32dir  string
)

func c32clean(doc string) result {
	buildTools()
	c32once.Do(func() {
		c32dir = filepath.Join(tools.dir, "clean")
		must(os.MkdirAll(filepath.Join(c32dir, "ctester"), 0o755))
		b, err := os.ReadFile(filepath.Join(repoDir, "tester", "tools.sh"))
		must(err)
		must(os.WriteFile(filepath.Join(c32dir, "tools.sh"), b, 0o755))
		for t := range cToolLibs {
			must(os.Symlink(filepath.Join(tools.dir, t), filepath.Join(c32dir, "ctester", t)))
		}
	})
	// from another directory: the tools are found by the place of the script
	return runBin("/", filepath.Join(c32dir, "tools.sh"), doc, "xmlclean")
}

// c32tree makes the nodes of a document as the spellings below need them.
func c32tree(r *RNG) []*N {
	g := newG(r)
	g.ASCII, g.NoNS, g.NoDTD, g.NoDoc = true, true, true, true
	g.Plain = r.P(30)
	if r.N(10) == 0 {
		g.Budget = r.Range(40, 200)
	}
	tops := g.document()
	var root *N
	for _, n := range tops {
		if n.K == "elem" {
			root = n
		}
	}
	switch r.N(40) {
	case 0:
		seen := map[string]bool{}
		for _, a := range root.Attrs {
			seen[a.full()] = true
		}
		pre := ""
		n := bigSize(r, 30, 1200)
		if r.Bool() {
			pre, n = strings.Repeat(r.ncname(true), r.Range(1, 200)), r.Range(2, 40)
		}
		for k := n; k > 0; k-- {
			if a := (A{Name: pre + r.ncname(true) + r.Pick("", ".", "-", "_") + fmt.Sprint(r.N(3000)), Value: r.anyString()}); !seen[a.Name] {
				seen[a.Name] = true
				root.Attrs = append(root.Attrs, a)
			}
		}
	case 1:
		root.Kids = append(root.Kids, &N{K: "elem", Name: "long", Kids: []*N{{K: "text", Data: bigText(r, bigSize(r, 1000, 70000), false)}}})
	case 2:
		for k := bigSize(r, 30, 600); k > 0; k-- {
			root.Kids = append(root.Kids, &N{K: "elem", Name: r.ncname(true), Attrs: []A{{Name: "b", Value: "1"}, {Name: "a", Value: fmt.Sprint(k)}}})
		}
	}
	cr := func(s string) string { return strings.ReplaceAll(s, "\r", "") }
	var fix func(l []*N, depth int)
	fix = func(l []*N, depth int) {
		for _, n := range l {
			switch n.K {
			case "elem":
				n.Full = false
				for k := range n.Attrs {
					n.Attrs[k].Value = legalChars(n.Attrs[k].Value, false)
				}
			case "text":
				n.Data = legalChars(n.Data, false)
			case "pi":
				n.Data = strings.TrimLeft(without(cr(n.Data), "?>"), " \t\n")
			case "comment", "cdata":
				n.Data, n.Pieces = cr(n.content()), nil
				if n.K == "comment" {
					n.Data = strings.TrimSuffix(without(n.Data, "--"), "-")
				} else {
					n.Data = without(n.Data, "]]>")
				}
				if n.Data == "" && n.K == "cdata" {
					n.Data = "c" // libxml2 drops some of the empty ones
				}
			}
			fix(n.Kids, depth+1)
		}
	}
	fix(tops, 0)
	return tops
}

// speller writes a tree in one of the many ways it can be written.
type speller struct {
	r      *RNG
	layout bool // white space in content without text
	b      strings.Builder
}

func (p *speller) w(s ...string) {
	for _, x := range s {
		p.b.WriteString(x)
	}
}

func (p *speller) sp(min int) {
	for n := p.r.PickInt(min, min, min, 1, 2, 3); n > 0; n-- {
		p.w(p.r.Pick(" ", " ", "\n", "\t"))
	}
}

func (p *speller) ref(c rune) {
	switch p.r.N(3) {
	case 0:
		p.w(fmt.Sprintf("&#%d;", c))
	case 1:
		p.w(fmt.Sprintf("&#x%X;", c))
	default:
		p.w(fmt.Sprintf("&#x%04x;", c))
	}
}

// chars writes s: must are the characters that have to be escaped, keep those
// that must not be.
func (p *speller) chars(s, must, keep string) {
	for _, c := range s {
		named := map[rune]string{'<': "&lt;", '>': "&gt;", '&': "&amp;", '"': "&quot;", '\'': "&apos;"}[c]
		switch {
		case c == '\r' || strings.ContainsRune(must, c):
			if named != "" && p.r.Bool() {
				p.w(named)
			} else {
				p.ref(c)
			}
		case !strings.ContainsRune(keep, c) && p.r.N(15) == 0:
			p.ref(c)
		default:
			p.w(string(c))
		}
	}
}

func (p *speller) attrs(l []A) {
	order := make([]int, len(l))
	for k := range order {
		order[k] = k
	}
	for k := len(order) - 1; k > 0; k-- {
		j := p.r.N(k + 1)
		order[k], order[j] = order[j], order[k]
	}
	for _, k := range order {
		p.sp(1)
		p.w(l[k].full())
		p.sp(0)
		p.w("=")
		p.sp(0)
		q := p.r.Pick(`"`, `'`)
		p.w(q)
		p.chars(l[k].Value, "<&\t\n"+q, "")
		p.w(q)
	}
}

func (p *speller) node(n *N) {
	switch n.K {
	case "elem":
		p.w("<", n.full())
		p.attrs(n.Attrs)
		p.sp(0)
		if len(n.Kids) == 0 && p.r.Bool() {
			p.w("/>")
			return
		}
		p.w(">")
		layout := len(n.Kids) > 0
		for _, k := range n.Kids {
			layout = layout && k.K != "text" && k.K != "cdata"
		}
		for _, k := range n.Kids {
			if layout && p.layout {
				p.sp(0)
			}
			p.node(k)
		}
		if layout && p.layout {
			p.sp(0)
		}
		p.w("</", n.full())
		p.sp(0)
		p.w(">")
	case "text":
		p.chars(n.Data, "<&>", " \t\n")
	case "comment":
		p.w("<!--", n.Data, "-->")
	case "cdata":
		p.w("<![CDATA[", n.Data, "]]>")
	case "pi":
		p.w("<?", n.Name)
		if n.Data != "" {
			p.sp(1)
			p.w(n.Data)
		}
		p.w("?>")
	}
}

// c32write spells out a document; decl: 0 no declaration, 1 without and 2 with an
// encoding, 3 with everything.
func c32write(r *RNG, tops []*N, decl int) string {
	p := &speller{r: r, layout: r.Bool()}
	if decl > 0 {
		q := r.Pick(`"`, `'`)
		p.w("<?xml version=", q, "1.0", q)
		if decl > 1 {
			p.w(r.Pick(" ", "  ", "\n"), "encoding=", q, r.Pick("UTF-8", "utf-8", "Utf-8", "uTF-8"), q)
		}
		if decl > 2 {
			p.w(" standalone=", q, "yes", q)
		}
		p.w(r.Pick("", " "), "?>")
		p.sp(0)
	}
	for k, n := range tops {
		if k > 0 {
			p.sp(0)
		}
		p.node(n)
	}
	p.sp(0)
	return p.b.String()
}

// c32content is what of a document must survive: blank text and the
// declaration may not.
func c32content(c *Ctx, doc string) []Tok {
	toks, err := parseSource(doc)
	if err != nil {
		c.Fail("not well-formed: %v\n%s", err, clip(doc))
	}
	var l []Tok
	for _, t := range sortedAttrs(toks) {
		if t.Kind == tkDecl || t.Kind == tkText && strings.Trim(t.Data, " \t\r\n") == "" {
			continue
		}
		if k := len(l) - 1; t.Kind == tkCData && k >= 0 && l[k].Kind == tkCData {
			l[k].Data += t.Data // libxml2 joins them
			continue
		}
		l = append(l, t)
	}
	return l
}

// c32change makes one change to a copy of the tree, and says which.
func c32change(r *RNG, tops []*N) ([]*N, string) {
	var all []*N
	var cp func(l []*N) []*N
	cp = func(l []*N) []*N {
		var o []*N
		for _, n := range l {
			m := *n
			m.Attrs = append([]A(nil), n.Attrs...)
			m.Kids = cp(n.Kids)
			all = append(all, &m)
			o = append(o, &m)
		}
		return o
	}
	t := cp(tops)
	n := pick(r, all)
	edit := func(s string) string {
		if s == "" || r.P(30) {
			return s + "z"
		}
		l := []rune(s)
		k := r.N(len(l))
		switch r.N(3) {
		case 0:
			return string(l[:k]) + "y" + string(l[k:])
		case 1:
			return string(l[:k]) + string(l[k+1:])
		}
		return string(l[:k]) + strings.ToUpper(string(l[k])) + string(l[k+1:])
	}
	switch {
	case n.K == "elem" && len(n.Attrs) > 0 && r.P(60):
		k := r.N(len(n.Attrs))
		switch r.N(4) {
		case 0:
			n.Attrs = append(n.Attrs[:k:k], n.Attrs[k+1:]...)
			return t, "an attribute less"
		case 1:
			n.Attrs[k].Name += "_z9"
			return t, "another attribute name"
		case 2:
			j := r.N(len(n.Attrs))
			n.Attrs[k].Value, n.Attrs[j].Value = n.Attrs[j].Value, n.Attrs[k].Value
			return t, "two attribute values swapped"
		}
		n.Attrs[k].Value = edit(n.Attrs[k].Value)
		return t, "another attribute value"
	case n.K == "elem" && len(n.Kids) > 1 && r.P(50):
		k := r.N(len(n.Kids) - 1)
		n.Kids[k], n.Kids[k+1] = n.Kids[k+1], n.Kids[k]
		return t, "two children swapped"
	case n.K == "elem" && len(n.Kids) > 0 && r.P(30):
		k := r.N(len(n.Kids))
		n.Kids = append(n.Kids[:k:k], n.Kids[k+1:]...)
		return t, "a child less"
	case n.K == "elem" && r.P(30):
		n.Attrs = append(n.Attrs, A{Name: "zz9", Value: "1"})
		return t, "an attribute more"
	case n.K == "elem":
		n.Name += "z"
		return t, "another element name"
	case n.K == "pi" && r.Bool():
		n.Name += "z"
		return t, "another target"
	case n.K == "pi":
		n.Data = strings.TrimLeft(without(edit(n.Data), "?>"), " \t\n")
		return t, "another instruction"
	case n.K == "comment":
		n.Data = strings.TrimSuffix(without(edit(n.Data), "--"), "-")
		return t, "another comment"
	case n.K == "cdata" && r.N(3) == 0:
		n.K = "text"
		return t, "text instead of a section"
	case n.K == "cdata":
		n.Data = without(edit(n.Data)+"z", "]]>")
		return t, "another section"
	}
	n.Data = edit(n.Data)
	return t, "another text"
}

func c32run(c *Ctx, doc string) string {
	res := c32clean(doc)
	res.healthy(c)
	if res.code != 0 || res.err != "" {
		c.Fail("xmlclean refuses a well-formed document: %v\n%s", res, clip(doc))
	}
	return res.out
}

func c32spell(c *Ctx, i int) {
	tops := c32tree(c.R)
	decl := c.R.N(4)
	one, two := c32write(c.R, tops, decl), c32write(c.R, tops, decl)
	c.Describe(func() string { return "first:\n" + one + "\nsecond:\n" + two })
	a, b := c32run(c, one), c32run(c, two)
	if a != b {
		c.Fail("two spellings of one document come out differently: %s", byteDiff(a, b))
	}
	want := c32content(c, one)
	got := c32content(c, a)
	if d := firstDiff(want, got, false); d != "" {
		c.Fail("xmlclean changes the content: %s\n%s", d, clip(a))
	}
	if has := strings.Contains(strings.SplitN(a, "?>", 2)[0], `encoding="UTF-8"`); has != (decl > 1) {
		c.Fail("the encoding is declared: %v, was %v\n%s", has, decl > 1, clip(a))
	}
	c.Event("pairs of spellings compared", 1)
	c.Event("tokens compared", len(got))
	c.Distinct(one)
	other, what := c32change(c.R, tops)
	three := c32write(c.R, other, decl)
	if firstDiff(want, c32content(c, three), false) == "" {
		return
	}
	c.Describe(func() string { return "first:\n" + one + "\nwith " + what + ":\n" + three })
	if d := c32run(c, three); d == a {
		c.Fail("a document with %s comes out the same:\n%s", what, clip(d))
	}
	c.Event("changes noticed: "+what, 1)
	c.Eval(3)
}

// c32broken: what is not well-formed is noticed by the status or on standard
// error, which is what run.sh looks at.
func c32broken(c *Ctx, i int) {
	doc := c32write(c.R, c32tree(c.R), c.R.N(4))
	what := ""
	r := c.R
	switch r.N(6) {
	case 0:
		k := strings.LastIndex(doc, "<")
		doc, what = doc[:k], "the last tag missing"
	case 1:
		doc, what = doc+r.Pick("<z/>", "text", "&amp;", "</z>"), "something after the root element"
	case 2:
		doc, what = doc[:r.N(len(doc))], "the end missing"
	case 3:
		k := r.N(len(doc) + 1)
		doc, what = doc[:k]+r.Pick("<", "&", "\x01", "\xff", "</z>", "<z>", "&undef;")+doc[k:], "a stray piece"
	case 4:
		doc, what = "", "nothing"
	case 5:
		doc, what = strings.Replace(doc, "=", "", 1), "an equals sign missing"
	}
	if _, err := parseSource(doc); err == nil {
		return
	}
	c.Describe(func() string { return what + ":\n" + doc })
	res := c32clean(doc)
	res.healthy(c)
	if res.code == 0 && res.err == "" {
		c.Fail("a document with %s is not noticed: %v", what, res)
	}
	c.Event("broken documents noticed: "+what, 1)
	c.Distinct(doc)
}
