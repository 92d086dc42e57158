package main

import (
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C21",
		Rule: "all presence combinations of the fields of every declaration with representative legal and illegal values, inside a DTD and without a parent; a grammar predicate says whether the combination can be expressed, a declaration parser reads back what was accepted; seeded internal subsets on top, written in every style; " +
			"distinct by declaration",
		Suites: []Suite{
			{Name: "entities", Quick: 3 * 3 * 7 * 7 * 3 * 2 * 2, Run: c21entities},
			{Name: "doctypes", Quick: 3 * 4 * 7 * 6, Run: c21doctypes},
			{Name: "notations", Quick: 3 * 4 * 7 * 2, Run: c21notations},
			{Name: "attributes", Quick: 3 * 12 * 8 * 6 * 3, Run: c21attributes},
			{Name: "elements", Quick: 3 * 16 * 2, Run: c21elements},
			{Name: "subsets", Quick: 600000, Thor: 1500000, Run: c21subsets},
		},
		Assume: []string{"content models and attribute types are written verbatim: only grammatical ones are tried"},
	})
}

var c21names = []string{"n", "", "1n"}
var c21pubs = []string{"", "pub", "it's -//x", "a\"b"}
var c21syss = []string{"", "s", `say "x"`, "it's", `'"`, "a&b <c>", "pub"}

func nameOK(s string) bool { return isName(s) }

func quoteOK(s string) bool { return !(strings.Contains(s, `"`) && strings.Contains(s, "'")) }

func extOK(pub, sys string) bool {
	return quoteOK(sys) && pubOK(pub) && (pub == "" || sys != "")
}

// c21judge writes the node and compares verdict and reading with the model.
func c21judge(c *Ctx, n *N, legal, inDTD bool, want []Tok) {
	c.Describe(func() string { return fmt.Sprintf("inside a DTD %v: %s", inDTD, dump(n)) })
	s := &capSink{}
	cfg := c.vary(Cfg{NoStrict: c.R.P(20)})
	cfg.Buf = c.R.PickInt(0, 1, 16)
	w := cfg.open(s)
	if inDTD {
		if err := w.StartDTD(xw.DTD{Name: "d"}); err != nil {
			c.Fail("%v", err)
		}
	}
	err := call(w, writeOps(c.R, n))
	if (err == nil) != legal {
		c.Fail("accepted %v, should be %v: %v", err == nil, legal, err)
	}
	c.Event("declarations judged", 1)
	if err != nil {
		c.Event("refused combinations", 1)
		return
	}
	if err := w.EndAllFlush(); err != nil {
		c.Fail("%v", err)
	}
	out := s.String()
	if !inDTD {
		out = "<!DOCTYPE d [" + out + "]>"
	}
	toks, err := parseFragment(out)
	if err != nil {
		c.Fail("%q does not parse: %v", clip(out), err)
	}
	all := append([]Tok{{Kind: tkDoctype, Name: "d", Has: "["}}, want...)
	all = append(all, Tok{Kind: tkDoctypeE})
	if d := firstDiff(all, toks, true); d != "" {
		c.Fail("%q: %s", clip(out), d)
	}
	c.Enumerated(1)
}

func c21entities(c *Ctx, i int) {
	k := i
	next := func(n int) int { v := k % n; k /= n; return v }
	n := &N{K: "entity"}
	n.Name = c21names[next(3)]
	n.Pub = []string{"", "pub", "it's -//x"}[next(3)]
	n.Sys = c21syss[next(7)]
	n.Data = []string{"", "v", `a"b`, "a'b", `"'`, "&lt;<x/>", "two\nlines"}[next(7)]
	n.NData = []string{"", "nd", "1nd"}[next(3)]
	n.PE = next(2) == 1
	in := next(2) == 1
	legal := nameOK(n.Name)
	if n.Pub != "" || n.Sys != "" {
		legal = legal && extOK(n.Pub, n.Sys) && n.Data == "" && (n.NData == "" || isName(n.NData) && !n.PE)
	} else {
		legal = legal && quoteOK(n.Data) && n.NData == ""
	}
	c21judge(c, n, legal, in, expected(nil, n, Cfg{}, "UTF-8"))
}

func c21notations(c *Ctx, i int) {
	k := i
	next := func(n int) int { v := k % n; k /= n; return v }
	n := &N{K: "notation", Name: c21names[next(3)], Pub: c21pubs[next(4)], Sys: c21syss[next(7)]}
	legal := nameOK(n.Name) && (n.Pub != "" || n.Sys != "") && pubOK(n.Pub) && quoteOK(n.Sys)
	c21judge(c, n, legal, next(2) == 1, expected(nil, n, Cfg{}, "UTF-8"))
}

func c21elements(c *Ctx, i int) {
	k := i
	next := func(n int) int { v := k % n; k /= n; return v }
	n := &N{K: "dtdelem", Name: c21names[next(3)]}
	n.Data = []string{"", xw.DTDElemEmpty, xw.DTDElemAny, "(" + xw.DTDElemPCData + ")", "(#PCDATA)*", "(a)", "(a|b)*", "(a,b?,(c|d)+)", "(#PCDATA|a|b)*", "( a , b )", "((a))", "(a?)", "(a*,b+)+", "(é|b)", "(a|(b,c))?", "(#PCDATA | a)*"}[next(16)]
	c21judge(c, n, nameOK(n.Name) && n.Data != "", next(2) == 1, expected(nil, n, Cfg{}, "UTF-8"))
}

func c21attributes(c *Ctx, i int) {
	k := i
	next := func(n int) int { v := k % n; k /= n; return v }
	a := &N{K: "dtdattr", Name: c21names[next(3)]}
	a.Type = []string{"", "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(a|b)", "NOTATION (n|m)", "(x)"}[next(12)]
	a.Default = next(8) - 1
	a.Data = []string{"", "v", `a"b`, "it's <&> \t\n\r", "\x00", "#REQUIRED"}[next(6)]
	legal := nameOK(a.Name) && a.Type != "" && a.Default >= 0 && a.Default <= 4
	if d := xw.DTDAttrDefaultType(a.Default); d == xw.DTDAttrRequired || d == xw.DTDAttrImplied {
		legal = legal && a.Data == ""
	}
	list := &N{K: "attlist", Name: "l"}
	kids := []*N{a}
	if c.R.Bool() {
		kids = append(kids, &N{K: "dtdattr", Name: "z", Type: "CDATA"})
	}
	if c.R.P(30) {
		kids = append([]*N{{K: "dtdattr", Name: "y", Type: "ID", Default: int(xw.DTDAttrRequired)}}, kids...)
	}
	list.Kids = kids
	want := func() []Tok {
		if !legal {
			return nil
		}
		return expected(nil, list, Cfg{}, "UTF-8")
	}
	switch next(3) {
	case 0:
		c21judge(c, list, legal, c.R.Bool(), want())
	case 1:
		// in an open list
		c.Describe(func() string { return dump(list) })
		s := &capSink{}
		w := c.vary(Cfg{NoStrict: c.R.P(20)}).open(s)
		w.StartDTD(xw.DTD{Name: "d"})
		if err := w.StartDTDAttList(xw.DTDAttList{Name: "l"}); err != nil {
			c.Fail("%v", err)
		}
		for _, kid := range kids {
			err := call(w, writeOps(c.R, kid))
			if (err == nil) != (legal || kid != a) {
				c.Fail("attribute %s: accepted %v, should be %v: %v", dump(kid), err == nil, legal, err)
			}
		}
		c.Event("declarations judged", 1)
		if !legal {
			return
		}
		w.EndAllFlush()
		toks, err := parseFragment(s.String())
		if err != nil {
			c.Fail("%q does not parse: %v", clip(s.String()), err)
		}
		all := append([]Tok{{Kind: tkDoctype, Name: "d", Has: "["}}, want()...)
		all = append(all, Tok{Kind: tkDoctypeE})
		if d := firstDiff(all, toks, true); d != "" {
			c.Fail("%q: %s", clip(s.String()), d)
		}
		c.Enumerated(1)
	case 2:
		// without a list
		c.Describe(func() string { return dump(a) })
		s := &capSink{}
		w := c.vary(Cfg{NoStrict: c.R.P(20)}).open(s)
		err := call(w, writeOps(c.R, a))
		if (err == nil) != legal {
			c.Fail("attribute %s: accepted %v, should be %v: %v", dump(a), err == nil, legal, err)
		}
		c.Event("declarations judged", 1)
		if !legal {
			return
		}
		w.Flush()
		doc := "<!DOCTYPE d [<!ATTLIST l " + s.String() + ">]>"
		toks, err := parseFragment(doc)
		if err != nil {
			c.Fail("%q does not parse: %v", clip(doc), err)
		}
		all := []Tok{{Kind: tkDoctype, Name: "d", Has: "["}}
		all = append(all, expected(nil, &N{K: "attlist", Name: "l", Kids: []*N{a}}, Cfg{}, "UTF-8")...)
		all = append(all, Tok{Kind: tkDoctypeE})
		if d := firstDiff(all, toks, true); d != "" {
			c.Fail("%q: %s", clip(doc), d)
		}
		c.Enumerated(1)
	}
}

func c21doctypes(c *Ctx, i int) {
	k := i
	next := func(n int) int { v := k % n; k /= n; return v }
	n := &N{K: "dtd", Name: c21names[next(3)], Pub: c21pubs[next(4)], Sys: c21syss[next(7)]}
	legal := nameOK(n.Name) && extOK(n.Pub, n.Sys)
	content := next(6)
	c.Describe(func() string { return fmt.Sprintf("content %d: %s", content, dump(n)) })
	s := &capSink{}
	cfg := c.vary(Cfg{NoStrict: c.R.P(20)})
	if c.R.P(30) {
		in := c.R.Pick(" ", "\t")
		cfg.Indent = &in
	}
	w := cfg.open(s)
	inDoc := c.R.Bool()
	if inDoc {
		if err := w.StartDoc(xw.Doc{}); err != nil {
			c.Fail("%v", err)
		}
	}
	var err error
	if c.R.Bool() {
		err = w.StartDTD(n.dtd())
	} else {
		err = w.Start(n.dtd())
	}
	if (err == nil) != legal {
		c.Fail("accepted %v, should be %v: %v", err == nil, legal, err)
	}
	c.Event("declarations judged", 1)
	if err != nil {
		return
	}
	g := newG(c.R)
	g.Plain = true
	switch content {
	case 1:
		n.Kids = []*N{{K: "comment", Data: "c"}}
	case 2:
		n.Kids = []*N{g.entity()}
	case 3:
		n.Kids = []*N{g.attlist(), g.dtdelem()}
	case 4:
		n.Kids = []*N{{K: "attlist", Name: "l"}}
	case 5:
		n.Kids = []*N{g.notation(), g.decl(), g.decl()}
	}
	for _, kid := range n.Kids {
		if err := call(w, writeOps(c.R, kid)); err != nil {
			c.Fail("%s: %v", dump(kid), err)
		}
	}
	if err := w.EndDTD(); err != nil {
		c.Fail("EndDTD: %v", err)
	}
	if err := w.WriteElem(xw.Elem{Name: "r"}); err != nil {
		c.Fail("after the DTD: %v", err)
	}
	w.EndAllFlush()
	toks, err := parseXML(s.String())
	if err != nil {
		c.Fail("%q does not parse: %v", clip(s.String()), err)
	}
	var want []Tok
	tops := []*N{n, {K: "elem", Name: "r"}}
	if inDoc {
		tops = []*N{{K: "doc", Kids: tops}}
	}
	want = expectedAll(tops, cfg)
	if d := firstDiff(want, toks, true); d != "" {
		c.Fail("%q: %s", clip(s.String()), d)
	}
	c.Enumerated(1)
}

func c21subsets(c *Ctx, i int) {
	g := newG(c.R)
	n := g.dtd()
	if len(n.Kids) == 0 {
		n.Kids = append(n.Kids, g.decl())
	}
	tops := []*N{n, {K: "elem", Name: "r"}}
	if c.R.Bool() {
		tops = []*N{{K: "doc", Kids: tops}}
	}
	ops := compile(c.R, tops, true)
	cfg := c.vary(Cfg{NoStrict: c.R.P(20)})
	if c.R.P(40) {
		in := c.R.Pick(" ", "\t")
		cfg.Indent = &in
	}
	judgeTree(c, tops, ops, cfg)
	c.Event("subsets read back", 1)
	if i%9001 == 5 {
		c.Sample("%s", dump(n))
	}
	c.Distinct(dump(n))
}
