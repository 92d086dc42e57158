package main

// C03 in context: the verdict on a field or on a section does not depend on
// where the node is, on what was written before it, or on the call.

import (
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// ctxField: a node with one field under test.
type ctxField struct {
	rule string // name in fieldRules
	node func(r *RNG, s string) *N
}

var ctxFields = []ctxField{
	{"comment", func(r *RNG, s string) *N { return &N{K: "comment", Data: s} }},
	{"cdata", func(r *RNG, s string) *N { return &N{K: "cdata", Data: s} }},
	{"pi content", func(r *RNG, s string) *N { return &N{K: "pi", Name: "t", Data: s} }},
	{"pi target", func(r *RNG, s string) *N { return &N{K: "pi", Name: s, Data: r.Pick("", "c")} }},
	{"elem name", func(r *RNG, s string) *N { return &N{K: "elem", Name: s} }},
	{"prefixed elem name", func(r *RNG, s string) *N { return &N{K: "elem", Prefix: "p", URI: r.Pick("", "u"), Name: s} }},
	{"elem prefix", func(r *RNG, s string) *N { return &N{K: "elem", Prefix: s, Name: "n"} }},
	{"attr name", func(r *RNG, s string) *N { return &N{K: "attr", Name: s, Data: r.Pick("", "v")} }},
	{"attr name in elem", func(r *RNG, s string) *N {
		n := &N{K: "elem", Name: "e", Attrs: []A{{Name: "a0"}, {Name: "a1", Value: "v"}}}
		n.Attrs[r.N(2)].Name = s
		return n
	}},
	{"prefixed attr name", func(r *RNG, s string) *N { return &N{K: "attr", Prefix: "q", Name: s, Data: "v"} }},
	{"attr prefix", func(r *RNG, s string) *N { return &N{K: "attr", Prefix: s, Name: "n", Data: "v"} }},
	{"dtd name", func(r *RNG, s string) *N { return &N{K: "dtd", Name: s, Sys: r.Pick("", "s")} }},
	{"dtdelem name", func(r *RNG, s string) *N { return &N{K: "dtdelem", Name: s, Data: "EMPTY"} }},
	{"attlist name", func(r *RNG, s string) *N { return &N{K: "attlist", Name: s} }},
	{"dtdattr name", func(r *RNG, s string) *N { return &N{K: "dtdattr", Name: s, Type: "CDATA"} }},
	{"entity name", func(r *RNG, s string) *N {
		return &N{K: "entity", Name: s, PE: r.Bool(), Data: r.Pick("", "c")}
	}},
	{"notation name", func(r *RNG, s string) *N { return &N{K: "notation", Name: s, Sys: "s"} }},
	{"ndata", func(r *RNG, s string) *N { return &N{K: "entity", Name: "e", Sys: "s", NData: s} }},
	{"dtd public id", func(r *RNG, s string) *N { return &N{K: "dtd", Name: "d", Pub: s, Sys: "s"} }},
	{"entity public id", func(r *RNG, s string) *N { return &N{K: "entity", Name: "e", Pub: s, Sys: "s", PE: r.Bool()} }},
	{"notation public id", func(r *RNG, s string) *N { return &N{K: "notation", Name: "n", Pub: s, Sys: "s"} }},
	{"dtd system id", func(r *RNG, s string) *N { return &N{K: "dtd", Name: "d", Sys: s} }},
	{"dtd system id with public", func(r *RNG, s string) *N { return &N{K: "dtd", Name: "d", Pub: "p", Sys: s} }},
	{"entity system id", func(r *RNG, s string) *N { return &N{K: "entity", Name: "e", Sys: s, PE: r.Bool()} }},
	{"entity system id with public", func(r *RNG, s string) *N { return &N{K: "entity", Name: "e", Pub: "p", Sys: s} }},
	{"notation system id", func(r *RNG, s string) *N { return &N{K: "notation", Name: "n", Sys: s} }},
	{"entity value", func(r *RNG, s string) *N { return &N{K: "entity", Name: "e", Data: s, PE: r.Bool()} }},
	{"text", func(r *RNG, s string) *N { return &N{K: "text", Data: s} }},
	{"attr value", func(r *RNG, s string) *N { return &N{K: "attr", Name: "a", Data: s} }},
	{"dtdattr value", func(r *RNG, s string) *N { return &N{K: "dtdattr", Name: "a", Type: "CDATA", Data: s} }},
}

func ruleNamed(name string) *fieldRule {
	for i := range fieldRules {
		if fieldRules[i].name == name {
			return &fieldRules[i]
		}
	}
	panic("harness: rule " + name)
}

// ctxCalls: the ways to give a node to the writer in its current place.
func ctxCalls(r *RNG, n *N, parent string) (ops []Op, nested bool) {
	if parent == "attlist" && r.P(20) || (parent == "" || parent == "dtd") && n.K == "dtdattr" {
		if n.K == "dtdattr" && parent != "attlist" {
			l := &N{K: "attlist", Name: "l", Kids: []*N{{K: "dtdattr", Name: "z", Type: "ID"}, n, {K: "dtdattr", Name: "y", Type: "ID"}}}
			l.Kids = l.Kids[r.N(2):r.Range(2, 3)]
			return []Op{pick(r, waysOf(l))}, true
		}
	}
	elemy := parent == "" || parent == "doc" || parent == "elem"
	if elemy && nestable(n) && mayWrite(n.K, "elem", true) && r.P(30) {
		// as content of an element, or several levels down
		e := &N{K: "elem", Name: "w", Kids: []*N{n}}
		if r.Bool() {
			e.Kids = append([]*N{{K: "comment", Data: "c"}}, e.Kids...)
		}
		if r.P(30) {
			e.Kids = append(e.Kids, &N{K: "elem", Name: "x"})
		}
		for k := r.N(3); k > 0; k-- {
			e = &N{K: "elem", Name: "v", Kids: []*N{e}}
		}
		return []Op{pick(r, waysOf(e))}, true
	}
	if elemy && isWritable(n.K) && mayWrite(n.K, "elem", n.K != "attr") && r.P(20) {
		o := Op{M: "Block", N: []*N{{K: "elem", Name: "w"}}}
		if r.Bool() && n.K != "attr" {
			o.N = append(o.N, &N{K: "elem", Name: "x"})
		}
		o.N = append(o.N, n)
		return []Op{o}, true
	}
	if elemy && n.K == "attr" && r.P(20) {
		e := &N{K: "elem", Name: "w", Attrs: []A{{Prefix: n.Prefix, Name: n.Name, Value: n.Data}}}
		return []Op{pick(r, waysOf(e))}, true
	}
	o := pick(r, waysOf(n))
	if n.K == "comment" || n.K == "cdata" {
		if strings.HasPrefix(o.M, "Start") {
			end := Op{M: endMethod[n.K]}
			if r.Bool() {
				end = Op{M: "EndAny"}
			}
			return []Op{o, end}, false
		}
	}
	if o.M == "Write" && r.P(20) {
		// together with others
		if n.K == "text" || n.K == "elem" || n.K == "cdata" || n.K == "pi" {
			if elemy && parent != "doc" {
				o.N = []*N{{K: "comment", Data: "c"}, n, {K: "comment", Data: "d"}}
			}
		}
	}
	return []Op{o}, false
}

// c03context: any legal program, then one node with a hostile field.
func c03context(c *Ctx, i int) {
	f := &ctxFields[i%len(ctxFields)]
	fr := ruleNamed(f.rule)
	s := fr.gen(c.R)
	isName := strings.Contains(f.rule, "name") || strings.Contains(f.rule, "prefix") || f.rule == "ndata" || f.rule == "pi target"
	if isName && supplementary(s) {
		return
	}
	if f.rule == "pi target" && s == "" {
		return // known, and judged in fields
	}
	if strings.Contains(f.rule, "attr prefix") && (s == "xml" || s == "xmlns") {
		return
	}
	n := f.node(c.R, s)
	strict := c.R.P(65)
	cfg := c.vary(Cfg{NoStrict: !strict, Buf: c.R.PickInt(0, 0, 1, 5, 64)})
	if c.R.P(40) {
		ind := c.R.Pick(" ", "", "\t", "    ")
		cfg.Indent = &ind
	}
	wk := newWalker(c.R)
	steps := c.R.Range(0, 25)
	sections := false
	for k := 0; k < steps; k++ {
		if c.R.P(30) {
			// sections whose ends look like the start of something
			p, opened := wk.parent()
			kind := c.R.Pick("cdata", "comment", "pi")
			if mayWrite(kind, p, opened) {
				m := &N{K: kind, Name: "t", Data: c.R.Pick("]", "]]", "x]]", "?", "-x", "x", "- - ", ">", "->")}
				if kind != "pi" {
					m.Name = ""
				}
				wk.content(m)
				wk.op(writeOps(c.R, m), false)
				sections = true
				continue
			}
		}
		if c.R.P(75) || len(wk.stack) == 0 {
			wk.step()
		} else {
			wk.op(Op{M: "EndAny"}, false)
			wk.pop(1)
		}
	}
	for k := 0; k < 12; k++ {
		// until the node may be written here
		if p, opened := wk.parent(); mayWrite(n.K, p, opened) {
			break
		}
		if k < 6 {
			wk.step()
		} else if len(wk.stack) > 0 {
			wk.op(Op{M: "EndAny"}, false)
			wk.pop(1)
		}
	}
	if p, opened := wk.parent(); !mayWrite(n.K, p, opened) {
		return
	}
	if p, _ := wk.parent(); (p == "" || p == "doc") && c.R.P(75) {
		// deeper
		to := pick(c.R, placement[n.K])
		if to == "elem" && n.K == "attr" || to != "" && to != "doc" {
			for k := c.R.Range(1, 4); k > 0; k-- {
				p, opened := wk.parent()
				kind := to
				if to == "attlist" && p != "dtd" && c.R.Bool() {
					kind = "dtd"
				}
				if !mayWrite(kind, p, opened) {
					break
				}
				m := wk.node(kind)
				wk.touch()
				wk.stack = append(wk.stack, frame{n: treeNode(m)})
				wk.op(Op{M: "Start", N: n1(m)}, false)
				if kind == "elem" && c.R.P(30) {
					t := wk.node("text")
					wk.content(t)
					wk.op(writeOps(c.R, t), false)
				}
			}
		}
	}
	if p, opened := wk.parent(); !mayWrite(n.K, p, opened) {
		return
	}
	parent, _ := wk.parent()
	if parent == "elem" && n.K == "attr" && n.Prefix == "" && (n.Name == "xmlns") {
		return
	}
	last, nested := ctxCalls(c.R, n, parent)
	want := fr.rule(s, strict)
	c.Describe(func() string {
		return fmt.Sprintf("%+v\n%s\nfield %q, value %q in\n%s", cfg, opsString(wk.ops), f.rule, s, opsString(last))
	})
	sink := &capSink{}
	flip := c.R.P(25)
	if flip {
		// what StrictChars is at the time of the call counts
		cfg.NoStrict = strict
	}
	cfg.Late = c.R.P(20)
	x := cfg.open(sink)
	base := x.Depth()
	for k, o := range wk.ops {
		if err := runStep(x, o, base); err != nil {
			c.Fail("call %d (%s) of the legal beginning was refused: %v", k, clip(o.String()), err)
		}
	}
	x.Flush()
	if flip {
		x.StrictChars = strict
		c.Event("values judged after a change of StrictChars", 1)
	}
	pre := sink.Len()
	var err error
	if strings.HasPrefix(last[0].M, "Start") && len(last) == 1 && c.R.P(50) || nested {
		// nested content of a started node comes out when it ends
		last = append(last, Op{M: "EndAll"})
	}
	for _, o := range last {
		if err = call(x, o); err != nil {
			break
		}
	}
	x.Flush()
	out := sink.String()[pre:]
	switch {
	case want == vLegal && err != nil:
		c.Fail("legal %s %q was rejected in %q: %v", f.rule, s, parent, err)
	case want == vIllegal && err == nil:
		c.Fail("illegal %s %q was accepted in %q, output %q", f.rule, s, parent, clip(out))
	case want == vIllegal && !nested && len(s) >= 5 && strings.Contains(afterOpening(strings.TrimPrefix(out, ">")), s) && !(f.rule == "comment" && fr.rule(s+".", strict) == vLegal):
		c.Fail("illegal %s %q was rejected but is in the output %q", f.rule, s, clip(out))
	}
	c.Event("values judged inside "+map[bool]string{true: "nothing", false: parent}[parent == ""], 1)
	if nested {
		c.Event("values judged in nested fields", 1)
	}
	if sections {
		c.Event("values judged after other sections", 1)
	}
	c.Distinct("ctx", f.rule, s, parent, fmt.Sprint(nested, len(wk.stack), len(wk.ops)))
	if i%6007 == 0 {
		c.Sample("%s %q in %q after %d calls: %v", f.rule, s, parent, len(wk.ops), err)
	}
}

type piece struct {
	raw bool
	s   string
}

// c03sections: comments and CDATA sections after each other, in pieces, with
// Raw between the pieces.
func c03sections(c *Ctx, i int) {
	r := c.R
	type section struct {
		cdata  bool
		style  int
		pieces []piece
	}
	var secs []section
	var flow []string
	n := r.Range(2, 7)
	frag := func(cdata bool) string {
		if cdata {
			return r.Pick("]", "]]", ">", "]>", "", "x", "]x", "x]", "x]]", "]]x", "]]x>", "-", "é")
		}
		return r.Pick("-", "", "x", "-x", "x-", ">", "-é", "]", "x-y", "x--y")
	}
	for k := 0; k < n; k++ {
		s := section{cdata: r.Bool(), style: r.N(4)}
		for m := r.Range(0, 5); m > 0; m-- {
			p := piece{s: frag(s.cdata)}
			if r.P(22) {
				p.raw = true
				if r.P(60) {
					p.s = ""
				}
			}
			s.pieces = append(s.pieces, p)
		}
		if r.P(60) {
			// mostly legal ones, so that the flow continues
			if s.cdata {
				s.pieces = append(s.pieces, piece{s: "]]"})
			} else {
				s.pieces = append(s.pieces, piece{s: "y"})
			}
		}
		secs = append(secs, s)
		flow = append(flow, fmt.Sprint(s))
	}
	cfg := c.vary(Cfg{Buf: r.PickInt(0, 1, 5)})
	depth := r.Range(1, 4)
	c.Describe(func() string { return fmt.Sprintf("%+v, depth %d, sections %+v", cfg, depth, secs) })
	sink := &capSink{}
	w := cfg.open(sink)
	for k := 0; k < depth; k++ {
		if err := w.StartElem(xw.Elem{Name: "e"}); err != nil {
			c.Fail("prelude: %v", err)
		}
	}
	w.Next()
	w.Flush()
	base := w.Depth()
	for k, s := range secs {
		bad, good := "--", func(t string) bool { return !strings.Contains(t, "--") && !strings.HasSuffix(t, "-") }
		if s.cdata {
			bad, good = "]]>", func(t string) bool { return !strings.Contains(t, "]]>") }
		}
		// segs: what stands between non-empty raws
		segs := []string{""}
		whole := ""
		for _, p := range s.pieces {
			whole += p.s
			if p.raw && p.s != "" {
				segs = append(segs, "")
			} else {
				segs[len(segs)-1] += p.s
			}
		}
		want := vEither
		if good(whole) {
			want = vLegal
		}
		for _, t := range segs {
			if strings.Contains(t, bad) {
				want = vIllegal
			}
		}
		if !s.cdata && strings.HasSuffix(segs[len(segs)-1], "-") {
			want = vIllegal
		}
		start := sink.Len()
		err := func() error {
			if s.style == 0 && len(s.pieces) > 0 && !s.pieces[0].raw {
				// the first with the start
				var st xw.Startable = xw.Comment{Content: s.pieces[0].s}
				if s.cdata {
					st = xw.CData{Content: s.pieces[0].s}
				}
				s.pieces = s.pieces[1:]
				if err := w.Start(st); err != nil {
					return err
				}
				if len(s.pieces) > 0 && s.pieces[0].raw {
					// Raw does not open what is started
					if err := w.Next(); err != nil {
						return err
					}
				}
			} else if s.cdata {
				if err := w.StartCData(xw.CData{}); err != nil {
					return err
				}
			} else if err := w.StartComment(xw.Comment{}); err != nil {
				return err
			}
			for _, p := range s.pieces {
				var err error
				switch {
				case p.raw && s.style == 1:
					err = w.Write(xw.Raw(p.s))
				case p.raw:
					err = w.WriteRaw(p.s)
				case s.cdata && s.style == 2:
					err = w.Write(xw.CDataContent(p.s))
				case s.cdata:
					err = w.WriteCDataContent(p.s)
				case s.style == 2:
					err = w.Write(xw.CommentContent(p.s))
				default:
					err = w.WriteCommentContent(p.s)
				}
				if err != nil {
					return err
				}
			}
			if w.Depth() != base+1 {
				c.Fail("section %d: depth %d inside of it, %d before", k, w.Depth(), base)
			}
			var err error
			if s.style == 3 {
				err = w.EndAny()
			} else if s.cdata {
				err = w.EndCData()
			} else {
				err = w.EndComment()
			}
			if err != nil && w.Depth() != base+1 {
				c.Fail("section %d: %+v: its end was refused (%v), but it is not open any more", k, s, err)
			}
			return err
		}()
		c.Eval(1)
		if want == vIllegal && err != nil && w.Depth() > base && !s.cdata && len(segs) == 1 && good(whole+"x") && r.P(60) {
			// only the end was refused: the comment is still open, and can be
			// completed
			if r.Bool() {
				if err := w.EndAny(); err == nil {
					c.Fail("section %d: illegal end of %+v was accepted the second time", k, s)
				}
			}
			if err := w.WriteCommentContent("x"); err != nil {
				c.Fail("section %d: %+v could not be continued after a refused end: %v", k, s, err)
			}
			switch r.N(4) {
			case 0:
				err = w.EndAny()
			case 1:
				err = w.End(xw.CommentNode)
			case 2:
				err = w.EndToDepth(base, xw.CommentNode)
			default:
				err = w.EndComment()
			}
			if err != nil {
				c.Fail("section %d: %+v could not be ended after a refused end: %v", k, s, err)
			}
			w.Flush()
			if got, exp := sink.String()[start:], "<!--"+whole+"x-->"; got != exp {
				c.Fail("section %d: %+v completed after a refused end wrote %q, not %q", k, s, clip(got), clip(exp))
			}
			c.Event("refused ends made good", 1)
			continue
		}
		w.Flush()
		if want == vLegal {
			if err != nil {
				c.Fail("section %d: legal %+v was rejected: %v", k, s, err)
			}
			exp := "<!--" + whole + "-->"
			if s.cdata {
				exp = "<![CDATA[" + whole + "]]>"
			}
			if got := sink.String()[start:]; got != exp {
				c.Fail("section %d: %+v wrote %q, not %q", k, s, clip(got), clip(exp))
			}
			c.Event("legal sections in a row", 1)
		}
		if want == vIllegal {
			if err == nil {
				c.Fail("section %d: illegal %+v was accepted, output %q", k, s, clip(sink.String()[start:]))
			}
			c.Event("illegal sections after others", 1)
		}
		if err != nil {
			break
		}
	}
	c.Distinct(append([]string{"sections"}, flow...)...)
	if i%5003 == 0 {
		c.Sample("sections %v", flow)
	}
}
