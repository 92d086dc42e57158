package main

import (
	"fmt"

	xw "github.com/shabbyrobe/xmlwriter"
)

// c07stops: a call that is given several nodes does what one call for each
// would do, up to the first that is refused.
func c07stops(c *Ctx, i int) {
	r := c.R
	wk := newWalker(r)
	for k := r.Range(0, 15); k > 0; k-- {
		if r.P(80) {
			wk.step()
		} else {
			wk.end()
		}
	}
	p, opened := wk.parent()
	node := func(kinds ...string) *N { return wk.node(r.Pick(kinds...)) }
	broken := func(kinds ...string) *N {
		n := node(kinds...)
		switch n.K {
		case "comment", "ccontent":
			n.Data, n.Pieces = r.Pick("a--b", "\x00", "--", "a\xff"), nil
		case "cdata", "dcontent":
			n.Data, n.Pieces = r.Pick("a]]>b", "]]>", "\x01", "\xff"), nil
		case "pi":
			if r.Bool() {
				n.Name = r.Pick("xml", "1", "a b")
			} else {
				n.Data = r.Pick("?>", "\x00")
			}
		case "elem", "attr", "dtdelem", "entity":
			n.Name, n.Prefix, n.URI = r.Pick("", "1", "a b", "<"), "", ""
		case "attlist":
			n.Name = r.Pick("", "1", "a b")
		case "dtdattr":
			n.Type = ""
		case "notation":
			n.Sys, n.Pub = "", ""
		default:
			return nil
		}
		return n
	}
	// the nodes, of which one is refused
	list := func(first int, kinds ...string) []*N {
		n := r.Range(first+1, 6)
		bad := r.Range(first, n-1)
		var l []*N
		for k := 0; k < n; k++ {
			m := node(kinds...)
			if k == bad {
				if m = broken(kinds...); m == nil {
					// refused for its place
					m = &N{K: r.Pick("dtdattr", "ccontent", "dcontent"), Name: "a", Type: "CDATA", Data: "x"}
					if kinds[0] == "ccontent" || kinds[0] == "dcontent" || kinds[0] == "dtdattr" {
						m = &N{K: "text", Data: "x"}
					}
				}
			}
			l = append(l, m)
		}
		return l
	}
	var one func(w *xw.Writer) error
	var many []func(w *xw.Writer) error
	var what string
	each := func(l []*N) {
		for _, n := range l {
			n := n
			many = append(many, func(w *xw.Writer) error { return w.Write(n.writable()) })
		}
	}
	writables := func(l []*N) (v []xw.Writable) {
		for _, n := range l {
			v = append(v, n.writable())
		}
		return v
	}
	var kinds []string
	for _, k := range []string{"elem", "text", "comment", "cdata", "pi", "dtdelem", "entity", "notation", "attlist", "dtdattr", "ccontent", "dcontent"} {
		if mayWrite(k, p, opened) {
			kinds = append(kinds, k)
		}
	}
	if p == "" {
		// anything may stand alone, one kind at a time
		kinds = []string{r.Pick("elem", "comment", "pi", "dtdelem", "entity", "attlist")}
	}
	inside := []string{"text", "elem", "comment", "cdata", "pi"}
	style := r.N(7)
	switch {
	case style == 0 && mayWrite("elem", p, opened):
		l := list(0, "elem")
		what = "Start"
		var v []xw.Startable
		for _, n := range l {
			n := n
			v = append(v, n.startable())
			many = append(many, func(w *xw.Writer) error { return w.Start(n.startable()) })
		}
		one = func(w *xw.Writer) error { return w.Start(v...) }
		c.Describe(func() string { return fmt.Sprintf("%s\nStart %s", opsString(wk.ops), dump(l)) })
	case style == 1 && mayWrite("attr", p, opened) && p == "elem":
		l := list(0, "attr")
		what = "WriteAttr"
		var v []xw.Attr
		for _, n := range l {
			n := n
			v = append(v, n.attr())
			many = append(many, func(w *xw.Writer) error { return w.WriteAttr(n.attr()) })
		}
		one = func(w *xw.Writer) error { return w.WriteAttr(v...) }
		if r.Bool() {
			one = func(w *xw.Writer) error { return w.Write(writables(l)...) }
		}
		c.Describe(func() string { return fmt.Sprintf("%s\nWriteAttr %s", opsString(wk.ops), dump(l)) })
	case style == 2 && mayWrite("elem", p, opened):
		e, l := &N{K: "elem", Name: "blk"}, list(0, inside...)
		what = "Block"
		one = func(w *xw.Writer) error { return w.Block(e.startable(), writables(l)...) }
		many = append(many, func(w *xw.Writer) error { return w.Start(e.startable()) })
		each(l)
		c.Describe(func() string { return fmt.Sprintf("%s\nBlock %s", opsString(wk.ops), dump(l)) })
	case style == 3 && mayWrite("elem", p, opened):
		// the first is fine, so that the element is opened
		l := list(1, "text", "elem", "comment", "cdata")
		e := &N{K: "elem", Name: "blk", Kids: l}
		what = "Content"
		one = func(w *xw.Writer) error { return w.WriteElem(e.elem()) }
		many = append(many, func(w *xw.Writer) error { return w.StartElem(xw.Elem{Name: "blk"}) })
		each(l)
		c.Describe(func() string { return fmt.Sprintf("%s\nWriteElem %s", opsString(wk.ops), dump(e)) })
	case style == 4 && mayWrite("elem", p, opened):
		l := list(0, "attr")
		e := &N{K: "elem", Name: "blk"}
		for _, a := range l {
			if a.K != "attr" {
				return
			}
			e.Attrs = append(e.Attrs, A{Prefix: a.Prefix, URI: a.URI, Name: a.Name, Value: a.Data})
		}
		what = "Attrs"
		one = func(w *xw.Writer) error { return w.StartElem(e.elem()) }
		if r.Bool() {
			one = func(w *xw.Writer) error { return w.WriteElem(e.elem()) }
		}
		many = append(many, func(w *xw.Writer) error { return w.StartElem(xw.Elem{Name: "blk"}) })
		for _, n := range l {
			n := n
			many = append(many, func(w *xw.Writer) error { return w.WriteAttr(n.attr()) })
		}
		c.Describe(func() string { return fmt.Sprintf("%s\nStartElem %s", opsString(wk.ops), dump(e)) })
	case style == 5 && mayWrite("attlist", p, opened):
		l := list(0, "dtdattr")
		for _, a := range l {
			if a.K != "dtdattr" {
				return
			}
		}
		d := &N{K: "attlist", Name: "blk", Kids: l}
		what = "DTDAttList"
		one = func(w *xw.Writer) error { return w.WriteDTDAttList(d.attlist()) }
		many = append(many, func(w *xw.Writer) error { return w.StartDTDAttList(xw.DTDAttList{Name: "blk"}) })
		each(l)
		c.Describe(func() string { return fmt.Sprintf("%s\nWriteDTDAttList %s", opsString(wk.ops), dump(d)) })
	case len(kinds) > 0:
		l := list(0, kinds...)
		what = "Write"
		one = func(w *xw.Writer) error { return w.Write(writables(l)...) }
		each(l)
		c.Describe(func() string { return fmt.Sprintf("%s\nWrite %s", opsString(wk.ops), dump(l)) })
	default:
		return
	}
	cfg := c.vary(Cfg{Buf: r.PickInt(0, 1, 32)})
	if r.P(30) {
		ind := r.Pick(" ", "\t")
		cfg.Indent = &ind
	}
	run := func(calls []func(w *xw.Writer) error) (string, int, error) {
		s := &capSink{}
		w := cfg.open(s)
		base := w.Depth()
		for k, o := range wk.ops {
			if err := runStep(w, o, base); (err != nil) != wk.fail[k] {
				c.Fail("call %d (%s) failed: %v", k, clip(o.String()), err)
			}
		}
		var err error
		for _, f := range calls {
			if err = f(w); err != nil {
				break
			}
		}
		if ferr := w.Flush(); ferr != nil {
			c.Fail("Flush: %v", ferr)
		}
		return s.String(), w.Depth(), err
	}
	a, ad, aerr := run([]func(w *xw.Writer) error{one})
	b, bd, berr := run(many)
	if aerr == nil || berr == nil {
		c.Fail("%s: not refused: %v at once, %v one by one", what, aerr, berr)
	}
	if a != b {
		c.Fail("%s: something else comes out up to the refused node than with one call for each: %s", what, diffAt(a, b))
	}
	if ad != bd {
		c.Fail("%s: the depth is %d, with one call for each it is %d", what, ad, bd)
	}
	c.Event("refused calls of "+what+" compared", 1)
	c.Distinct(what, a, opsString(wk.ops))
}
