package main

// A model of the stack of open nodes, and random walks over the API that keep
// track of what must happen.

import (
	"fmt"

	xw "github.com/shabbyrobe/xmlwriter"
)

// placement is where the documentation allows each kind; "" is no parent.
var placement = map[string][]string{
	"doc":      {""},
	"dtd":      {"", "doc"},
	"dtdelem":  {"", "dtd"},
	"attlist":  {"", "dtd"},
	"dtdattr":  {"", "attlist"},
	"entity":   {"", "dtd"},
	"notation": {"", "dtd"},
	"elem":     {"", "doc", "elem"},
	"attr":     {"", "elem"},
	"text":     {"", "elem"},
	"comment":  {"", "doc", "dtd", "elem"},
	"ccontent": {"", "comment"},
	"cdata":    {"", "elem"},
	"dcontent": {"", "cdata"},
	"pi":       {"", "doc", "elem"},
	"raw":      {"", "doc", "dtd", "attlist", "elem", "comment", "cdata"},
}

// mayWrite: kind k may be written into parent; attributes only while the start
// tag is open.
func mayWrite(k, parent string, opened bool) bool {
	if k == "attr" && parent == "elem" && opened {
		return false
	}
	for _, p := range placement[k] {
		if p == parent {
			return true
		}
	}
	return false
}

type frame struct {
	n      *N
	opened bool
}

// walker makes a random program and the tree it writes.
type walker struct {
	r     *RNG
	g     *G
	tops  []*N
	stack []frame
	ops   []Op
	fail  []bool // the call must fail (and change nothing)
	depth []int  // number of open nodes after each call
	uniq  int
	raws  bool
}

func newWalker(r *RNG) *walker {
	g := newG(r)
	g.Plain, g.NoNS = true, true
	return &walker{r: r, g: g}
}

func (w *walker) parent() (string, bool) {
	if len(w.stack) == 0 {
		return "", false
	}
	f := w.stack[len(w.stack)-1]
	return f.n.K, f.opened
}

func (w *walker) op(o Op, fail bool) {
	w.ops = append(w.ops, o)
	w.fail = append(w.fail, fail)
	w.depth = append(w.depth, len(w.stack))
}

// touch: the current node gets content.
func (w *walker) touch() {
	if k := len(w.stack) - 1; k >= 0 {
		f := &w.stack[k]
		f.opened = true
		if f.n.K == "elem" || f.n.K == "dtd" {
			f.n.Full = true
		}
	}
}

func (w *walker) add(n *N) {
	if k := len(w.stack) - 1; k >= 0 {
		w.stack[k].n.Kids = append(w.stack[k].n.Kids, n)
	} else {
		w.tops = append(w.tops, n)
	}
}

// node makes a node of a kind, complete with everything given in its fields.
func (w *walker) node(k string) *N {
	r := w.r
	name := r.Pick("a", "b", "c", "dd")
	switch k {
	case "doc":
		return &N{K: "doc", Standalone: r.N(3)}
	case "dtd":
		n := &N{K: "dtd", Name: name}
		if r.Bool() {
			n.Sys = "s"
		}
		return n
	case "attlist":
		n := &N{K: "attlist", Name: name}
		for i := r.N(3); i > 0; i-- {
			n.Kids = append(n.Kids, w.node("dtdattr"))
		}
		return n
	case "dtdattr":
		w.uniq++
		return &N{K: "dtdattr", Name: fmt.Sprintf("t%d", w.uniq), Type: "CDATA", Default: r.N(2), Data: r.Pick("v", "", "w")}
	case "dtdelem":
		return w.g.dtdelem()
	case "entity":
		return w.g.entity()
	case "notation":
		return w.g.notation()
	case "elem":
		n := &N{K: "elem", Name: name, Full: r.P(15)}
		if r.P(15) {
			n.Prefix = "p"
			if r.Bool() {
				n.URI = "urn:p"
			}
		} else if r.P(5) {
			n.URI = "urn:d"
		}
		for i := r.N(3); i > 0; i-- {
			w.uniq++
			n.Attrs = append(n.Attrs, A{Name: fmt.Sprintf("t%d", w.uniq), Value: r.Pick("", "v", "x y")})
		}
		if r.P(25) {
			for i := r.Range(1, 3); i > 0; i-- {
				k := r.Pick("text", "comment", "cdata", "elem")
				n.Kids = append(n.Kids, w.node(k))
			}
		}
		return n
	case "attr":
		w.uniq++
		return &N{K: "attr", Name: fmt.Sprintf("t%d", w.uniq), Data: r.Pick("", "v", "1 < 2")}
	case "text":
		return &N{K: "text", Data: r.Pick("t", "text", " ", "a&b", "\n", "é", "")}
	case "comment", "cdata":
		return &N{K: k, Data: r.Pick("", "c", "com", "x y", "é")}
	case "ccontent", "dcontent":
		return &N{K: k, Data: r.Pick("c", "p", "q r", "é", "")}
	case "raw":
		return &N{K: k, Data: r.Pick("c", "p", "q r", "é")}
	case "pi":
		return &N{K: "pi", Name: r.Pick("t", "u"), Data: r.Pick("", "d", "a b")}
	}
	panic("harness: node " + k)
}

// clone copies a node, its children and attributes.
func clone(n *N) *N {
	m := *n
	m.Kids, m.Attrs, m.Pieces = nil, append([]A(nil), n.Attrs...), append([]string(nil), n.Pieces...)
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, clone(k))
	}
	return &m
}

// treeNode is the node as it will be in the tree.
func treeNode(n *N) *N {
	m := clone(n)
	if m.K == "comment" || m.K == "cdata" {
		m.Pieces, m.Data = []string{m.Data}, ""
	}
	for i, k := range m.Kids {
		m.Kids[i] = treeNode(k)
	}
	return m
}

// content adds content written piecewise to the tree.
func (w *walker) content(n *N) {
	switch n.K {
	case "attr":
		if k := len(w.stack) - 1; k >= 0 {
			w.stack[k].n.Attrs = append(w.stack[k].n.Attrs, A{Prefix: n.Prefix, URI: n.URI, Name: n.Name, Value: n.Data})
		}
	case "ccontent", "dcontent":
		w.touch()
		p := w.stack[len(w.stack)-1].n
		p.Pieces = append(p.Pieces, n.Data)
	case "raw":
	default:
		w.touch()
		w.add(treeNode(n))
	}
}

// writeOps: the ways to write a node with one call.
func writeOps(r *RNG, n *N) Op {
	if r.Bool() {
		return Op{M: "Write", N: []*N{n}}
	}
	if m := contentMethod[n.K]; m != "" {
		return Op{M: m, D: n.Data}
	}
	if n.K == "attr" {
		return Op{M: "WriteAttr", N: []*N{n}}
	}
	if m := writeMethod[n.K]; m != "" {
		return Op{M: m, N: []*N{n}}
	}
	panic("harness: cannot write " + n.K)
}

func isWritable(k string) bool { return k != "doc" && k != "dtd" }

// choices are the kinds that make sense next, for a tree that parses.
func (w *walker) choices() []string {
	p, opened := w.parent()
	var l []string
	for _, k := range allKinds {
		if k == "raw" || !mayWrite(k, p, opened) {
			continue
		}
		if p == "" {
			switch k {
			case "attr", "dtdattr", "ccontent", "dcontent":
				continue
			case "doc":
				if len(w.tops) > 0 {
					continue
				}
			}
		}
		if k == "dtd" && p == "doc" && len(w.stack[len(w.stack)-1].n.Kids) > 0 && w.r.P(70) {
			continue
		}
		l = append(l, k)
		if k == "elem" {
			l = append(l, k, k)
		}
	}
	return l
}

// step makes one legal call that is not an end.
func (w *walker) step() {
	r := w.r
	l := w.choices()
	if len(l) == 0 || r.N(25) == 0 {
		if r.Bool() && len(w.stack) > 0 {
			w.touch()
			w.op(Op{M: "Next"}, false)
		} else {
			w.op(Op{M: "Flush"}, false)
		}
		return
	}
	k := pick(r, l)
	n := w.node(k)
	if isStartable(k) && (!isWritable(k) || r.P(60)) {
		w.touch()
		t := treeNode(n)
		w.add(t)
		w.stack = append(w.stack, frame{n: t})
		o := Op{M: "Start", N: []*N{n}}
		if r.Bool() {
			o.M = startMethod[k]
		}
		if k == "elem" && o.M == "Start" && r.P(20) && len(n.Kids) == 0 {
			// several at once
			w.touch()
			m := w.node("elem")
			u := treeNode(m)
			w.add(u)
			w.stack = append(w.stack, frame{n: u})
			o.N = append(o.N, m)
		}
		w.op(o, false)
		return
	}
	if k == "elem" || k == "comment" || k == "cdata" {
		if r.P(15) {
			// a block
			t := treeNode(n)
			w.touch()
			w.add(t)
			w.stack = append(w.stack, frame{n: t})
			o := Op{M: "Block", N: []*N{n}}
			for i := r.N(3); i > 0; i-- {
				var c *N
				switch k {
				case "elem":
					c = w.node(r.Pick("text", "comment", "pi", "cdata", "elem"))
				case "comment":
					c = w.node("ccontent")
				default:
					c = w.node("dcontent")
				}
				o.N = append(o.N, c)
				w.content(c)
			}
			w.stack = w.stack[:len(w.stack)-1]
			w.op(o, false)
			return
		}
	}
	w.content(n)
	w.op(writeOps(r, n), false)
}

// endOK: End(kind, names) must succeed.
func (w *walker) endOK(kind string, names []string) bool {
	if len(w.stack) == 0 {
		return false
	}
	n := w.stack[len(w.stack)-1].n
	if n.K != kind {
		return false
	}
	switch len(names) {
	case 0:
		return true
	case 1:
		return (kind == "elem" || kind == "dtd" || kind == "attlist") && n.Name == names[0]
	case 2:
		return kind == "elem" && n.Prefix == names[0] && n.Name == names[1]
	}
	return false
}

func (w *walker) pop(n int) { w.stack = w.stack[:len(w.stack)-n] }

// end makes one call that ends nodes, or must be refused.
func (w *walker) end() {
	r := w.r
	n := len(w.stack)
	kind := r.anyKind()
	var cur *N
	if n > 0 {
		cur = w.stack[n-1].n
		if r.P(75) {
			kind = cur.K
		}
	}
	names := func() []string {
		good := cur != nil && r.P(70)
		switch r.N(7) {
		case 0:
			if good {
				return []string{cur.Name}
			}
			return []string{r.Pick("a", "b", "", "p", "zz", "p:a")}
		case 1:
			if good {
				return []string{cur.Prefix, cur.Name}
			}
			if kind == "dtd" || kind == "attlist" {
				return []string{"zz"}
			}
			return []string{r.Pick("", "p", "a"), r.Pick("a", "b", "")}
		case 2:
			if r.P(20) {
				return []string{"a", "b", "c"}
			}
		}
		return nil
	}
	finish := func(o Op, ok bool, cnt int) {
		if ok {
			w.pop(cnt)
		}
		w.op(o, !ok)
	}
	switch r.N(14) {
	case 0:
		finish(Op{M: "EndAny"}, n > 0, 1)
	case 1:
		if r.P(30) {
			finish(Op{M: r.Pick("EndAll", "EndAllFlush")}, true, n)
		} else {
			w.step()
		}
	case 2:
		// EndDoc: everything down to the document
		if n > 0 && w.stack[0].n.K == "doc" {
			if r.P(40) {
				finish(Op{M: "EndDoc"}, true, n)
			}
		} else if n <= 1 {
			finish(Op{M: "EndDoc"}, false, 0)
		}
	case 3, 4, 5:
		// EndToDepth with the number of nodes that stay open
		switch {
		case n > 0 && r.P(75):
			cnt := r.Range(1, n)
			if r.P(60) && n > 3 {
				cnt = r.Range(1, 3)
			}
			last := w.stack[n-cnt].n
			kind := last.K
			var nm []string
			switch {
			case r.P(40) && (kind == "elem" || kind == "dtd" || kind == "attlist"):
				nm = []string{last.Name}
			case r.P(30) && kind == "elem":
				nm = []string{last.Prefix, last.Name}
			}
			ok := true
			if cnt == 1 && r.P(30) {
				// a mismatch with only one node to end is refused
				if len(nm) > 0 && r.Bool() {
					nm[len(nm)-1] += "z"
					ok = false
				} else {
					kind = r.anyKind()
					nm = nil
					ok = kind == last.K
				}
			}
			finish(Op{M: "EndToDepth", D: fmt.Sprint(n - cnt), I: int(kindNum(kind)), S: nm}, ok, cnt)
		default:
			// nothing was started since: refused
			finish(Op{M: "EndToDepth", D: fmt.Sprint(n + r.N(3)), I: int(kindNum(kind))}, false, 0)
		}
	case 6, 7, 8:
		nm := names()
		if len(nm) == 2 && (kind == "dtd" || kind == "attlist") {
			nm = nil
		}
		finish(Op{M: "End", I: int(kindNum(kind)), S: nm}, w.endOK(kind, nm), 1)
	case 9:
		k := r.Pick("dtd", "attlist", "comment", "cdata")
		finish(Op{M: endMethod[k]}, w.endOK(k, nil), 1)
	case 10:
		nm := names()
		ok := w.endOK("elem", nm)
		if ok {
			cur.Full = true
		}
		finish(Op{M: "EndElemFull", S: nm}, ok, 1)
	default:
		if cur != nil && cur.K != "elem" && r.P(80) {
			finish(Op{M: "EndAny"}, true, 1)
			return
		}
		nm := names()
		finish(Op{M: "EndElem", S: nm}, w.endOK("elem", nm), 1)
	}
}

// runStep makes the call; EndToDepth counts open nodes in programs of a
// walker, and base is what Depth() returns when no node is open.
func runStep(x *xw.Writer, o Op, base int) error {
	if o.M == "EndToDepth" {
		d := 0
		fmt.Sscan(o.D, &d)
		o.D = fmt.Sprint(base + d)
	}
	return call(x, o)
}

// tap is an Indenter that records what it is told.
type tap struct {
	events []tapEvent
	wraps  []string
	inner  xw.Indenter
	fail   int // fail at this event, counted from 1
	err    error
	at     func(w *xw.Writer, last, next xw.Event)
	wrap   func(s string) string
}

type tapEvent struct{ last, next xw.Event }

func (t *tap) Indent(w *xw.Writer, last xw.Event, next xw.Event) error {
	t.events = append(t.events, tapEvent{last, next})
	if t.at != nil {
		t.at(w, last, next)
	}
	if t.fail > 0 && len(t.events) == t.fail {
		return t.err
	}
	if t.inner != nil {
		return t.inner.Indent(w, last, next)
	}
	return nil
}

func (t *tap) Wrap(s string) string {
	t.wraps = append(t.wraps, s)
	if t.wrap != nil {
		return t.wrap(s)
	}
	return s
}
