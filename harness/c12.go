package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C12",
		Rule: "a recording Indenter is told every transition while seeded programs (canonical, in random API styles, and free walks with refused ends, empty content and nodes around documents, alone or over the standard indenter) run; an online checker follows the trace the tree asks for, with the number of children of ended nodes, the bytes written between two calls are judged, " +
			"an error is injected at events of the trace and must come back from the call in progress, what the indenter writes with WriteRaw at transitions must be inserted there and change nothing else, and Wrap is replaced by a visible transformation; distinct by program",
		Suites: []Suite{
			{Name: "traces", Quick: 90000, Thor: 1500000, Run: c12traces},
			{Name: "walks", Quick: 60000, Thor: 900000, Run: c12walk},
			{Name: "errors", Quick: 25000, Thor: 300000, Run: c12errors},
			{Name: "wrap", Quick: 70000, Thor: 1000000, Run: c12wrap},
			{Name: "wrapped pieces", Quick: 70000, Thor: 1000000, Run: c12wrapPieces},
			{Name: "inject", Quick: 30000, Thor: 400000, Run: c12inject},
			{Name: "big", Quick: 720, Thor: 7200, Run: c12big},
		},
	})
}

// evGroup is a step of the expected trace.
type evGroup struct {
	state    xw.NodeState
	kind     xw.NodeKind
	min, max int
	judge    func(seg, before string) bool // the bytes up to the next step
	children int                           // what the event tells, or -1
}

func c12expect(l []evGroup, n *N, canon bool) []evGroup {
	kind := kindOf[n.K]
	leaf := func(j func(string, string) bool) {
		l = append(l, evGroup{xw.StateOpen, kind, 1, 1, j, -1})
	}
	starts := func(p string) func(string, string) bool {
		return func(s, _ string) bool { return strings.HasPrefix(s, p) }
	}
	is := func(p ...string) func(string, string) bool {
		return func(s, _ string) bool {
			for _, x := range p {
				if s == x {
					return true
				}
			}
			return false
		}
	}
	open := func(j func(string, string) bool) { l = append(l, evGroup{xw.StateOpen, kind, 1, 1, j, 0}) }
	opened := func(j func(string, string) bool) { l = append(l, evGroup{xw.StateOpened, kind, 1, 1, j, -1}) }
	ended := func(j func(string, string) bool) {
		cnt := -1
		if n.K == "elem" || n.K == "doc" || n.K == "dtd" || n.K == "attlist" {
			cnt = 0
			for _, k := range n.Kids {
				if k.K != "raw" {
					cnt++
				}
			}
		}
		l = append(l, evGroup{xw.StateEnded, kind, 1, 1, j, cnt})
	}
	kids := func() {
		for _, k := range n.Kids {
			l = c12expect(l, k, canon)
		}
	}
	text := func(want string) func(string, string) bool {
		return func(s, _ string) bool {
			toks, err := parseFragment(s)
			if err != nil {
				return false
			}
			if len(toks) == 0 {
				return sanitize(want) == ""
			}
			return len(toks) == 1 && toks[0].Kind == tkText && toks[0].Data == sanitize(want)
		}
	}
	switch n.K {
	case "doc":
		open(starts("<?xml "))
		opened(is(""))
		kids()
		ended(is(""))
	case "dtd":
		open(starts("<!DOCTYPE " + n.Name))
		if len(n.Kids) > 0 || n.Full {
			opened(is(" ["))
			kids()
			ended(is("]>"))
		} else {
			opened(is(""))
			ended(is(">"))
		}
	case "attlist":
		open(is("<!ATTLIST " + n.Name))
		opened(is(""))
		kids()
		ended(is(">"))
	case "dtdattr":
		leaf(starts(" " + n.Name + " "))
	case "dtdelem":
		leaf(is("<!ELEMENT " + n.Name + " " + n.Data + ">"))
	case "entity":
		leaf(starts("<!ENTITY "))
	case "notation":
		leaf(starts("<!NOTATION " + n.Name + " "))
	case "elem":
		open(starts("<" + n.full()))
		for _, a := range n.Attrs {
			l = append(l, evGroup{xw.StateOpen, xw.AttrNode, 1, 1, starts(" " + a.full() + `="`), -1})
		}
		if len(n.Kids) == 0 && !n.Full {
			opened(func(s, _ string) bool { return strings.HasSuffix(s, "/>") })
			ended(func(s, before string) bool { return s == "" && strings.HasSuffix(before, "/>") })
		} else {
			opened(func(s, _ string) bool { return strings.HasSuffix(s, ">") && !strings.HasSuffix(s, "/>") })
			kids()
			ended(is("</" + n.full() + ">"))
		}
	case "text":
		leaf(text(n.Data))
	case "raw":
		leaf(is(n.Data))
	case "comment", "cdata":
		ck, a, b := xw.CommentContentNode, "<!--", "-->"
		if n.K == "cdata" {
			ck, a, b = xw.CDataContentNode, "<![CDATA[", "]]>"
		}
		open(is(a))
		opened(is(""))
		pcs := n.Pieces
		if len(pcs) == 0 && n.Data != "" {
			pcs = []string{n.Data}
		}
		g := evGroup{xw.StateOpen, ck, 0, len(pcs), is(n.content()), -1}
		if canon && len(pcs) > 1 {
			g.min = len(pcs)
		} else if n.content() != "" {
			g.min = 1
		}
		l = append(l, g)
		ended(is(b))
	case "pi":
		leaf(func(s, _ string) bool {
			return strings.HasPrefix(s, "<?"+n.Name+" ") && strings.HasSuffix(s, n.Data+"?>")
		})
	default:
		panic("harness: c12expect " + n.K)
	}
	return l
}

func (e evGroup) String() string {
	return fmt.Sprintf("%s %s", e.kind.Name(), e.state.Name())
}

func c12traces(c *Ctx, i int) {
	g := newG(c.R)
	g.Plain = c.R.P(40)
	g.Colons = true
	if c.R.P(70) {
		g.Budget = c.R.Range(1, 14)
	}
	tops := g.document()
	c12trace(c, tops, c.R.P(35))
}

func c12trace(c *Ctx, tops []*N, canon bool) {
	ops := compile(c.R, tops, !canon)
	var exp []evGroup
	for _, n := range tops {
		exp = c12expect(exp, n, canon)
	}
	c12follow(c, ops, nil, exp, func(x *xw.Writer, o Op, base int) error { return call(x, o) })
}

// c12walk: programs of every kind of call, with refused ends, empty content,
// and nodes before and after documents.
func c12walk(c *Ctx, i int) {
	w := newWalker(c.R)
	endP := c.R.PickInt(15, 30, 45)
	for k := c.R.Range(2, 40); k > 0; k-- {
		p, opened := w.parent()
		if c.R.N(8) == 0 && (p == "" || opened && p != "comment" && p != "cdata") {
			// Raw is announced, but is nobody's child
			n := w.node("raw")
			if c.R.Bool() {
				n.Data = ""
			}
			w.add(n)
			w.op(writeOps(c.R, n), false)
			continue
		}
		if c.R.P(endP) {
			w.end()
		} else {
			w.step()
		}
	}
	w.op(Op{M: "EndAll"}, false)
	var exp []evGroup
	for _, n := range w.tops {
		exp = c12expect(exp, n, false)
	}
	c12follow(c, w.ops, w.fail, exp, runStep)
}

// c12follow runs a program and follows what the indenter is told.
func c12follow(c *Ctx, ops []Op, fail []bool, exp []evGroup, run func(x *xw.Writer, o Op, base int) error) {
	c.Describe(func() string { return opsString(ops) })
	t := &tap{}
	bytewise := c.R.P(70)
	s := &capSink{}
	var pos []int
	if bytewise {
		t.at = func(w *xw.Writer, _, _ xw.Event) {
			if err := w.Flush(); err != nil {
				c.Fail("Flush: %v", err)
			}
			pos = append(pos, s.Len())
		}
	} else if c.R.Bool() {
		t.inner = xw.NewStandardIndenter()
	}
	x := c.vary(Cfg{NoStrict: c.R.P(20), Indenter: t}).open(s)
	base := x.Depth()
	for k, o := range ops {
		if err := run(x, o, base); (err != nil) != (fail != nil && fail[k]) {
			c.Fail("call %d (%s) failed: %v", k, clip(o.String()), err)
		}
	}
	if err := x.Flush(); err != nil {
		c.Fail("Flush: %v", err)
	}
	out := s.String()
	pos = append(pos, len(out))
	trace := func(k int) string {
		a, b := k-4, k+5
		if a < 0 {
			a = 0
		}
		if b > len(t.events) {
			b = len(t.events)
		}
		var l []string
		for q := a; q < b; q++ {
			l = append(l, fmt.Sprintf("%d: %s %s +%d", q, t.events[q].next.Node.Name(), t.events[q].next.State.Name(), t.events[q].next.Children))
		}
		return strings.Join(l, ", ")
	}
	next := false
	for _, o := range ops {
		next = next || o.M == "Next"
	}
	// the trace
	k := 0
	for _, e := range exp {
		cnt, first := 0, k
		for k < len(t.events) && cnt < e.max && t.events[k].next.State == e.state && t.events[k].next.Node == e.kind {
			cnt++
			k++
		}
		if cnt < e.min {
			c.Fail("expected the indenter to be told %s as event %d, it was told %s", e, k, trace(k))
		}
		// an explicit Next counts as well
		if !next && e.children >= 0 && t.events[k-1].next.Children != e.children {
			c.Fail("event %d (%s) tells of %d children instead of %d; events: %s", k-1, e, t.events[k-1].next.Children, e.children, trace(k-1))
		}
		if bytewise && cnt > 0 {
			if seg := out[pos[first]:pos[k]]; !e.judge(seg, out[:pos[first]]) {
				c.Fail("the bytes written after event %d (%s) are %q; events: %s", first, e, clip(seg), trace(first))
			}
		}
		if cnt > 1 || e.max != 1 {
			c.Event("content announcements", cnt)
		}
	}
	if k != len(t.events) {
		c.Fail("surplus events: %s", trace(k))
	}
	// last is the previous transition
	prev := xw.Event{}
	for q, e := range t.events {
		if e.last != prev {
			c.Fail("event %d is told that the last transition was %s %s +%d instead of %s %s +%d; events: %s", q,
				e.last.Node.Name(), e.last.State.Name(), e.last.Children, prev.Node.Name(), prev.State.Name(), prev.Children, trace(q))
		}
		prev = e.next
		if !containerKind(prev.Node) {
			prev.State = xw.StateEnded
		}
	}
	c.Event("transitions checked", len(t.events))
	c.Distinct(opsString(ops))
	if c.i%5003 == 7 {
		c.Sample("%s -> %s", clip(out), trace(4))
	}
}

func containerKind(k xw.NodeKind) bool {
	switch k {
	case xw.DocNode, xw.DTDNode, xw.DTDAttListNode, xw.ElemNode, xw.CommentNode, xw.CDataNode:
		return true
	}
	return false
}

var errIndent = errors.New("indenter error injected by the harness")

func c12errors(c *Ctx, i int) {
	g := newG(c.R)
	g.Plain = true
	g.Budget = c.R.Range(1, 9)
	tops := g.document()
	ops := compile(c.R, tops, c.R.P(75))
	c.Describe(func() string { return opsString(ops) })
	cur := -1
	run := func(fail int) (*tap, int) {
		t := &tap{fail: fail, err: errIndent}
		if c.R.Bool() {
			t.inner = xw.NewStandardIndenter()
		}
		at := -1
		t.at = func(_ *xw.Writer, _, _ xw.Event) {
			if len(t.events) == fail {
				at = cur
			}
		}
		x := c.vary(Cfg{Indenter: t}).open(&capSink{})
		for k, o := range ops {
			cur = k
			err := call(x, o)
			if at >= 0 {
				if !errors.Is(err, errIndent) {
					e := t.events[fail-1].next
					c.Fail("the indenter failed on event %d (%s %s) during call %d (%s), which returned %v", fail-1, e.Node.Name(), e.State.Name(), k, clip(o.String()), err)
				}
				return t, k
			}
			if err != nil {
				c.Fail("call %d (%s) failed: %v", k, clip(o.String()), err)
			}
		}
		return t, -1
	}
	t, _ := run(0)
	n := len(t.events)
	step := 1
	if n > 60 {
		step = n / 60
	}
	for k := 1; k <= n; k += step {
		if _, at := run(k); at < 0 {
			c.Fail("event %d of %d did not come", k, n)
		}
		c.Eval(1)
		c.Event("indenter errors injected and returned", 1)
	}
	c.Distinct(opsString(ops))
}

func c12wrap(c *Ctx, i int) {
	g := newG(c.R)
	g.Plain = c.R.P(50)
	if c.R.P(70) {
		g.Budget = c.R.Range(1, 14)
	}
	tops := g.document()
	canon := c.R.P(40)
	if !canon {
		// in random styles pieces may be joined
		var walk func(l []*N)
		walk = func(l []*N) {
			for _, n := range l {
				if n.K == "comment" {
					n.Pieces = []string{n.content()}
				}
				walk(n.Kids)
			}
		}
		walk(tops)
	}
	ops := compile(c.R, tops, !canon)
	c.Describe(func() string { return opsString(ops) })
	f := func(s string) string {
		if s == "" {
			return ""
		}
		return "(" + s + ")\u00a7"
	}
	t := &tap{wrap: f}
	if c.R.P(30) {
		t.inner = nil
	}
	cfg := c.vary(Cfg{Indenter: t})
	out, err, at := runOps(ops, cfg)
	if err != nil {
		c.Fail("call %d failed: %v", at, err)
	}
	// the tree with wrapped content
	var wraps []string
	var conv func(n *N) *N
	conv = func(n *N) *N {
		m := *n
		m.Kids = nil
		switch n.K {
		case "text":
			wraps = append(wraps, n.Data)
			m.Data = f(n.Data)
		case "comment":
			m.Pieces = nil
			pcs := n.Pieces
			if len(pcs) == 0 {
				pcs = []string{n.Data}
			}
			for _, p := range pcs {
				if p != "" {
					wraps = append(wraps, p)
				}
				m.Pieces = append(m.Pieces, f(p))
			}
			m.Data = ""
		}
		for _, k := range n.Kids {
			m.Kids = append(m.Kids, conv(k))
		}
		return &m
	}
	var want []*N
	for _, n := range tops {
		want = append(want, conv(n))
	}
	toks, err := parseXML(out)
	if err != nil {
		c.Fail("%v\n%q", err, clip(out))
	}
	if d := firstDiff(expectedAll(want, cfg), toks, true); d != "" {
		c.Fail("wrapped content: %s\n%q", d, clip(out))
	}
	var got []string
	for _, s := range t.wraps {
		got = append(got, s)
	}
	nonEmpty := func(l []string) []string {
		var o []string
		for _, s := range l {
			if s != "" {
				o = append(o, s)
			}
		}
		return o
	}
	// in any order: a text is wrapped before its parent writes its Content field
	a, b := nonEmpty(got), nonEmpty(wraps)
	sort.Strings(a)
	sort.Strings(b)
	if fmt.Sprintf("%q", a) != fmt.Sprintf("%q", b) {
		c.Fail("Wrap was applied to %s instead of %s", clip(fmt.Sprintf("%q", a)), clip(fmt.Sprintf("%q", b)))
	}
	c.Event("contents wrapped", len(a))
	if len(a) > 0 {
		c.Distinct(opsString(ops))
	}
}

// injector writes marks with WriteRaw at some of the transitions it is told of.
type injector struct {
	c      *Ctx
	mark   func(k int) string
	inner  xw.Indenter
	events []tapEvent
	nested []tapEvent
	busy   bool
	err    error
}

func (t *injector) Indent(w *xw.Writer, last xw.Event, next xw.Event) error {
	if t.busy {
		t.nested = append(t.nested, tapEvent{last, next})
		return nil
	}
	k := len(t.events)
	t.events = append(t.events, tapEvent{last, next})
	if m := t.mark(k); m != "" {
		t.busy = true
		n, d := len(t.nested), w.Depth()
		err := w.WriteRaw(m)
		t.busy = false
		if err != nil {
			return err
		}
		if len(t.nested) != n+1 || t.nested[n].next.Node != xw.RawNode || t.nested[n].next.State != xw.StateOpen {
			t.c.Fail("a Raw written by the indenter at event %d was announced as %v", k, t.nested[n:])
		}
		if w.Depth() != d {
			t.c.Fail("a Raw written by the indenter at event %d changed the depth from %d to %d", k, d, w.Depth())
		}
		t.c.Event("pieces written by the indenter", 1)
	}
	if t.inner != nil {
		return t.inner.Indent(w, last, next)
	}
	return nil
}

func (t *injector) Wrap(s string) string { return s }

// c12inject: an indenter that writes something itself.
func c12inject(c *Ctx, i int) {
	g := newG(c.R)
	g.Plain = c.R.P(50)
	g.Budget = c.R.Range(1, 14)
	if c.R.P(15) {
		g.Budget = c.R.Range(15, 60)
	}
	ops := compile(c.R, g.document(), c.R.P(65))
	c.Describe(func() string { return opsString(ops) })
	inner := func() xw.Indenter { return nil }
	if c.R.Bool() {
		inner = func() xw.Indenter { return xw.NewStandardIndenter() }
	}
	run := func(ind xw.Indenter) string {
		s := &capSink{}
		cfg := c.vary(Cfg{Indenter: ind})
		cfg.Newline, cfg.Version, cfg.Enc = nil, "", ""
		x := cfg.open(s)
		for k, o := range ops {
			if err := call(x, o); err != nil {
				c.Fail("call %d (%s) failed: %v", k, clip(o.String()), err)
			}
		}
		if err := x.Flush(); err != nil {
			c.Fail("Flush: %v", err)
		}
		return s.String()
	}
	// where the events are
	var pos []int
	t := &tap{inner: inner()}
	{
		s := &capSink{}
		t.at = func(w *xw.Writer, _, _ xw.Event) {
			if err := w.Flush(); err != nil {
				c.Fail("Flush: %v", err)
			}
			pos = append(pos, s.Len())
		}
		cfg := c.vary(Cfg{Indenter: t})
		cfg.Newline, cfg.Version, cfg.Enc = nil, "", ""
		x := cfg.open(s)
		for k, o := range ops {
			if err := call(x, o); err != nil {
				c.Fail("call %d (%s) failed: %v", k, clip(o.String()), err)
			}
		}
	}
	plain := run(&tap{inner: inner()})
	// marks at some of them
	marks := make([]string, len(pos))
	p := c.R.PickInt(5, 30, 100)
	some := false
	for k := range marks {
		if c.R.P(p) {
			marks[k] = fmt.Sprintf("{%d}", k)
			if c.R.N(4) == 0 {
				marks[k] = c.R.Pick("\n\t", " ", "<!---->", "]]>", "-", "\x00")
			}
			some = true
		}
	}
	if !some {
		return
	}
	var want strings.Builder
	at := 0
	for k, m := range marks {
		want.WriteString(plain[at:pos[k]])
		want.WriteString(m)
		at = pos[k]
	}
	want.WriteString(plain[at:])
	in := &injector{c: c, inner: inner()}
	in.mark = func(k int) string {
		if k >= len(marks) {
			c.Fail("event %d is one more than without the pieces written by the indenter", k)
		}
		return marks[k]
	}
	if out := run(in); out != want.String() {
		c.Fail("the pieces written by the indenter are not where it wrote them:\n%s", diffAt(out, want.String()))
	}
	if len(in.events) != len(t.events) {
		c.Fail("%d events instead of %d", len(in.events), len(t.events))
	}
	for k, e := range in.events {
		if e != t.events[k] {
			c.Fail("event %d is %v instead of %v", k, e, t.events[k])
		}
	}
	c.Event("transitions checked", len(in.events))
	c.Distinct(opsString(ops))
}

// c12wrapPieces: comments in several pieces, of which the first may be the
// Content of the node that is started: every piece is wrapped once.
func c12wrapPieces(c *Ctx, i int) {
	const mark = "\u00a7"
	g := newG(c.R)
	g.Plain = c.R.P(50)
	g.Budget = c.R.Range(1, 20)
	tops := g.document()
	pieces := 0
	var clean func(l []*N)
	clean = func(l []*N) {
		for _, n := range l {
			n.Data = strings.ReplaceAll(n.Data, mark, "")
			n.Sys = strings.ReplaceAll(n.Sys, mark, "")
			n.URI = strings.ReplaceAll(n.URI, mark, "")
			for k := range n.Attrs {
				n.Attrs[k].Value = strings.ReplaceAll(n.Attrs[k].Value, mark, "")
				n.Attrs[k].URI = strings.ReplaceAll(n.Attrs[k].URI, mark, "")
			}
			for k := range n.Pieces {
				n.Pieces[k] = strings.ReplaceAll(n.Pieces[k], mark, "")
			}
			if n.K == "comment" && len(n.Pieces) == 1 && c.R.P(60) {
				n.Pieces = c.R.split(n.Pieces[0], c.R.Range(2, 3))
			}
			clean(n.Kids)
		}
	}
	clean(tops)
	ops := compile(c.R, tops, true)
	c.Describe(func() string { return opsString(ops) })
	var want []string
	add := func(s string) {
		if s != "" {
			want = append(want, s)
		}
	}
	var nodes func(l []*N)
	nodes = func(l []*N) {
		for _, n := range l {
			switch n.K {
			case "text":
				add(n.Data)
			case "ccontent":
				add(n.Data)
				pieces++
			case "comment":
				add(n.content())
			}
			nodes(n.Kids)
		}
	}
	for _, o := range ops {
		switch o.M {
		case "WriteText":
			add(o.D)
		case "WriteCommentContent":
			add(o.D)
			pieces++
		}
		nodes(o.N)
	}
	t := &tap{wrap: func(s string) string {
		if s == "" {
			return ""
		}
		return s + mark
	}}
	cfg := c.vary(Cfg{Indenter: t})
	out, err, at := runOps(ops, cfg)
	if err != nil {
		c.Fail("call %d failed: %v", at, err)
	}
	n := strings.Count(out, mark)
	toks, err := parseXML(strings.ReplaceAll(out, mark, ""))
	if err != nil {
		c.Fail("%v\n%q", err, clip(out))
	}
	if d := firstDiff(expectedAll(tops, cfg), toks, true); d != "" {
		c.Fail("wrapped content: %s\n%q", d, clip(out))
	}
	var got []string
	for _, s := range t.wraps {
		if s != "" {
			got = append(got, s)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		c.Fail("Wrap was applied to %s instead of %s", clip(fmt.Sprintf("%q", got)), clip(fmt.Sprintf("%q", want)))
	}
	if n != len(want) {
		c.Fail("the output has %d wrapped pieces instead of %d\n%q", n, len(want), clip(out))
	}
	c.Event("contents wrapped", n)
	c.Event("pieces of comments wrapped on their own", pieces)
	if n > 0 {
		c.Distinct(opsString(ops))
	}
}
