package main

import (
	"fmt"
	"reflect"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C05",
		Rule: "matrix: every node kind, in every way of writing it, in every parent in every state, at depths 1 to 20 and after other nodes were ended, against the documented table; " +
			"insertion: legal programs with misplaced calls inserted at random points must give the same output, outcomes, depths and indenter events; non-trivial: all; distinct by (parent, state, kind, way) or by program",
		Suites: []Suite{
			{Name: "matrix", Quick: 20 * 24, Thor: 20 * 240, Run: c05matrix},
			{Name: "insertion", Quick: 160000, Thor: 2000000, Run: c05insert},
			{Name: "tall", Quick: 400, Thor: 4000, Run: c05tall},
		},
	})
}

// c05state is a way to reach a current node in a state.
type c05state struct {
	name   string
	parent string // "" none
	opened bool
	ops    []Op
}

func n1(n *N) []*N { return []*N{n} }

func c05states(r *RNG) []c05state {
	elem := &N{K: "elem", Name: "e"}
	start := func(n *N) Op {
		if r.Bool() {
			return Op{M: "Start", N: n1(n)}
		}
		return Op{M: startMethod[n.K], N: n1(n)}
	}
	text := Op{M: "WriteText", D: "t"}
	l := []c05state{
		{"none", "", false, nil},
		{"none after an element", "", false, []Op{start(elem), text, {M: "EndAny"}}},
		{"none after a comment", "", false, []Op{start(&N{K: "comment"}), {M: "EndAny"}}},
		{"none after a document", "", false, []Op{start(&N{K: "doc"}), {M: "EndAll"}}},
		{"doc", "doc", false, []Op{start(&N{K: "doc"})}},
		{"doc with content", "doc", true, []Op{start(&N{K: "doc"}), {M: "WriteComment", N: n1(&N{K: "comment", Data: "c"})}}},
		{"doc after dtd", "doc", true, []Op{start(&N{K: "doc"}), start(&N{K: "dtd", Name: "d"}), {M: "EndDTD"}}},
		{"dtd", "dtd", false, []Op{start(&N{K: "dtd", Name: "d"})}},
		{"dtd with content", "dtd", true, []Op{start(&N{K: "dtd", Name: "d"}), {M: "WriteDTDElem", N: n1(&N{K: "dtdelem", Name: "x", Data: "ANY"})}}},
		{"dtd in doc", "dtd", false, []Op{start(&N{K: "doc"}), start(&N{K: "dtd", Name: "d"})}},
		{"attlist", "attlist", false, []Op{start(&N{K: "attlist", Name: "l"})}},
		{"attlist in dtd with content", "attlist", true, []Op{start(&N{K: "dtd", Name: "d"}), start(&N{K: "attlist", Name: "l"}), {M: "WriteDTDAttr", N: n1(&N{K: "dtdattr", Name: "x", Type: "ID"})}}},
		{"elem", "elem", false, []Op{start(elem)}},
		{"elem with attribute", "elem", false, []Op{start(elem), {M: "WriteAttr", N: n1(&N{K: "attr", Name: "x", Data: "y"})}}},
		{"elem with text", "elem", true, []Op{start(elem), text}},
		{"elem with empty text", "elem", true, []Op{start(elem), {M: "WriteText"}}},
		{"elem with child", "elem", true, []Op{start(elem), start(elem), {M: "EndElem"}}},
		{"elem with comment", "elem", true, []Op{start(elem), {M: "WriteComment", N: n1(&N{K: "comment"})}}},
		{"elem with pi", "elem", true, []Op{start(elem), {M: "WritePI", N: n1(&N{K: "pi", Name: "p"})}}},
		{"elem after next", "elem", true, []Op{start(elem), {M: "Next"}}},
		{"elem in opened elem", "elem", false, []Op{start(elem), text, start(elem)}},
		{"elem with raw", "elem", false, []Op{start(elem), {M: "WriteRaw", D: " r"}}},
		{"elem after ended elem", "elem", false, []Op{start(elem), text, {M: "EndElem"}, start(elem)}},
		{"comment", "comment", false, []Op{start(&N{K: "comment"})}},
		{"comment with content", "comment", true, []Op{start(&N{K: "comment"}), {M: "WriteCommentContent", D: "c"}}},
		{"comment in elem", "comment", false, []Op{start(elem), start(&N{K: "comment", Data: "x"})}},
		{"comment in dtd", "comment", false, []Op{start(&N{K: "dtd", Name: "d"}), start(&N{K: "comment", Data: "x"})}},
		{"cdata", "cdata", false, []Op{start(&N{K: "cdata"})}},
		{"cdata with content", "cdata", true, []Op{start(elem), start(&N{K: "cdata"}), {M: "WriteCDataContent", D: "c"}}},
	}
	return l
}

// waysOf are the calls that write or start a node of a kind.
func waysOf(n *N) []Op {
	var l []Op
	if isStartable(n.K) {
		l = append(l, Op{M: "Start", N: n1(n)}, Op{M: startMethod[n.K], N: n1(n)}, Op{M: "Block", N: n1(n)})
	}
	if isWritable(n.K) {
		l = append(l, Op{M: "Write", N: n1(n)})
		if m := contentMethod[n.K]; m != "" {
			l = append(l, Op{M: m, D: n.Data})
		} else if n.K == "attr" {
			l = append(l, Op{M: "WriteAttr", N: n1(n)})
		} else {
			l = append(l, Op{M: writeMethod[n.K], N: n1(n)})
		}
	}
	return l
}

// observe runs ops and gives everything that can be observed.
type observation struct {
	errs   []string
	depths []int
	events []tapEvent
	out    string
}

func observe(ops []Op, cfg Cfg, tapped bool, skip map[int]bool) (observation, []error) {
	var o observation
	s := &capSink{}
	var t *tap
	if tapped {
		t = &tap{}
		if cfg.Indent != nil {
			si := xw.NewStandardIndenter()
			si.IndentString = *cfg.Indent
			t.inner = si
			cfg.Indent = nil
		}
		cfg.Indenter = t
	}
	x := cfg.open(s)
	base := x.Depth()
	var errs []error
	for i, op := range ops {
		d0 := x.Depth()
		e0 := 0
		if t != nil {
			e0 = len(t.events)
		}
		err := runStep(x, op, base)
		if skip[i] {
			errs = append(errs, err)
			if err != nil {
				if x.Depth() != d0 {
					panic(&failure{msg: fmt.Sprintf("call %d (%s) was rejected (%v) but changed Depth() from %d to %d", i, clip(op.String()), err, d0, x.Depth())})
				}
				if t != nil && len(t.events) != e0 {
					panic(&failure{msg: fmt.Sprintf("call %d (%s) was rejected (%v) but the indenter was told %v", i, clip(op.String()), err, t.events[e0:])})
				}
			}
			continue
		}
		o.errs = append(o.errs, fmt.Sprint(err))
		o.depths = append(o.depths, x.Depth()-base)
	}
	o.errs = append(o.errs, fmt.Sprint(x.EndAll()), fmt.Sprint(x.Flush()))
	if t != nil {
		o.events = t.events
	}
	o.out = s.String()
	return o, errs
}

func sameObs(a, b observation) string {
	if !reflect.DeepEqual(a.errs, b.errs) {
		return fmt.Sprintf("outcomes of later calls differ: %q without, %q with", clipq(a.errs), clipq(b.errs))
	}
	if !reflect.DeepEqual(a.depths, b.depths) {
		return fmt.Sprintf("depths differ: %v without, %v with", a.depths, b.depths)
	}
	if a.out != b.out {
		return fmt.Sprintf("output differs: %q without, %q with", clip(a.out), clip(b.out))
	}
	if !reflect.DeepEqual(a.events, b.events) {
		return fmt.Sprintf("indenter events differ: %v without, %v with", a.events, b.events)
	}
	return ""
}

func c05matrix(c *Ctx, i int) {
	w := newWalker(c.R)
	depth := i % 20
	states := c05states(c.R)
	for si := range states {
		st := &states[si]
		var pre []Op
		needsTop := len(st.ops) > 0 && (st.ops[0].M == "StartDTDAttList" || len(st.ops[0].N) > 0 && (st.ops[0].N[0].K == "doc" || st.ops[0].N[0].K == "dtd" || st.ops[0].N[0].K == "attlist"))
		if !needsTop && st.parent != "" {
			for k := 0; k < depth; k++ {
				pre = append(pre, Op{M: "StartElem", N: n1(&N{K: "elem", Name: fmt.Sprintf("d%d", k)})})
			}
		}
		pre = append(pre, st.ops...)
		for _, k := range allKinds {
			n := w.node(k)
			if k == "elem" && c.R.Bool() {
				n.Kids = []*N{{K: "text", Data: "inside"}}
			}
			want := mayWrite(k, st.parent, st.opened)
			for _, way := range waysOf(n) {
				o := way
				if o.M == "Write" && c.R.P(30) && !want {
					// what follows in the same call must not be written either
					o.N = append(append([]*N{}, o.N...), &N{K: "raw", Data: "UNWANTED"})
				}
				c.Describe(func() string {
					return fmt.Sprintf("state %q, kind %s\nprogram:\n%s", st.name, k, opsString(append(append([]Op{}, pre...), o)))
				})
				var probe []Op
				probe = append(append(probe, pre...), o)
				follow := c05follow(c.R, st.parent, st.opened)
				probe = append(probe, follow...)
				tapped := c.R.Bool()
				cfg := c.vary(Cfg{NoStrict: c.R.P(20)})
				if c.R.P(40) {
					s := " "
					cfg.Indent = &s
				}
				if want {
					_, errs := observe(probe[:len(pre)+1], cfg, tapped, map[int]bool{len(pre): true})
					if errs[0] != nil {
						c.Fail("%s in %s: rejected: %v", k, st.name, errs[0])
					}
					c.Event("accepted placements", 1)
				} else {
					with, errs := observe(probe, cfg, tapped, map[int]bool{len(pre): true})
					if errs[0] == nil {
						c.Fail("%s in %s: accepted by %s\noutput: %q", k, st.name, o.M, clip(with.out))
					}
					without, _ := observe(append(append([]Op{}, pre...), follow...), cfg, tapped, nil)
					if d := sameObs(without, with); d != "" {
						c.Fail("%s in %s, rejected by %s (%v), has an effect: %s", k, st.name, o.M, errs[0], d)
					}
					if strings.Contains(with.out, "UNWANTED") {
						c.Fail("%s in %s was rejected by %s, but the next node of the call was written", k, st.name, o.M)
					}
					c.Event("rejected placements", 1)
				}
				c.Eval(1)
				c.Distinct(st.name, k, way.M, fmt.Sprint(depth))
			}
		}
	}
}

// c05follow: legal calls after the rejected one.
func c05follow(r *RNG, parent string, opened bool) []Op {
	switch parent {
	case "elem":
		var l []Op
		if !opened {
			l = append(l, Op{M: "WriteAttr", N: n1(&N{K: "attr", Name: "later", Data: "v"})})
		}
		if r.Bool() {
			l = append(l, Op{M: "WriteText", D: "later"})
		}
		return append(l, Op{M: "EndElem"})
	case "comment":
		if r.Bool() {
			return []Op{{M: "EndComment"}}
		}
		return []Op{{M: "WriteCommentContent", D: "later"}, {M: "EndComment"}}
	case "cdata":
		if r.Bool() {
			return []Op{{M: "EndCData"}}
		}
		return []Op{{M: "WriteCDataContent", D: "later"}, {M: "EndCData"}}
	case "attlist":
		if r.Bool() {
			return []Op{{M: "EndDTDAttList"}}
		}
		return []Op{{M: "WriteDTDAttr", N: n1(&N{K: "dtdattr", Name: "later", Type: "ID"})}, {M: "EndDTDAttList"}}
	case "dtd":
		if r.Bool() {
			return []Op{{M: "EndDTD"}}
		}
		return []Op{{M: "WriteDTDElem", N: n1(&N{K: "dtdelem", Name: "later", Data: "ANY"})}, {M: "EndDTD"}}
	case "doc":
		return []Op{{M: "StartElem", N: n1(&N{K: "elem", Name: "later"})}, {M: "EndElem"}}
	}
	return nil
}

func c05insert(c *Ctx, i int) {
	w := newWalker(c.R)
	n := c.R.Range(3, 25)
	if c.R.N(10) == 0 {
		n = c.R.Range(25, 80)
	}
	c05mix(c, w, n)
	if i%9001 == 7 {
		c.Sample("%s", clip(opsString(w.ops)))
	}
}

// c05mix goes on with a program for n steps, with misplaced calls in between.
func c05mix(c *Ctx, w *walker, n int) {
	skip := map[int]bool{}
	insert := func() {
		p, opened := w.parent()
		if p == "" {
			return
		}
		for try := 0; try < 4; try++ {
			k := pick(c.R, allKinds)
			if k == "raw" || mayWrite(k, p, opened) {
				continue
			}
			nd := w.node(k)
			o := pick(c.R, waysOf(nd))
			skip[len(w.ops)] = true
			w.op(o, true)
			if c.R.P(70) {
				return
			}
		}
	}
	for k := 0; k < n; k++ {
		if c.R.P(40) {
			insert()
		}
		if c.R.P(30) {
			w.end()
		} else {
			w.step()
		}
	}
	if len(skip) == 0 {
		return
	}
	c.Describe(func() string { return fmt.Sprintf("misplaced calls: %v\nprogram:\n%s", skip, opsString(w.ops)) })
	var base []Op
	for k, o := range w.ops {
		if !skip[k] {
			base = append(base, o)
		}
	}
	cfg := c.vary(Cfg{NoStrict: c.R.P(20)})
	if c.R.Bool() {
		s := c.R.Pick(" ", "\t", "")
		cfg.Indent = &s
	}
	tapped := c.R.Bool()
	without, _ := observe(base, cfg, tapped, nil)
	with, errs := observe(w.ops, cfg, tapped, skip)
	for _, e := range errs {
		if e == nil {
			c.Fail("a misplaced call was accepted\noutput: %s", clip(with.out))
		}
	}
	if d := sameObs(without, with); d != "" {
		c.Fail("rejected calls have an effect: %s", d)
	}
	c.Event("misplaced calls rejected", len(skip))
	c.Event("outcomes compared", len(base))
	c.Distinct(opsString(w.ops))
}
