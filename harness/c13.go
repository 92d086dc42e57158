package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID: "C13",
		Rule: "seeded walks (with refused calls) run once without Raw, recording the position of the output after every call, and again with Raw of arbitrary bytes inserted at seeded or at all points and in every form (direct, generic, inside variadic calls, inside Block); " +
			"the second output must be the first with exactly those bytes at those positions, and every verdict and Depth must be the same; non-trivial: at least one Raw while a node is open; distinct by program",
		Assume: []string{"no indenter; contents around a Raw inside a comment or CDATA section hold no '-' or ']'"},
		Suites: []Suite{
			{Name: "insertions", Quick: 300000, Thor: 3000000, Run: c13insert},
			{Name: "every-point", Quick: 20000, Thor: 200000, Run: c13every},
			{Name: "variadic", Quick: 150000, Thor: 1000000, Run: c13variadic},
			{Name: "big", Quick: 900, Thor: 9000, Run: c13big},
		},
	})
}

func (r *RNG) rawString() string {
	switch r.N(6) {
	case 0:
		return ""
	case 1:
		return r.anyString()
	case 2:
		return strings.Repeat("x", r.PickInt(1, 100, 2047, 2048, 2049, 5000))
	}
	return r.Pick("<raw/>", " r='1'", "<!--", "-->", ">", "\x00\xff", "&", "]]>", " ", "\r\n", "<?x ?>", "</a>")
}

type c13trace struct {
	out    string
	pos    []int // output length after each call
	errs   []string
	depths []int
}

func c13run(c *Ctx, ops []Op, cfg Cfg) c13trace {
	var t c13trace
	s := &capSink{}
	x := cfg.open(s)
	base := x.Depth()
	for _, o := range ops {
		err := runStep(x, o, base)
		if e := x.Flush(); e != nil {
			c.Fail("Flush: %v", e)
		}
		t.pos = append(t.pos, s.Len())
		t.errs = append(t.errs, fmt.Sprint(err))
		t.depths = append(t.depths, x.Depth())
	}
	t.out = s.String()
	return t
}

// rawOp writes raw in one of its forms.
func rawOp(r *RNG, s string) Op {
	if r.Bool() {
		return Op{M: "WriteRaw", D: s}
	}
	return Op{M: "Write", N: []*N{{K: "raw", Data: s}}}
}

func c13compare(c *Ctx, ops []Op, ref c13trace, at map[int][]string, cfg Cfg) {
	// at[i]: raws before call i
	var prog []Op
	var want strings.Builder
	var isRaw []bool
	p := 0
	for i := 0; i <= len(ops); i++ {
		for _, s := range at[i] {
			prog = append(prog, rawOp(c.R, s))
			isRaw = append(isRaw, true)
			want.WriteString(s)
		}
		if i < len(ops) {
			prog = append(prog, ops[i])
			isRaw = append(isRaw, false)
			want.WriteString(ref.out[p:ref.pos[i]])
			p = ref.pos[i]
		}
	}
	c.Describe(func() string {
		return fmt.Sprintf("config %s\nprogram (EndToDepth counts open nodes):\n%s", dump(cfg), opsString(prog))
	})
	s := &capSink{}
	x := cfg.open(s)
	base := x.Depth()
	k := 0
	depth := base
	for i, o := range prog {
		err := runStep(x, o, base)
		if isRaw[i] {
			if err != nil {
				c.Fail("call %d: Raw was refused: %v", i, err)
			}
		} else {
			if fmt.Sprint(err) != ref.errs[k] {
				c.Fail("call %d (%s) returns %v, without the Raw before it %s", i, clip(o.String()), err, ref.errs[k])
			}
			depth = ref.depths[k]
			k++
		}
		if x.Depth() != depth {
			c.Fail("call %d (%s) leaves Depth() %d, without the Raw before it %d", i, clip(o.String()), x.Depth(), depth)
		}
	}
	if err := x.Flush(); err != nil {
		c.Fail("Flush: %v", err)
	}
	if s.String() != want.String() {
		c.Fail("Raw changed more than what it inserts: %s", diffAt(want.String(), s.String()))
	}
	c.Eval(1)
	c.Event("calls compared", len(prog))
	c.Distinct(opsString(prog))
}

func c13walk(c *Ctx, n int) []Op {
	w := newWalker(c.R)
	for k := 0; k < n; k++ {
		if c.R.P(30) {
			w.end()
		} else {
			w.step()
		}
	}
	if c.R.Bool() {
		w.op(Op{M: "EndAll"}, false)
	}
	return w.ops
}

func c13cfg(c *Ctx) Cfg {
	return c.vary(Cfg{NoEnforce: c.R.P(20), NoStrict: c.R.P(20), Buf: c.R.PickInt(0, 0, 16, 64, 4096)})
}

func c13insert(c *Ctx, i int) {
	ops := c13walk(c, c.R.Range(2, 25))
	cfg := c13cfg(c)
	ref := c13run(c, ops, cfg)
	at := map[int][]string{}
	cnt := 0
	for k := c.R.Range(1, 6); k > 0; k-- {
		p := c.R.N(len(ops) + 1)
		at[p] = append(at[p], c.R.rawString())
		if p > 0 && ref.depths[p-1] >= 0 {
			cnt++
		}
	}
	c.Event("Raws inside an open node", cnt)
	c13compare(c, ops, ref, at, cfg)
	if i%10007 == 2 {
		c.Sample("%s with %s", clip(opsString(ops)), clip(dump(at)))
	}
}

func c13every(c *Ctx, i int) {
	ops := c13walk(c, c.R.Range(2, 12))
	cfg := c13cfg(c)
	ref := c13run(c, ops, cfg)
	raw := c.R.rawString()
	for p := 0; p <= len(ops); p++ {
		c13compare(c, ops, ref, map[int][]string{p: {raw}}, cfg)
	}
	all := map[int][]string{}
	for p := 0; p <= len(ops); p++ {
		all[p] = []string{raw}
	}
	c13compare(c, ops, ref, all, cfg)
}

// c13variadic: Raw among the nodes of one Write or Block call.
func c13variadic(c *Ctx, i int) {
	r := c.R
	w := newWalker(r)
	n := w.node("elem")
	var l []*N
	for k := r.Range(1, 6); k > 0; k-- {
		switch {
		case r.P(45):
			l = append(l, &N{K: "raw", Data: r.rawString()})
		case r.P(30):
			l = append(l, w.node("attr"))
		default:
			l = append(l, w.node(r.Pick("text", "elem", "comment", "cdata", "pi")))
		}
	}
	cfg := c13cfg(c)
	one := []Op{{M: "Block", N: append([]*N{n}, l...)}}
	many := []Op{{M: "Start", N: []*N{n}}}
	for _, k := range l {
		many = append(many, Op{M: "Write", N: []*N{k}})
	}
	many = append(many, Op{M: "EndElem"})
	two := []Op{{M: "Start", N: []*N{n}}, {M: "Write", N: l}, {M: "EndElem"}}
	c.Describe(func() string { return opsString(one) })
	a, ea, _ := runOps(one, cfg)
	b, eb, _ := runOps(many, cfg)
	d, ed, _ := runOps(two, cfg)
	if fmt.Sprint(ea) != fmt.Sprint(eb) || fmt.Sprint(ed) != fmt.Sprint(eb) || a != b || d != b {
		c.Fail("Block gives %q (%v), one Write %q (%v), single calls %q (%v)", clip(a), ea, clip(d), ed, clip(b), eb)
	}
	// each raw is there, in order
	p := 0
	if eb == nil {
		for _, k := range l {
			if k.K == "raw" {
				q := strings.Index(b[p:], k.Data)
				if q < 0 {
					c.Fail("%q is missing in %q", k.Data, clip(b))
				}
				p += q + len(k.Data)
			}
		}
	}
	c.Eval(2)
	c.Distinct(opsString(one))
}
