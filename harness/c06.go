package main

import (
	"fmt"
)

func init() {
	register(&Check{
		ID: "C06",
		Rule: "seeded walks of starts, writes and ends of every form (with right, wrong and surplus names, depths and kinds, at every stack content) against a model of the stack: the verdict of each call, Depth() after it, " +
			"and the nodes and closing styles of the parsed output; EndToDepth whose last node is another one at every depth; non-trivial: at least one end; distinct by program",
		Assume: []string{"EndDoc with no document at the bottom of two or more nodes, how many inner nodes an EndToDepth that is refused at the last one has ended, and two names for nodes without a prefix are unspecified and not tried"},
		Suites: []Suite{
			{Name: "walks", Quick: 500000, Thor: 4000000, Run: c06walk},
			{Name: "deep", Quick: 10000, Thor: 60000, Run: c06deep},
			{Name: "tall", Quick: 600, Thor: 6000, Run: c06tall},
			{Name: "mismatch", Quick: 60000, Thor: 600000, Run: c06mismatch},
		},
	})
}

func c06run(c *Ctx, w *walker, cfg Cfg) {
	c.Describe(func() string { return "program (EndToDepth counts open nodes):\n" + opsString(w.ops) })
	cfg = c.vary(cfg)
	cfg.Newline = nil // it would be text in a fragment
	s := &capSink{}
	x := cfg.open(s)
	base := x.Depth()
	refused := 0
	for i, o := range w.ops {
		err := runStep(x, o, base)
		if err != nil && !w.fail[i] {
			c.Fail("call %d (%s) failed: %v", i, clip(o.String()), err)
		}
		if err == nil && w.fail[i] {
			c.Fail("call %d (%s) should have been refused", i, clip(o.String()))
		}
		if w.fail[i] {
			refused++
		}
		if d := x.Depth() - base; d != w.depth[i] {
			c.Fail("after call %d (%s) Depth() tells %d open nodes instead of %d", i, clip(o.String()), d, w.depth[i])
		}
	}
	if err := x.EndAllFlush(); err != nil {
		c.Fail("EndAllFlush failed: %v", err)
	}
	if x.Depth() != base {
		c.Fail("after EndAll Depth() is %d", x.Depth())
	}
	out := s.String()
	toks, err := parseFragment(out)
	if err != nil {
		c.Fail("%v\noutput: %s", err, clip(fmt.Sprintf("%q", out)))
	}
	if d := firstDiff(expectedAll(w.tops, cfg), toks, true); d != "" {
		c.Fail("%s\noutput: %s", d, clip(fmt.Sprintf("%q", out)))
	}
	c.Event("calls judged", len(w.ops))
	c.Event("ends refused", refused)
	c.Event("tokens compared", len(toks))
	c.Distinct(opsString(w.ops))
}

func c06walk(c *Ctx, i int) {
	w := newWalker(c.R)
	n := c.R.Range(2, 30)
	endP := c.R.PickInt(25, 45, 60)
	for k := 0; k < n; k++ {
		if c.R.P(endP) {
			w.end()
		} else {
			w.step()
		}
	}
	c06run(c, w, Cfg{NoStrict: c.R.P(20)})
	if i%20011 == 5 {
		c.Sample("%s", clip(opsString(w.ops)))
	}
}

// c06deep: long runs of starts followed by long runs of ends.
func c06deep(c *Ctx, i int) {
	w := newWalker(c.R)
	for phase := c.R.Range(1, 3); phase > 0; phase-- {
		n := c.R.Range(5, 60)
		for k := 0; k < n; k++ {
			w.step()
		}
		for k := c.R.N(n); k > 0; k-- {
			w.end()
		}
	}
	c06run(c, w, Cfg{NoStrict: c.R.P(20)})
}

// c06mismatch: EndToDepth whose last node is not what it says.
func c06mismatch(c *Ctx, i int) {
	w := newWalker(c.R)
	if c.R.P(20) {
		w = tallWalker(c, c.R.Range(1, 150))
	}
	for k := c.R.Range(1, 25); k > 0; k-- {
		w.step()
	}
	for len(w.stack) == 0 {
		w.step()
	}
	n := len(w.stack)
	cnt := c.R.Range(1, n)
	if c.R.Bool() && n > 3 {
		cnt = c.R.Range(1, 3)
	}
	last := w.stack[n-cnt].n
	o := Op{M: "EndToDepth", D: fmt.Sprint(n - cnt), I: int(kindOf[last.K])}
	named := last.K == "elem" || last.K == "dtd" || last.K == "attlist"
	other := func(s string) string {
		if c.R.Bool() || len(s) < 2 {
			return s + c.R.Pick("z", " ", "é")
		}
		return s[:len(s)-1]
	}
	switch {
	case named && c.R.P(40):
		o.S = []string{other(last.Name)}
	case last.K == "elem" && c.R.P(50):
		o.S = []string{last.Prefix, other(last.Name)}
		if c.R.Bool() {
			o.S = []string{last.Prefix + "q", last.Name}
		}
	default:
		k := c.R.anyKind()
		for k == last.K {
			k = c.R.anyKind()
		}
		o.I = int(kindNum(k))
		if named && c.R.Bool() && o.I == int(kindOf["elem"]) {
			o.S = []string{last.Name}
		}
	}
	c.Describe(func() string { return "program (EndToDepth counts open nodes):\n" + opsString(w.ops) + o.String() })
	x := c.vary(Cfg{NoStrict: i%5 == 0}).open(&capSink{})
	base := x.Depth()
	for k, p := range w.ops {
		if err := runStep(x, p, base); (err != nil) != w.fail[k] {
			c.Fail("call %d (%s): %v", k, clip(p.String()), err)
		}
	}
	if err := runStep(x, o, base); err == nil {
		c.Fail("%s should have been refused: the node at that depth is %s %q:%q", o, last.K, last.Prefix, last.Name)
	}
	if d := x.Depth() - base; d != n && d != n-cnt+1 {
		c.Fail("the refused %s left %d of %d nodes open, the one it did not match is number %d", o, d, n, n-cnt+1)
	}
	c.Event("EndToDepth refused at its last node", 1)
	c.Distinct(opsString(w.ops), o.String())
}
