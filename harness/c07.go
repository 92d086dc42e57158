package main

import (
	"fmt"
)

func init() {
	register(&Check{
		ID: "C07",
		Rule: "each seeded tree is translated to one canonical program (one direct call per node) and several programs in random API styles (generic calls, Block, variadic, nested Content and Attrs, attribute lists, content in pieces, every form of End, explicit Flush); " +
			"all outputs must be byte-identical, plain and indented, and with Enforce or StrictChars off; a call given several nodes of which one is refused must leave what single calls up to it leave; non-trivial when two programs differ; distinct by program",
		Suites: []Suite{
			{Name: "styles", Quick: 60000, Thor: 1000000, Run: c07styles},
			{Name: "walks", Quick: 50000, Thor: 700000, Run: c07walks},
			{Name: "stops", Quick: 60000, Thor: 900000, Run: c07stops},
			{Name: "depths", Quick: 400, Thor: 2000, Run: c07depths},
			{Name: "big", Quick: 360, Thor: 3600, Run: c07big},
		},
	})
}

func c07compare(c *Ctx, tops []*N, styles int) {
	canon := compile(c.R, tops, false)
	cfgs := []Cfg{{}, {NoEnforce: true}, {NoStrict: true}}
	ind := c.R.Pick(" ", "\t", "  ", "")
	cfgs = append(cfgs, Cfg{Indent: &ind}, Cfg{Indent: &ind, NoEnforce: true, NoStrict: true})
	if c.R.P(30) {
		nl := c.R.Pick("\r\n", "", "\n\n")
		for i := range cfgs {
			cfgs[i].Newline = &nl
		}
	}
	for i := range cfgs {
		v := c.vary(cfgs[i])
		v.Newline, v.Version, v.Enc = cfgs[i].Newline, "", ""
		cfgs[i] = v
	}
	var progs [][]Op
	for k := 0; k < styles; k++ {
		progs = append(progs, compile(c.R, tops, true))
	}
	var ref [2]string
	for ci, cfg := range cfgs {
		indented := 0
		if cfg.Indent != nil {
			indented = 1
		}
		for pi, p := range append([][]Op{canon}, progs...) {
			out, err, at := runOps(p, cfg)
			if err != nil {
				c.Describe(func() string { return fmt.Sprintf("config %s\nprogram:\n%s", dump(cfg), opsString(p)) })
				c.Fail("call %d (%s) failed: %v", at, clip(p[at%len(p)].String()), err)
			}
			c.Eval(1)
			if pi == 0 && (ci == 0 || ci == 3) {
				ref[indented] = out
				continue
			}
			if out != ref[indented] {
				c.Describe(func() string {
					return fmt.Sprintf("tree %s\nconfig %s\nprogram:\n%s", clip(dump(tops)), dump(cfg), opsString(p))
				})
				c.Fail("style %d of config %d gives other bytes: %s", pi, ci, diffAt(ref[indented], out))
			}
			c.Event("bytes compared", len(out))
		}
	}
	for _, p := range progs {
		c.Distinct(opsString(p))
	}
	c.Event("programs compared", styles*len(cfgs))
}

// diffAt shows where two strings differ.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	st := i - 60
	if st < 0 {
		st = 0
	}
	cut := func(s string) string {
		if i+80 < len(s) {
			return s[st : i+80]
		}
		return s[st:]
	}
	return fmt.Sprintf("at byte %d (lengths %d and %d): %q against %q", i, len(a), len(b), cut(a), cut(b))
}

func c07styles(c *Ctx, i int) {
	g := newG(c.R)
	g.Colons = true
	if i%2 == 0 {
		g.Budget = g.R.Range(1, 12)
	}
	tops := g.document()
	c07compare(c, tops, 3)
	if i%5003 == 1 {
		c.Sample("%s", clip(dump(tops)))
	}
}

// c07walks: enforcement off gives the same for any accepted program.
func c07walks(c *Ctx, i int) {
	w := newWalker(c.R)
	for k := c.R.Range(3, 40); k > 0; k-- {
		if !c.R.P(35) {
			w.step()
			continue
		}
		n := len(w.ops)
		w.end()
		if len(w.ops) > n && w.fail[n] {
			w.ops, w.fail, w.depth = w.ops[:n], w.fail[:n], w.depth[:n]
		}
	}
	var ind *string
	if c.R.Bool() {
		s := "  "
		ind = &s
	}
	c.Describe(func() string { return opsString(w.ops) })
	ref, _ := observe(w.ops, Cfg{Indent: ind}, false, nil)
	for _, e := range ref.errs {
		if e != "<nil>" {
			c.Fail("a legal program failed: %s", e)
		}
	}
	for _, cfg := range []Cfg{{NoEnforce: true, Indent: ind}, {NoStrict: true, Indent: ind}, {NoEnforce: true, NoStrict: true, Indent: ind}} {
		o, _ := observe(w.ops, cfg, false, nil)
		if d := sameObs(ref, o); d != "" {
			c.Fail("with %s: %s", dump(cfg), d)
		}
	}
	c.Event("programs compared", 3)
	c.Distinct(opsString(w.ops))
}

func c07depths(c *Ctx, i int) {
	g := newG(c.R)
	g.Plain = true
	tops := []*N{g.chain(1 + i%100)}
	c07compare(c, tops, 3)
}
