package main

import (
	"fmt"
)

func init() {
	register(&Check{
		ID: "C01",
		Rule: "seeded trees (elements to depth 140 and, in documents beyond usual sizes, 6000, attributes, namespaces, text, comments, CDATA, PIs, DTDs with every declaration, hostile strings) " +
			"translated to programs in random API styles; non-trivial when the tree has at least two nodes; distinct by output",
		Assume: []string{"the harness's own XML 1.0 parser decides; it is cross-checked against expat and libxml2 when they are installed"},
		Suites: []Suite{
			{Name: "documents", Quick: 250000, Thor: 1500000, Run: c01doc},
			{Name: "depths", Quick: 1000, Thor: 4000, Run: c01depth},
			{Name: "big", Quick: 720, Thor: 7200, Run: c01big},
		},
	})
}

// judge runs a program and compares its document with the tree.
func judgeTree(c *Ctx, tops []*N, ops []Op, cfg Cfg) string {
	cfg = c.vary(cfg)
	out, err, at := runOps(ops, cfg)
	if err != nil {
		c.Fail("call %d (%s) failed: %v", at, clip(ops[at%len(ops)].String()), err)
	}
	toks, perr := parseXML(out)
	if perr != nil {
		c.Fail("%v\noutput: %s", perr, clip(fmt.Sprintf("%q", out)))
	}
	if d := firstDiff(expectedAll(tops, cfg), toks, false); d != "" {
		c.Fail("%s\noutput: %s", d, clip(fmt.Sprintf("%q", out)))
	}
	c.Event("api calls", len(ops))
	c.Event("bytes written", len(out))
	c.Event("tokens compared", len(toks))
	return out
}

func c01doc(c *Ctx, i int) {
	g := newG(c.R)
	g.Colons = true
	tops := g.document()
	ops := compile(c.R, tops, i%4 != 0)
	c.Describe(func() string { return "tree: " + dump(tops) + "\nprogram:\n" + opsString(ops) })
	out := judgeTree(c, tops, ops, Cfg{})
	if countNodes(tops) > 1 {
		c.Distinct(out)
	}
	if len(out) < 400 && len(out) > 80 {
		c.Sample("%s", out)
	}
}

// c01depth: chains of every depth, each level's content given by Content, by
// calls or both, so that the node stack grows inside of every operation.
func c01depth(c *Ctx, i int) {
	depth := 1 + i%200
	g := newG(c.R)
	g.Plain = true
	root := &N{K: "elem", Name: "r"}
	cur := root
	for k := 1; k < depth; k++ {
		e := &N{K: "elem", Name: fmt.Sprintf("e%d", k)}
		switch (i/200 + k) % 5 {
		case 0:
			cur.Kids = append(cur.Kids, &N{K: "text", Data: "t"}, e)
		case 1:
			cur.Kids = append(cur.Kids, e, &N{K: "comment", Pieces: []string{"c"}})
		case 2:
			cur.Kids = append(cur.Kids, &N{K: "elem", Name: "s", Kids: []*N{{K: "cdata", Pieces: []string{"x", "y"}}}}, e)
		default:
			cur.Kids = append(cur.Kids, e)
		}
		cur = e
	}
	var tail *N
	switch i % 4 {
	case 0:
		tail = &N{K: "comment", Pieces: []string{"deep"}}
	case 1:
		tail = &N{K: "cdata", Pieces: []string{"deep"}}
	case 2:
		tail = &N{K: "elem", Name: "z", Attrs: []A{{Name: "a", Value: "1"}}, Kids: []*N{{K: "text", Data: "deep"}}}
	}
	if tail != nil {
		cur.Kids = append(cur.Kids, tail)
	}
	tops := []*N{root}
	if i%3 == 0 {
		tops = []*N{{K: "doc", Kids: tops}}
	}
	ops := compile(c.R, tops, true)
	c.Describe(func() string { return fmt.Sprintf("depth %d\nprogram:\n%s", depth, opsString(ops)) })
	out := judgeTree(c, tops, ops, Cfg{})
	c.Distinct(out)
}
