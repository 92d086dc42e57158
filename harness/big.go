package main

// Documents beyond every size a program is likely to be tuned for: wide, tall,
// with long contents, long names, many attributes, many declarations and many
// pieces. The sizes lie on both sides of powers of two.

import (
	"fmt"
	"strings"
)

// bigSize picks a size up to max, most often next to a power of two.
func bigSize(r *RNG, min, max int) int {
	for {
		n := 1 << uint(r.Range(5, 21))
		switch r.N(4) {
		case 0:
			n += r.Range(-2, 2)
		case 1:
			n = n*3/2 + r.Range(-2, 2)
		case 2:
			n = r.PickInt(100, 1000, 10000, 100000, 1000000, 200, 500, 5000) + r.Range(-1, 1)
		default:
			n += r.Range(0, 40)
		}
		if n >= min && n <= max {
			return n
		}
	}
}

// bigText is content of n bytes or a few more, with characters that need
// escaping, multi-byte characters and plain runs at the size's end.
func bigText(r *RNG, n int, plain bool) string {
	unit := "some text, "
	tail := "the end"
	if !plain {
		unit = r.Pick("x", "text & <more> ", "é", "\U0001F4A9€", "\"quoted\" 'text' ", "]] > ", "ab\n", "&", "plain text without anything special ")
		tail = r.Pick("<end>&", "é", "\"", "\U0001F4A9", "z", "]]>", "\r")
	}
	k := n - len(tail)
	if k < 0 {
		k = 0
	}
	var b strings.Builder
	b.WriteString(strings.Repeat("p", k%len(unit)))
	b.WriteString(strings.Repeat(unit, k/len(unit)))
	b.WriteString(tail)
	return b.String()
}

// bigName is a name of n bytes.
func bigName(r *RNG, n int) string {
	return "n" + strings.Repeat(r.Pick("a", "name-", "x.y_z"), n)[:n-1] + r.Pick("", "é", "-", "7")
}

var bigShapes = []string{"wide", "tall", "attrs", "long", "pieces", "names", "decls", "wide-elems", "siblings"}

// bigTree makes a document of one of the shapes. With pure, contents are plain
// and elements are not mixed with text.
func bigTree(r *RNG, shape string, scale int, pure bool) []*N {
	root := &N{K: "elem", Name: "r"}
	tops := []*N{root}
	lim := func(n int) int { return n / scale }
	switch shape {
	case "wide":
		n := bigSize(r, 60, lim(70000))
		for i := 0; i < n; i++ {
			k := &N{K: "elem", Name: "k"}
			if !pure {
				switch i % 7 {
				case 1:
					k = &N{K: "text", Data: "t"}
				case 3:
					k = &N{K: "comment", Pieces: []string{"c"}}
				case 5:
					k = &N{K: "pi", Name: "p", Data: "d"}
				}
			}
			root.Kids = append(root.Kids, k)
		}
	case "wide-elems", "siblings":
		n := bigSize(r, 60, lim(70000))
		for i := 0; i < n; i++ {
			k := &N{K: "elem", Name: "k"}
			if shape == "siblings" {
				k.Kids = []*N{{K: "text", Data: "t"}}
				k.Attrs = []A{{Name: "i", Value: fmt.Sprint(i)}}
			}
			root.Kids = append(root.Kids, k)
		}
	case "tall":
		n := bigSize(r, 90, lim(6000))
		cur := root
		for i := 1; i < n; i++ {
			k := &N{K: "elem", Name: fmt.Sprintf("e%d", i)}
			if i%50 == 7 {
				k.Attrs = []A{{Name: "d", Value: fmt.Sprint(i)}}
			}
			if !pure && i%31 == 3 {
				cur.Kids = append(cur.Kids, &N{K: "text", Data: "t"})
			}
			cur.Kids = append(cur.Kids, k)
			if pure && i%43 == 3 {
				cur.Kids = append(cur.Kids, &N{K: "elem", Name: "s"})
			} else if !pure && i%43 == 3 {
				cur.Kids = append(cur.Kids, &N{K: "comment", Pieces: []string{"after"}})
			}
			cur = k
		}
		cur.Kids = append(cur.Kids, &N{K: "text", Data: "deep"})
	case "attrs":
		n := bigSize(r, 60, lim(3000))
		for i := 0; i < n; i++ {
			root.Attrs = append(root.Attrs, A{Name: fmt.Sprintf("a%d", i), Value: fmt.Sprintf("%d & <", i)})
		}
		root.Kids = []*N{{K: "elem", Name: "k", Attrs: []A{{Name: "z", Value: "1"}}}}
	case "long":
		n := bigSize(r, 2000, lim(2500000))
		legal := func() string { return legalChars(bigText(r, n, pure), true) }
		switch r.N(6) {
		case 0:
			root.Kids = []*N{{K: "text", Data: bigText(r, n, pure)}}
		case 1:
			root.Attrs = []A{{Name: "a", Value: strings.Trim(bigText(r, n, pure), "\r")}, {Name: "b", Value: "2"}}
		case 2:
			root.Kids = []*N{{K: "comment", Pieces: []string{without(strings.ReplaceAll(legal(), "-", "_"), "--")}}}
		case 3:
			root.Kids = []*N{{K: "cdata", Pieces: []string{without(legal(), "]]>")}}}
		case 4:
			root.Kids = []*N{{K: "pi", Name: "p", Data: without(legal(), "?>")}}
		case 5:
			d := &N{K: "dtd", Name: "r", Kids: []*N{{K: "entity", Name: "e", Data: without(without(bigText(r, n, true), "&"), "%")}}}
			tops = []*N{{K: "doc", Kids: []*N{d, root}}}
		}
		root.Kids = append(root.Kids, &N{K: "elem", Name: "after"})
	case "pieces":
		n := bigSize(r, 60, lim(70000))
		k := &N{K: r.Pick("comment", "cdata")}
		last := r.Pick("é", "qq")
		if pure {
			last = "qq"
		}
		for i := 0; i < n; i++ {
			k.Pieces = append(k.Pieces, r.Pick("p", "piece ", last))
		}
		root.Kids = []*N{k, {K: "elem", Name: "after"}}
	case "names":
		n := bigSize(r, 60, lim(100000))
		name := func() string {
			s := bigName(r, n)
			if pure {
				s = strings.ReplaceAll(s, "é", "e")
			}
			return s
		}
		root.Name = name()
		root.Kids = []*N{{K: "elem", Name: name(), Attrs: []A{{Name: name(), Value: "v"}}, Kids: []*N{{K: "pi", Name: name(), Data: "d"}}}}
	case "decls":
		n := bigSize(r, 60, lim(5000))
		d := &N{K: "dtd", Name: "r", Sys: "s"}
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				d.Kids = append(d.Kids, &N{K: "entity", Name: fmt.Sprintf("e%d", i), Data: "v"})
			case 1:
				d.Kids = append(d.Kids, &N{K: "dtdelem", Name: fmt.Sprintf("l%d", i), Data: "ANY"})
			case 2:
				d.Kids = append(d.Kids, &N{K: "notation", Name: fmt.Sprintf("n%d", i), Sys: "s"})
			default:
				d.Kids = append(d.Kids, &N{K: "comment", Pieces: []string{"c"}})
			}
		}
		l := &N{K: "attlist", Name: "r"}
		for i := 0; i < n/4; i++ {
			l.Kids = append(l.Kids, &N{K: "dtdattr", Name: fmt.Sprintf("a%d", i), Type: "CDATA", Default: 1})
		}
		d.Kids = append(d.Kids, l)
		tops = []*N{{K: "doc", Kids: []*N{d, root}}}
	}
	if tops[0].K != "doc" && r.Bool() {
		tops = []*N{{K: "doc", Kids: tops}}
	}
	return tops
}

func bigEvent(c *Ctx, shape string, tops []*N, bytes int) {
	c.Event("big documents: "+shape, 1)
	c.Event("nodes of big documents", countNodes(tops))
	c.Event("bytes of big documents", bytes)
}

func c01big(c *Ctx, i int) {
	shape := bigShapes[i%len(bigShapes)]
	tops := bigTree(c.R, shape, 1, false)
	ops := compile(c.R, tops, i/len(bigShapes)%3 != 0)
	c.Describe(func() string { return "shape " + shape + "\nprogram:\n" + opsString(ops) })
	var cfg Cfg
	cfg.Buf = c.R.PickInt(0, 0, 1, 4096)
	out := judgeTree(c, tops, ops, cfg)
	bigEvent(c, shape, tops, len(out))
	c.Distinct(out)
}

func c07big(c *Ctx, i int) {
	shape := bigShapes[i%len(bigShapes)]
	tops := bigTree(c.R, shape, 2, false)
	c07compare(c, tops, 3)
	bigEvent(c, shape, tops, 0)
}

func c10big(c *Ctx, i int) {
	shape := bigShapes[i%len(bigShapes)]
	tops := bigTree(c.R, shape, 4, true)
	if shape == "long" {
		root := tops[len(tops)-1]
		for root.K != "elem" {
			root = root.Kids[len(root.Kids)-1]
		}
		root.Attrs = append(root.Attrs, A{Name: "long", Value: strings.Trim(bigText(c.R, bigSize(c.R, 2000, 300000), false), "\r")})
		root.Kids = append(root.Kids, &N{K: "text", Data: bigText(c.R, bigSize(c.R, 2000, 600000), false)})
	}
	c10check(c, encInfos[i/len(bigShapes)%len(encInfos)], tops, Cfg{Buf: c.R.PickInt(0, 0, 16, 1000, 100000)})
	c.Event("big documents: "+shape, 1)
}

func c11big(c *Ctx, i int) {
	shape := bigShapes[i%len(bigShapes)]
	tops := bigTree(c.R, shape, 2, false)
	if shape == "tall" {
		tops = bigTree(c.R, shape, 8, false)
	}
	_, _, out := c11pair(c, compile(c.R, tops, c.R.P(80)), c11cfg(c), false)
	bigEvent(c, shape, tops, len(out))
}

func c11biglayout(c *Ctx, i int) {
	shape := []string{"wide-elems", "tall", "siblings", "attrs", "tall"}[i%5]
	scale := 1
	if shape == "tall" {
		scale = 3
	}
	tops := bigTree(c.R, shape, scale, true)
	if shape == "attrs" {
		for k, a := range tops[0].Attrs {
			tops[0].Attrs[k].Value = strings.Trim(a.Value, "<&")
		}
	}
	c11judgeLayout(c, tops, c11cfg(c))
	bigEvent(c, shape, tops, 0)
}

func c12big(c *Ctx, i int) {
	shape := bigShapes[i%len(bigShapes)]
	scale := 1
	if shape == "long" {
		scale = 4
	}
	tops := bigTree(c.R, shape, scale, true)
	c12trace(c, tops, i/len(bigShapes)%3 == 0)
	bigEvent(c, shape, tops, 0)
}

// c13big: Raw at a few points of a big document.
func c13big(c *Ctx, i int) {
	shape := bigShapes[i%len(bigShapes)]
	tops := bigTree(c.R, shape, 16, false)
	ops := compile(c.R, tops, true)
	for k := range ops {
		if ops[k].M == "EndToDepth" {
			// depths of programs of a walker count open nodes
			d := 0
			fmt.Sscan(ops[k].D, &d)
			ops[k].D = fmt.Sprint(d + 1)
		}
	}
	cfg := Cfg{NoEnforce: c.R.P(30)}
	ref := c13run(c, ops, cfg)
	for _, e := range ref.errs {
		if e != "<nil>" {
			c.Fail("a legal program failed: %s", e)
		}
	}
	at := map[int][]string{}
	for k := c.R.Range(1, 30); k > 0; k-- {
		p := c.R.N(len(ops) + 1)
		s := c.R.rawString()
		if c.R.N(6) == 0 {
			s = bigText(c.R, bigSize(c.R, 60, 300000), false)
		}
		at[p] = append(at[p], s)
	}
	c13compare(c, ops, ref, at, cfg)
	c.Event("big documents: "+shape, 1)
}

// --- stacks as tall as wanted ---

// tallWalker has n open elements.
func tallWalker(c *Ctx, n int) *walker {
	w := newWalker(c.R)
	for k := 0; k < n; k++ {
		e := &N{K: "elem", Name: w.r.Pick("a", "b", "c", "dd")}
		if w.r.P(20) {
			e.Prefix = "p"
		}
		w.touch()
		t := treeNode(e)
		w.add(t)
		w.stack = append(w.stack, frame{n: t})
		w.op(Op{M: c.R.Pick("StartElem", "Start"), N: n1(e)}, false)
	}
	return w
}

// c06tall: ends of every form at every level of a stack far deeper than usual.
func c06tall(c *Ctx, i int) {
	w := tallWalker(c, bigSize(c.R, 60, 6000))
	for len(w.stack) > 0 && len(w.ops) < 40000 {
		if c.R.P(15) {
			w.step()
		} else {
			w.end()
		}
		if len(w.stack) > 0 && w.r.N(200) == 0 {
			w.step()
		}
	}
	c.Event("calls on tall stacks", len(w.ops))
	c06run(c, w, Cfg{NoStrict: c.R.P(20)})
}

// c05tall: misplaced calls at any level.
func c05tall(c *Ctx, i int) {
	w := tallWalker(c, bigSize(c.R, 30, 6000))
	c05mix(c, w, c.R.Range(20, 400))
	c.Event("programs on tall stacks", 1)
}

func c18big(c *Ctx, i int) {
	r := c.R
	x := &c18run{c: c, r: r}
	n := bigSize(r, 30, 1200)
	prefixes := make([]string, n)
	for k := range prefixes {
		prefixes[k] = fmt.Sprintf("p%d", k)
	}
	ea := A{Name: "e"}
	if r.Bool() {
		ea.Prefix, ea.URI = prefixes[r.N(n)], "urn:1"
	}
	e := newNSElem(ea)
	en := &N{K: "elem", Name: ea.Name, Prefix: ea.Prefix, URI: ea.URI}
	first := 0
	if r.Bool() {
		// some are given with the element
		first = r.N(n)
	}
	for k := 0; k < first; k++ {
		a := A{Name: fmt.Sprintf("a%d", k), Prefix: prefixes[k], URI: "urn:1", Value: "v"}
		if e.attr(a) {
			en.Attrs = append(en.Attrs, a)
		}
	}
	x.op(Op{M: r.Pick("Start", "StartElem"), N: n1(en)}, true)
	try := func(a A) {
		x.op(Op{M: r.Pick("WriteAttr", "Write"), N: n1(&N{K: "attr", Prefix: a.Prefix, URI: a.URI, Name: a.Name, Data: a.Value})}, e.attr(a))
	}
	for k := first; k < n; k++ {
		try(A{Name: fmt.Sprintf("a%d", k), Prefix: prefixes[k], URI: "urn:1", Value: "v"})
		if r.P(10) {
			// one bound before, to the same or to something else
			x.uniq++
			try(A{Name: fmt.Sprintf("z%d", x.uniq), Prefix: prefixes[r.N(k+1)], URI: r.Pick("urn:1", "urn:2"), Value: "v"})
		}
	}
	for k := 0; k < 20; k++ {
		x.uniq++
		try(A{Name: fmt.Sprintf("z%d", x.uniq), Prefix: prefixes[r.N(n)], URI: r.Pick("urn:1", "urn:2"), Value: "v"})
	}
	// and, below it, many levels that bind the same again
	depth := bigSize(r, 30, 300)
	cur := e
	for k := 0; k < depth; k++ {
		ka := A{Prefix: prefixes[r.N(n)], Name: "k", URI: r.Pick("", "urn:1", "urn:2")}
		kid := newNSElem(ka)
		x.op(Op{M: "StartElem", N: n1(&N{K: "elem", Prefix: ka.Prefix, Name: ka.Name, URI: ka.URI})}, true)
		for j := r.N(3); j > 0; j-- {
			x.uniq++
			a := A{Name: fmt.Sprintf("z%d", x.uniq), Prefix: prefixes[r.N(n)], URI: r.Pick("", "urn:1", "urn:2"), Value: "v"}
			x.op(Op{M: "WriteAttr", N: n1(&N{K: "attr", Prefix: a.Prefix, URI: a.URI, Name: a.Name, Data: a.Value})}, kid.attr(a))
		}
		cur.kids = append(cur.kids, kid)
		cur = kid
	}
	for k := 0; k <= depth; k++ {
		x.op(Op{M: "EndElem"}, true)
	}
	c.Event("elements with many bindings", 1)
	c18do(c, x, []*nsElem{e}, Cfg{})
}
