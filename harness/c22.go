package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID:  "C22",
		Exh: true,
		Rule: "all kinds from -70000 to 70000 and the extremes, all states, and all pairs of an open node (or end) and a misplaced kind in every call style; names are compared with the published ones, the kinds an error names with the documented placement; " +
			"distinct by kind or pair",
		Suites: []Suite{
			{Name: "kinds", Quick: 141, Run: c22kinds},
			{Name: "placement", Quick: 20000, Thor: 400000, Run: c22placement},
			{Name: "ends", Quick: 10000, Thor: 400000, Run: c22ends},
		},
	})
}

var kindNames = map[xw.NodeKind]string{
	xw.NoNode: "none", xw.AttrNode: "attr", xw.CDataNode: "cdata", xw.CDataContentNode: "cdatacontent", xw.CommentNode: "comment",
	xw.CommentContentNode: "commentcontent", xw.DTDNode: "dtd", xw.DTDAttListNode: "dtdattlist", xw.DTDAttrNode: "dtdattr",
	xw.DTDElemNode: "dtdelem", xw.DTDEntityNode: "dtdentity", xw.DocNode: "document", xw.ElemNode: "elem", xw.NotationNode: "notation",
	xw.PINode: "pi", xw.RawNode: "raw", xw.TextNode: "text",
}

func c22kind(c *Ctx, k xw.NodeKind) {
	c.Describe(func() string { return fmt.Sprintf("kind %d", int(k)) })
	want := kindNames[k]
	if got := k.Name(); got != want {
		c.Fail("the name of kind %d is %q, should be %q", int(k), got, want)
	}
	s := k.String()
	if !strings.Contains(s, strconv.Itoa(int(k))) || want != "" && !strings.Contains(s, want) {
		c.Fail("String of kind %d (%s) is %q", int(k), want, s)
	}
	for _, st := range []xw.NodeState{xw.StateOpen, xw.StateOpened, xw.StateEnded} {
		e := xw.Event{State: st, Node: k, Children: 3}
		if s := e.String(); want != "" && !strings.Contains(s, want) {
			c.Fail("String of an event of kind %d (%s) is %q", int(k), want, s)
		}
	}
	c.Enumerated(1)
}

func c22kinds(c *Ctx, i int) {
	if i < 140 {
		for k := -70000 + i*1000; k < -70000+(i+1)*1000; k++ {
			c22kind(c, xw.NodeKind(k))
		}
		c.Eval(1000)
		return
	}
	for _, k := range extremeInts {
		c22kind(c, xw.NodeKind(k))
		c22kind(c, xw.NodeKind(k)&0xffff)
	}
	c22kind(c, xw.NodeKind(math.MaxInt64))
	seen := map[string]xw.NodeKind{}
	for k := -100; k < 100; k++ {
		n := xw.NodeKind(k).Name()
		if o, ok := seen[n]; ok && n != "" {
			c.Fail("kinds %d and %d are both named %q", int(o), k, n)
		}
		seen[n] = xw.NodeKind(k)
	}
	states := map[string]bool{}
	for st, want := range map[xw.NodeState]string{xw.StateOpen: "open", xw.StateOpened: "opened", xw.StateEnded: "ended"} {
		if st.Name() != want || states[st.Name()] {
			c.Fail("the name of state %d is %q, should be %q", int(st), st.Name(), want)
		}
		states[st.Name()] = true
	}
	for k, v := range kindOf {
		if (v == xw.NoNode) || kindNames[v] == "" {
			c.Fail("kind %s", k)
		}
	}
}

var wordRe = regexp.MustCompile(`[a-z]+`)

// namedKinds is the set of kinds a message names.
func namedKinds(msg string) map[string]bool {
	m := map[string]bool{}
	all := map[string]bool{}
	for _, n := range kindNames {
		all[n] = true
	}
	for _, w := range wordRe.FindAllString(strings.TrimPrefix(msg, "xmlwriter:"), -1) {
		if all[w] {
			m[w] = true
		}
	}
	return m
}

func c22same(c *Ctx, msg string, want []string) {
	got := namedKinds(msg)
	w := map[string]bool{}
	for _, n := range want {
		w[n] = true
	}
	if fmt.Sprint(got) != fmt.Sprint(w) {
		c.Fail("the error %q names %v, should name %v", msg, got, w)
	}
	c.Event("error texts compared", 1)
}

func c22placement(c *Ctx, i int) {
	parent := startKinds[i%len(startKinds)]
	k := i / len(startKinds)
	child := allKinds[k%len(allKinds)]
	k /= len(allKinds)
	if mayWrite(child, parent, false) {
		return
	}
	r := c.R
	w := xw.Open(&capSink{})
	wk := newWalker(r)
	p := wk.node(parent)
	p.Kids = nil
	if err := w.Start(p.startable()); err != nil {
		c.Fail("%v", err)
	}
	if r.P(30) {
		w.Next()
	}
	var ways []Op
	n := wk.node(child)
	if isStartable(child) {
		ways = append(ways, Op{M: "Start", N: n1(n)}, Op{M: startMethod[child], N: n1(n)}, Op{M: "Block", N: n1(n)})
	}
	if isWritable(child) {
		ways = append(ways, writeOps(r, n), writeOps(r, n))
	}
	want := []string{kindNames[kindOf[parent]]}
	for _, pk := range placement[child] {
		if pk == "" {
			want = append(want, "none")
		} else {
			want = append(want, kindNames[kindOf[pk]])
		}
	}
	o := pick(r, ways)
	c.Describe(func() string { return fmt.Sprintf("inside %s: %s", parent, o) })
	err := call(w, o)
	if err == nil {
		c.Fail("accepted")
	}
	c22same(c, err.Error(), want)
	c.Distinct(parent, child, o.M)
	if i == 9 {
		c.Sample("%s in %s: %v", o, parent, err)
	}
}

func c22ends(c *Ctx, i int) {
	parent := startKinds[i%len(startKinds)]
	r := c.R
	other := pick(r, allKinds)
	if other == parent {
		return
	}
	w := xw.Open(&capSink{})
	wk := newWalker(r)
	p := wk.node(parent)
	p.Kids = nil
	if err := w.Start(p.startable()); err != nil {
		c.Fail("%v", err)
	}
	o := Op{M: "End", I: int(kindOf[other])}
	if m := endMethod[other]; m != "" && m != "EndDoc" && r.Bool() {
		o = Op{M: m}
	}
	if r.P(20) {
		o = Op{M: "EndToDepth", D: fmt.Sprint(w.Depth() - 1), I: int(kindOf[other])}
	}
	c.Describe(func() string { return fmt.Sprintf("inside %s: %s", parent, o) })
	err := call(w, o)
	if err == nil {
		c.Fail("accepted")
	}
	c22same(c, err.Error(), []string{kindNames[kindOf[parent]], kindNames[kindOf[other]]})
	c.Distinct(parent, o.String())
}
