package main

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"strings"
	"syscall"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C15",
		Rule: "storms of 1 to 80 public API calls with nodes of every kind and hostile fields, ends of any kind value and any depth, changes of the Writer's public fields in between, sinks and indenters that fail at random, continued after every error; " +
			"monitors: panics, non-termination (CPU-time watchdog), an output bound computed from the arguments, allocated bytes per storm; long single inputs and deep stacks are timed; distinct by program",
		Assume: []string{"nil nodes and Writers not made by Open or OpenEncoding are excluded", "an Indenter may fail or wrap but does not call back into the Writer that is writing"},
		Suites: []Suite{
			{Name: "storm", Quick: 120000, Thor: 6000000, Run: c15storm},
			{Name: "ends", Quick: 6000, Thor: 200000, Run: c15ends},
			{Name: "faulty", Quick: 40000, Thor: 2000000, Run: c15faulty},
			{Name: "long", Quick: 60, Thor: 240, Serial: true, Run: c15long},
			{Name: "memory", Quick: 1500, Thor: 40000, Serial: true, Run: c15memory},
		},
	})
}

// hostileNode makes a node with fields nothing was promised about.
func hostileNode(r *RNG, k string, depth int) *N {
	s := func() string {
		switch r.N(8) {
		case 0, 1:
			return ""
		case 2, 3:
			return r.anyString()
		}
		return r.Pick("a", "b", "p", "x:y", "-", "--", "]]>", "?>", "'", "\"", "xml", "\x00", "<", "é", "1", " ")
	}
	n := &N{K: k, Name: s(), Data: s(), Full: r.P(20)}
	if r.P(60) {
		n.Name = r.Pick("a", "b", "c", "é")
	}
	switch k {
	case "elem":
		if r.P(30) {
			n.Prefix = s()
		}
		if r.P(30) {
			n.URI = s()
		}
		for i := r.N(4); i > 0; i-- {
			a := A{Name: s(), Value: s()}
			if r.P(30) {
				a.Prefix = s()
			}
			if r.P(30) {
				a.URI = s()
			}
			n.Attrs = append(n.Attrs, a)
		}
		if depth < 4 && r.P(35) {
			for i := r.Range(1, 4); i > 0; i-- {
				kk := pick(r, allKinds)
				if kk == "doc" || kk == "dtd" {
					kk = "elem"
				}
				if r.P(60) {
					kk = r.Pick("elem", "text", "comment", "cdata")
				}
				n.Kids = append(n.Kids, hostileNode(r, kk, depth+1))
			}
		}
	case "attlist":
		for i := r.N(4); i > 0; i-- {
			n.Kids = append(n.Kids, hostileNode(r, "dtdattr", depth+1))
		}
	case "dtdattr":
		n.Type = r.Pick("CDATA", "ID", "", "(a|b)", "x")
		n.Default = r.PickInt(0, 1, 2, 3, 4, 5, -1, math.MaxInt64, math.MinInt64)
	case "doc":
		n.Standalone = r.N(3)
		n.NoEnc, n.NoVer = r.P(30), r.P(30)
		if r.P(30) {
			v := s()
			n.FEnc = &v
		}
		if r.P(30) {
			v := s()
			n.FVer = &v
		}
	case "attr":
		if r.P(30) {
			n.Prefix = s()
		}
		if r.P(30) {
			n.URI = s()
		}
	case "dtd", "entity", "notation":
		n.Pub, n.Sys, n.NData, n.PE = s(), s(), s(), r.Bool()
		if r.Bool() {
			n.Pub = ""
		}
	}
	return n
}

var extremeInts = []int{math.MinInt64, math.MinInt64 + 1, math.MinInt32, -1000, -3, -2, -1, 0, 1, 2, 3, 5, 8, 9, 100, math.MaxInt32, math.MaxInt64 - 2, math.MaxInt64 - 1, math.MaxInt64}

func hostileKind(r *RNG) int {
	switch r.N(4) {
	case 0:
		return pick(r, extremeInts)
	case 1:
		return r.Range(-5, 30)
	}
	return int(kindOf[pick(r, allKinds)])
}

func hostileOp(r *RNG) Op {
	start := func() *N { return hostileNode(r, pick(r, startKinds), 0) }
	if r.Bool() {
		start = func() *N { return hostileNode(r, "elem", 0) }
	}
	write := func() *N {
		for {
			k := pick(r, allKinds)
			if isWritable(k) {
				return hostileNode(r, k, 0)
			}
		}
	}
	names := func() []string {
		var l []string
		for i := r.PickInt(0, 0, 0, 1, 1, 2, 3, 4); i > 0; i-- {
			l = append(l, r.Pick("a", "b", "", "p", "\xff", "dd"))
		}
		return l
	}
	switch r.N(16) {
	case 0, 1, 2:
		n := start()
		if r.Bool() {
			o := Op{M: "Start"}
			for i := r.PickInt(1, 1, 1, 0, 2, 12); i > 0; i-- {
				o.N = append(o.N, n)
				n = start()
			}
			return o
		}
		return Op{M: startMethod[n.K], N: n1(n)}
	case 3, 4, 5:
		n := write()
		if r.Bool() {
			return writeOps(r, n)
		}
		o := Op{M: "Write"}
		for i := r.PickInt(1, 1, 0, 2, 10); i > 0; i-- {
			o.N = append(o.N, n)
			n = write()
		}
		return o
	case 6:
		o := Op{M: "Block", N: n1(start())}
		for i := r.N(4); i > 0; i-- {
			o.N = append(o.N, write())
		}
		return o
	case 7:
		o := Op{M: "WriteAttr"}
		for i := r.N(4); i > 0; i-- {
			o.N = append(o.N, hostileNode(r, "attr", 0))
		}
		return o
	case 8:
		return Op{M: r.Pick("WriteText", "WriteRaw", "WriteCommentContent", "WriteCDataContent"), D: r.anyString()}
	case 9:
		return Op{M: "End", I: hostileKind(r), S: names()}
	case 10:
		d := pick(r, extremeInts)
		return Op{M: "EndToDepth", D: fmt.Sprint(d), I: hostileKind(r), S: names()}
	case 11:
		return Op{M: r.Pick("EndElem", "EndElemFull"), S: names()}
	case 12:
		return Op{M: r.Pick("EndDoc", "EndDTD", "EndDTDAttList", "EndComment", "EndCData", "EndAny", "EndAny", "EndAny", "EndAll", "EndAllFlush")}
	case 13:
		return Op{M: r.Pick("Next", "Flush")}
	case 14:
		return Op{M: "WriteAttr", N: n1(hostileNode(r, "attr", 0))}
	}
	return Op{M: "*field", I: r.N(9), D: r.Pick("", " ", "\n", "1.1", "\r\n\t", "<", "   ")}
}

var errIndentStorm = errors.New("injected indenter failure")

// wildIndenter fails at random and wraps at random.
type wildIndenter struct {
	r     *RNG
	inner xw.Indenter
	pct   int
}

func (x *wildIndenter) Indent(w *xw.Writer, last, next xw.Event) error {
	if x.r.N(100) < x.pct {
		return errIndentStorm
	}
	_ = last.String() + next.String() + next.State.Name() + next.Node.String()
	_ = w.Depth()
	if x.inner != nil {
		return x.inner.Indent(w, last, next)
	}
	return nil
}

func (x *wildIndenter) Wrap(s string) string {
	if x.r.P(20) {
		return x.r.Pick("", "-", "--", "]]>", "w", "\x00", s+s)
	}
	return s
}

func wildIndent(r *RNG) xw.Indenter {
	switch r.N(8) {
	case 0:
		return nil
	case 1:
		return &xw.StandardIndenter{IndentString: r.Pick("", " ", "\t")}
	case 2:
		si := xw.NewStandardIndenter()
		si.IndentString = r.Pick("", "    ", "--")
		return si
	case 3:
		return &wildIndenter{r: r, inner: xw.NewStandardIndenter(), pct: r.PickInt(1, 10, 50)}
	case 4:
		return &wildIndenter{r: r, inner: &xw.StandardIndenter{}, pct: r.PickInt(0, 5)}
	case 5:
		return &wildIndenter{r: r, pct: r.PickInt(0, 5, 100)}
	}
	return xw.NewStandardIndenter()
}

func opSize(o Op) (n int) {
	n = len(o.D) + 40
	for _, s := range o.S {
		n += len(s)
	}
	var f func(x *N)
	f = func(x *N) {
		n += len(x.Name) + len(x.Prefix) + len(x.URI) + len(x.Data) + len(x.Pub) + len(x.Sys) + len(x.NData) + len(x.Type) + 60
		for _, p := range x.Pieces {
			n += len(p)
		}
		for _, a := range x.Attrs {
			n += 2*len(a.Prefix) + len(a.URI) + len(a.Name) + len(a.Value) + 40
		}
		if x.FEnc != nil {
			n += len(*x.FEnc)
		}
		if x.FVer != nil {
			n += len(*x.FVer)
		}
		for _, k := range x.Kids {
			f(k)
		}
	}
	for _, x := range o.N {
		f(x)
	}
	return n
}

func nodesIn(o Op) (n int) {
	var f func(x *N)
	f = func(x *N) {
		n += 1 + len(x.Attrs)
		for _, k := range x.Kids {
			f(k)
		}
	}
	for _, x := range o.N {
		f(x)
	}
	return n + 1
}

// outBound is how much the calls may write at most: every argument escaped,
// again at the end of an element, wrapped, and every node on its own line.
func outBound(ops []Op, grow int) int {
	size, nodes := 0, 1
	for _, o := range ops {
		size += opSize(o)
		nodes += nodesIn(o)
	}
	return grow * (16*size + 3*nodes*(64+8*(nodes+10)))
}

func setField(w *xw.Writer, o Op, r *RNG) {
	switch o.I {
	case 0:
		w.Enforce = !w.Enforce
	case 1:
		w.StrictChars = !w.StrictChars
	case 2:
		w.Version = o.D
	case 3:
		w.NewlineString = o.D
	case 4:
		w.Indenter = wildIndent(r)
	case 5:
		w.InitialBufSize = -7
	case 6:
		w.Indenter = nil
	case 7:
		w.Enforce = true
	case 8:
		w.Enforce = false
	}
}

func stormRun(c *Ctx, w *xw.Writer, ops []Op) (failed int) {
	for _, o := range ops {
		if o.M == "*field" {
			setField(w, o, c.R)
			continue
		}
		if err := call(w, o); err != nil {
			failed++
			if len(err.Error()) == 0 {
				c.Fail("call %s returns an error without a message", clip(o.String()))
			}
		}
		w.Depth()
	}
	return failed
}

func stormOps(r *RNG, max int) []Op {
	var ops []Op
	for k := r.Range(1, max); k > 0; k-- {
		ops = append(ops, hostileOp(r))
	}
	return ops
}

func stormCfg(r *RNG) Cfg {
	cfg := Cfg{Nop: r.P(10), Version: r.Pick("", "", "1.1", "x"), NoEnforce: r.P(40), NoStrict: r.P(20), Buf: r.PickInt(0, 0, 1, 2, 16, -1, math.MinInt64, 4096, 1<<16)}
	if r.P(20) {
		v := r.Pick("", "\r\n", "\n\n")
		cfg.Newline = &v
	}
	if r.P(10) {
		cfg.Version = r.anyString()
	}
	if r.P(50) {
		cfg.Indenter = wildIndent(r)
	}
	return cfg
}

func c15storm(c *Ctx, i int) {
	ops := stormOps(c.R, 80)
	cfg := stormCfg(c.R)
	c.Describe(func() string {
		return fmt.Sprintf("config %s, indenter %T\nprogram:\n%s", dump(cfg), cfg.Indenter, opsString(ops))
	})
	bound := outBound(ops, 1)
	s := &capSink{limit: bound}
	w := xw.Open(s, cfg.options()...)
	failed := stormRun(c, w, ops)
	w.EndAll()
	w.EndAll()
	w.Flush()
	c.Event("calls", len(ops))
	c.Event("calls that returned an error", failed)
	c.Distinct(opsString(ops))
	if i%30011 == 7 {
		c.Sample("%d calls, %d failed, %d bytes of at most %d; %s", len(ops), failed, s.Len(), bound, clip(opsString(ops)))
	}
}

func c15faulty(c *Ctx, i int) {
	ops := stormOps(c.R, 40)
	cfg := stormCfg(c.R)
	cfg.Buf = c.R.PickInt(1, 2, 16, 16, 64, 0)
	kind := c.R.N(nFaultKinds)
	at := c.R.N(12)
	enc := -1
	if c.R.P(40) && kind != fkShort {
		enc = c.R.N(len(c08encs))
	}
	c.Describe(func() string {
		return fmt.Sprintf("write %d: %s; encoding %d, config %s, indenter %T\nprogram:\n%s", at, faultNames[kind], enc, dump(cfg), cfg.Indenter, opsString(ops))
	})
	s := &faultSink{at: at, kind: kind}
	w := c08open(s, cfg, enc, c.R.Bool())
	failed := stormRun(c, w, ops)
	for k := 0; k < 3; k++ {
		w.EndAll()
		w.Flush()
	}
	if b := outBound(ops, 40); s.Len() > b {
		c.Fail("%d bytes written, more than %d", s.Len(), b)
	}
	c.Event("calls", len(ops))
	c.Event("calls that returned an error", failed)
	if s.faulted {
		c.Event("storms that met the fault", 1)
		c.Distinct(opsString(ops), fmt.Sprint(at, kind))
	}
}

// c15ends: every end with every kind and depth at stacks of every depth, and
// over and over again.
func c15ends(c *Ctx, i int) {
	r := c.R
	var ops []Op
	depth := r.PickInt(0, 1, 2, 7, 8, 9, 16, 17, 40)
	for k := 0; k < depth; k++ {
		kind := "elem"
		if k == 0 && r.P(30) {
			kind = pick(r, startKinds)
		}
		n := &N{K: kind, Name: "a", Prefix: r.Pick("", "p")}
		ops = append(ops, Op{M: "Start", N: n1(n)})
		if r.P(20) {
			ops = append(ops, Op{M: "WriteText", D: "x"})
		}
	}
	for k := r.Range(1, 2*depth+4); k > 0; k-- {
		switch r.N(3) {
		case 0:
			ops = append(ops, Op{M: "EndToDepth", D: fmt.Sprint(pick(r, extremeInts)), I: hostileKind(r)})
		case 1:
			ops = append(ops, Op{M: "EndToDepth", D: fmt.Sprint(r.Range(-3, depth+2)), I: int(xw.ElemNode), S: [][]string{nil, {"a"}, {"", "a"}, {"a", "b", "c"}}[r.N(4)]})
		case 2:
			o := hostileOp(r)
			for !strings.HasPrefix(o.M, "End") {
				o = hostileOp(r)
			}
			ops = append(ops, o)
		}
	}
	cfg := stormCfg(r)
	c.Describe(func() string {
		return fmt.Sprintf("config %s, indenter %T\nprogram:\n%s", dump(cfg), cfg.Indenter, opsString(ops))
	})
	s := &capSink{limit: outBound(ops, 1)}
	w := xw.Open(s, cfg.options()...)
	failed := stormRun(c, w, ops)
	if err := w.EndAll(); err == nil {
		if d0 := xw.Open(&capSink{}).Depth(); w.Depth() != d0 {
			c.Fail("after EndAll Depth is %d, for a new Writer it is %d", w.Depth(), d0)
		}
	}
	w.Flush()
	c.Event("calls", len(ops))
	c.Event("calls that returned an error", failed)
	c.Distinct(opsString(ops))
}

func threadTime() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru); err != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// c15long: long inputs and deep stacks take time proportional to their size.
func c15long(c *Ctx, i int) {
	r := c.R
	var ops []Op
	what := ""
	size := 2 << 20
	switch i % 20 {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		piece := r.Pick("a", "<", "-", "]", "\x00", "\xff", "é", " ", "\n", "&amp;", "\r", "]]x", "- ", "\"", "?", "日")
		long := strings.Repeat(piece, size/len(piece))
		what = fmt.Sprintf("%d times %q", size/len(piece), piece)
		for _, f := range []func(){
			func() { ops = append(ops, Op{M: "WriteText", D: long}) },
			func() {
				ops = append(ops, Op{M: "StartElem", N: n1(&N{K: "elem", Name: "a"})}, Op{M: "WriteAttr", N: n1(&N{K: "attr", Name: "x", Data: long})}, Op{M: "EndElem"})
			},
			func() { ops = append(ops, Op{M: "WriteComment", N: n1(&N{K: "comment", Data: long})}) },
			func() { ops = append(ops, Op{M: "WriteCData", N: n1(&N{K: "cdata", Data: long})}) },
			func() { ops = append(ops, Op{M: "WritePI", N: n1(&N{K: "pi", Name: "x", Data: long})}) },
			func() { ops = append(ops, Op{M: "WriteRaw", D: long}) },
			func() { ops = append(ops, Op{M: "StartElem", N: n1(&N{K: "elem", Name: long})}) },
			func() {
				ops = append(ops, Op{M: "WriteDTDEntity", N: n1(&N{K: "entity", Name: "e", Data: long})}, Op{M: "StartDTD", N: n1(&N{K: "dtd", Name: "a", Pub: long, Sys: long})})
			},
		} {
			f()
		}
		ops = []Op{ops[i%8%len(ops)]}
		if i%8 == 1 {
			ops = []Op{{M: "StartElem", N: n1(&N{K: "elem", Name: "a"})}, {M: "WriteAttr", N: n1(&N{K: "attr", Name: "x", Data: long})}, {M: "EndElem"}}
		}
	case 8, 9:
		// many pieces of a comment or CDATA section
		k, m := "comment", "WriteCommentContent"
		if i%20 == 9 {
			k, m = "cdata", "WriteCDataContent"
		}
		what = "100000 pieces of a " + k
		ops = append(ops, Op{M: startMethod[k], N: n1(&N{K: k})})
		for n := 0; n < 100000; n++ {
			ops = append(ops, Op{M: m, D: r.Pick("x", "]", "y z")})
		}
	case 10, 11, 12, 13:
		n := 60000
		what = fmt.Sprintf("%d nested elements", n)
		for k := 0; k < n; k++ {
			ops = append(ops, Op{M: "StartElem", N: n1(&N{K: "elem", Name: "a"})})
		}
		switch i % 20 {
		case 10:
			ops = append(ops, Op{M: "EndAll"})
		case 11:
			ops = append(ops, Op{M: "EndDoc"})
		case 12:
			ops = append(ops, Op{M: "EndToDepth", D: "-1", I: int(xw.ElemNode)})
		case 13:
			for k := 0; k < n; k++ {
				ops = append(ops, Op{M: r.Pick("EndElem", "EndElemFull", "EndAny")})
			}
		}
	case 14:
		what = "200000 siblings"
		ops = append(ops, Op{M: "StartElem", N: n1(&N{K: "elem", Name: "a"})})
		for k := 0; k < 200000; k++ {
			ops = append(ops, Op{M: "WriteElem", N: n1(&N{K: "elem", Name: "b", Prefix: "p", URI: "u"})})
		}
	case 15:
		what = "3000 attributes with different prefixes"
		ops = append(ops, Op{M: "StartElem", N: n1(&N{K: "elem", Name: "a"})})
		for k := 0; k < 3000; k++ {
			ops = append(ops, Op{M: "WriteAttr", N: n1(&N{K: "attr", Name: "b", Prefix: fmt.Sprint("p", k), URI: "u"})})
		}
	case 16:
		what = "elements nested 5000 deep in Content"
		n := &N{K: "elem", Name: "a"}
		for k := 0; k < 5000; k++ {
			n = &N{K: "elem", Name: "a", Kids: n1(n)}
		}
		ops = append(ops, Op{M: "WriteElem", N: n1(n)})
	case 17:
		what = "100000 refused calls"
		ops = append(ops, Op{M: "StartElem", N: n1(&N{K: "elem", Name: "a"})})
		for k := 0; k < 100000; k++ {
			ops = append(ops, Op{M: r.Pick("EndDTD", "WriteCDataContent", "WriteDTDElem", "StartDTD"), N: n1(&N{K: "dtd"})})
		}
	case 18:
		what = "an attlist of 50000"
		n := &N{K: "attlist", Name: "a"}
		for k := 0; k < 50000; k++ {
			n.Kids = append(n.Kids, &N{K: "dtdattr", Name: "x", Type: "CDATA"})
		}
		ops = append(ops, Op{M: "WriteDTDAttList", N: n1(n)})
	case 19:
		what = "100000 writes in one call"
		o := Op{M: "Write"}
		for k := 0; k < 100000; k++ {
			o.N = append(o.N, &N{K: r.Pick("text", "comment", "pi"), Name: "x", Data: "d"})
		}
		ops = append(ops, o)
	}
	cfg := Cfg{NoEnforce: r.P(30)}
	if r.P(50) && (i%20 < 10 || i%20 > 13) && i%20 != 16 { // indentation of deep trees is quadratic by nature
		cfg.Indenter = xw.NewStandardIndenter()
	}
	c.Describe(func() string { return what + ", " + dump(cfg) })
	s := &countSink{}
	w := xw.Open(s, cfg.options()...)
	t0 := threadTime()
	runAll(w, ops)
	w.EndAll()
	w.Flush()
	dt := threadTime() - t0
	if dt > 12 {
		c.Fail("%s takes %.1f s", what, dt)
	}
	c.Event("milliseconds of CPU time for long inputs", int(dt*1000))
	c.Distinct(what, dump(cfg))
	if i < 2 {
		c.Sample("%s: %.0f ms, %d bytes", what, dt*1000, s.n)
	}
}

// c15memory: what a storm allocates is bounded by its arguments.
func c15memory(c *Ctx, i int) {
	ops := stormOps(c.R, 60)
	cfg := stormCfg(c.R)
	if cfg.Buf > 4096 {
		cfg.Buf = 4096
	}
	size, nodes := 0, 0
	for _, o := range ops {
		size += opSize(o)
		nodes += nodesIn(o)
	}
	c.Describe(func() string {
		return fmt.Sprintf("config %s, indenter %T\nprogram:\n%s", dump(cfg), cfg.Indenter, opsString(ops))
	})
	s := &countSink{}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	w := xw.Open(s, cfg.options()...)
	stormRun(c, w, ops)
	w.EndAll()
	w.Flush()
	runtime.ReadMemStats(&b)
	got := int64(b.TotalAlloc - a.TotalAlloc)
	lim := int64(4<<20) + int64(size)*200 + int64(nodes)*6000
	if got > lim {
		c.Fail("%d bytes allocated for arguments of %d bytes in %d nodes", got, size, nodes)
	}
	c.Event("bytes allocated", int(got))
	c.Event("bytes of arguments", size)
	c.Distinct(opsString(ops))
}
