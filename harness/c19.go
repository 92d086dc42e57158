package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C19",
		Rule: "seeded steady-state workloads of the direct methods (nodes without prefix and URI, hostile content of any size, stacks of 1 to 60 nodes, plain and indented, any buffer size) are repeated on a warm Writer with the collector stopped; the allocation counter of the runtime must not move (the smallest of several attempts counts, as other threads allocate too); " +
			"live heap after collection is compared before and after long histories of changing depth; distinct by workload",
		Suites: []Suite{
			{Name: "kinds", Quick: 160, Thor: 160, Serial: true, Run: c19kinds},
			{Name: "workloads", Quick: 8000, Thor: 30000, Serial: true, Run: c19workloads},
			{Name: "live", Quick: 16, Thor: 200, Serial: true, Run: c19live},
		},
		Assume: []string{"prefixed and namespaced nodes build strings and are excluded", "with the toolchain installed here; escape analysis is the compiler's"},
	})
}

// direct makes the call without allocating anything itself.
type direct struct {
	m      string
	elem   xw.Elem
	attr   xw.Attr
	attrs  []xw.Attr
	pi     xw.PI
	com    xw.Comment
	cd     xw.CData
	s      string
	ent    xw.DTDEntity
	del    xw.DTDElem
	dat    xw.DTDAttr
	dal    xw.DTDAttList
	not    xw.Notation
	dtd    xw.DTD
	doc    xw.Doc
	d      int
	kind   xw.NodeKind
	repeat int
}

func (d *direct) call(w *xw.Writer) error {
	switch d.m {
	case "StartElem":
		return w.StartElem(d.elem)
	case "WriteElem":
		return w.WriteElem(d.elem)
	case "WriteAttr":
		return w.WriteAttr(d.attr)
	case "WriteAttr...":
		return w.WriteAttr(d.attrs...)
	case "WriteText":
		return w.WriteText(d.s)
	case "WriteRaw":
		return w.WriteRaw(d.s)
	case "WriteComment":
		return w.WriteComment(d.com)
	case "StartComment":
		return w.StartComment(d.com)
	case "WriteCommentContent":
		return w.WriteCommentContent(d.s)
	case "EndComment":
		return w.EndComment()
	case "WriteCData":
		return w.WriteCData(d.cd)
	case "StartCData":
		return w.StartCData(d.cd)
	case "WriteCDataContent":
		return w.WriteCDataContent(d.s)
	case "EndCData":
		return w.EndCData()
	case "WritePI":
		return w.WritePI(d.pi)
	case "WriteDTDEntity":
		return w.WriteDTDEntity(d.ent)
	case "WriteDTDElem":
		return w.WriteDTDElem(d.del)
	case "WriteDTDAttr":
		return w.WriteDTDAttr(d.dat)
	case "WriteDTDAttList":
		return w.WriteDTDAttList(d.dal)
	case "StartDTDAttList":
		return w.StartDTDAttList(d.dal)
	case "EndDTDAttList":
		return w.EndDTDAttList()
	case "WriteNotation":
		return w.WriteNotation(d.not)
	case "StartDTD":
		return w.StartDTD(d.dtd)
	case "EndDTD":
		return w.EndDTD()
	case "StartDoc":
		return w.StartDoc(d.doc)
	case "EndDoc":
		return w.EndDoc()
	case "EndElem":
		return w.EndElem()
	case "EndElemFull":
		return w.EndElemFull()
	case "EndAny":
		return w.EndAny()
	case "EndAll":
		return w.EndAll()
	case "EndAllFlush":
		return w.EndAllFlush()
	case "End":
		return w.End(d.kind)
	case "EndToDepth":
		return w.EndToDepth(d.d, d.kind)
	case "Next":
		return w.Next()
	case "Flush":
		return w.Flush()
	}
	panic("harness: " + d.m)
}

func (d *direct) String() string {
	switch d.m {
	case "WriteText", "WriteRaw", "WriteCommentContent", "WriteCDataContent":
		return fmt.Sprintf("%s(%q)", d.m, clip(d.s))
	}
	return d.m
}

// mallocs counts heap allocations of f: the smallest of some attempts.
func mallocs(attempts int, f func()) uint64 {
	var a, b runtime.MemStats
	best := ^uint64(0)
	for k := 0; k < attempts; k++ {
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if n := b.Mallocs - a.Mallocs; n < best {
			best = n
		}
		if best == 0 {
			break
		}
	}
	return best
}

func c19measure(c *Ctx, what string, w *xw.Writer, unit []*direct, rounds int) {
	var err error
	var bad *direct
	run := func() {
		for k := 0; k < rounds; k++ {
			for _, d := range unit {
				if e := d.call(w); e != nil && err == nil {
					err, bad = e, d
				}
			}
		}
	}
	run() // the stack grows
	if err != nil {
		c.Fail("%s: %s fails: %v", what, bad, err)
	}
	old := debug.SetGCPercent(-1)
	n := mallocs(12, run)
	debug.SetGCPercent(old)
	if err != nil {
		c.Fail("%s: %s fails: %v", what, bad, err)
	}
	if n > 0 {
		c.Fail("%s: %d heap allocations in %d calls of a warm Writer", what, n, rounds*len(unit))
	}
	c.Eval(rounds)
	c.Event("calls watched for allocations", rounds*len(unit))
}

func (r *RNG) longString() string {
	switch r.N(10) {
	case 0:
		return ""
	case 1:
		return strings.Repeat(r.Pick("x", "<&>", "é\"", "\x00"), r.Range(1, 3000))
	}
	return r.anyString()
}

// kinds: each method by itself, in each configuration.
func c19kinds(c *Ctx, i int) {
	type one struct {
		what string
		pre  []*direct
		unit []*direct
	}
	el := &direct{m: "StartElem", elem: xw.Elem{Name: "elem"}}
	end := &direct{m: "EndElem"}
	txt := []string{"x", "a <b> & \"c\" 'd' \r\n\t", strings.Repeat("é<", 3000), "\x00\xff\ufffe"}[i/20%4]
	legal := legalChars(txt, true)
	bf := xw.Attr{Name: "n", Value: txt}
	l := []one{
		{"elements", nil, []*direct{el, end}},
		{"full elements", nil, []*direct{el, {m: "EndElemFull"}}},
		{"attributes", nil, []*direct{el, {m: "WriteAttr", attr: bf}, {m: "WriteAttr", attr: xw.Attr{Name: "m", Value: "v"}}, end}},
		{"attribute lists", nil, []*direct{el, {m: "WriteAttr...", attrs: []xw.Attr{{Name: "a", Value: txt}, {Name: "b"}}}, end}},
		{"text", []*direct{el}, []*direct{{m: "WriteText", s: txt}}},
		{"raw", []*direct{el}, []*direct{{m: "WriteRaw", s: txt}}},
		{"comments", []*direct{el}, []*direct{{m: "WriteComment", com: xw.Comment{Content: legal}}}},
		{"comments in pieces", []*direct{el}, []*direct{{m: "StartComment"}, {m: "WriteCommentContent", s: legal}, {m: "WriteCommentContent", s: "x"}, {m: "EndComment"}}},
		{"cdata", []*direct{el}, []*direct{{m: "WriteCData", cd: xw.CData{Content: legal}}}},
		{"cdata in pieces", []*direct{el}, []*direct{{m: "StartCData"}, {m: "WriteCDataContent", s: legal}, {m: "EndCData"}}},
		{"pis", []*direct{el}, []*direct{{m: "WritePI", pi: xw.PI{Target: "t", Content: legal}}}},
		{"entities", []*direct{{m: "StartDTD", dtd: xw.DTD{Name: "d"}}}, []*direct{{m: "WriteDTDEntity", ent: xw.DTDEntity{Name: "e", Content: "c"}}, {m: "WriteDTDEntity", ent: xw.DTDEntity{Name: "e", SystemID: "c", PublicID: "p", NDataID: "n"}}}},
		{"element declarations", []*direct{{m: "StartDTD", dtd: xw.DTD{Name: "d"}}}, []*direct{{m: "WriteDTDElem", del: xw.DTDElem{Name: "e", Decl: "ANY"}}}},
		{"notations", []*direct{{m: "StartDTD", dtd: xw.DTD{Name: "d"}}}, []*direct{{m: "WriteNotation", not: xw.Notation{Name: "e", SystemID: "s"}}}},
		{"attribute declarations", []*direct{{m: "StartDTD", dtd: xw.DTD{Name: "d"}}}, []*direct{{m: "StartDTDAttList", dal: xw.DTDAttList{Name: "e"}}, {m: "WriteDTDAttr", dat: xw.DTDAttr{Name: "a", Type: xw.DTDAttrString, Value: txt}}, {m: "EndDTDAttList"}, {m: "WriteDTDAttList", dal: xw.DTDAttList{Name: "f", Attrs: []xw.DTDAttr{{Name: "a", Type: xw.DTDAttrID}}}}}},
		{"doctypes", nil, []*direct{{m: "StartDTD", dtd: xw.DTD{Name: "d", SystemID: "s", PublicID: "p"}}, {m: "EndDTD"}}},
		{"documents", nil, []*direct{{m: "StartDoc"}, {m: "EndDoc"}}},
		{"ends", nil, []*direct{el, el, el, {m: "EndAny"}, {m: "End", kind: xw.ElemNode}, {m: "EndAll"}, {m: "Flush"}, el, el, {m: "EndAllFlush"}}},
		{"depths", []*direct{el}, []*direct{el, el, el, {m: "Next"}, {m: "EndToDepth", d: 0, kind: xw.ElemNode}}},
		{"written elements", nil, []*direct{{m: "WriteElem", elem: xw.Elem{Name: "e"}}, {m: "WriteElem", elem: xw.Elem{Name: "e", Full: true, Attrs: []xw.Attr{{Name: "a", Value: txt}}}}}},
	}
	o := l[i%20]
	var opts []xw.Option
	what := o.what
	if i/80 == 1 {
		opts = append(opts, xw.WithIndent())
		what += ", indented"
	}
	c.Describe(func() string { return fmt.Sprintf("%s with %q", what, clip(txt)) })
	w := xw.Open(&countSink{}, opts...)
	for _, d := range o.pre {
		if err := d.call(w); err != nil {
			c.Fail("%s: %v", d, err)
		}
	}
	c19measure(c, what, w, o.unit, 50)
	c.Distinct(what, txt)
	if i == 3 {
		c.Sample("%s: no allocation in %d calls", what, 50*len(o.unit))
	}
}

// random balanced workloads
func c19workload(r *RNG, depth int) []*direct {
	var unit []*direct
	n := r.Range(1, 12)
	for k := 0; k < n; k++ {
		switch r.N(9) {
		case 0, 1, 2:
			if depth > 0 {
				unit = append(unit, &direct{m: "StartElem", elem: xw.Elem{Name: r.Pick("a", "name", "é"), Full: r.P(20)}})
				for j := r.N(3); j > 0; j-- {
					unit = append(unit, &direct{m: "WriteAttr", attr: xw.Attr{Name: fmt.Sprintf("a%d", j), Value: r.longString()}})
				}
				unit = append(unit, c19workload(r, depth-1)...)
				unit = append(unit, &direct{m: r.Pick("EndElem", "EndElemFull", "EndAny"), kind: xw.ElemNode})
			}
		case 3, 4:
			unit = append(unit, &direct{m: "WriteText", s: r.longString()})
		case 5:
			unit = append(unit, &direct{m: "WriteComment", com: xw.Comment{Content: r.legalComment()}})
		case 6:
			unit = append(unit, &direct{m: "StartCData"}, &direct{m: "WriteCDataContent", s: r.legalCData()}, &direct{m: "EndCData"})
		case 7:
			unit = append(unit, &direct{m: "WritePI", pi: xw.PI{Target: "t", Content: r.legalPI()}})
		case 8:
			unit = append(unit, &direct{m: r.Pick("WriteRaw", "Next", "Flush"), s: r.longString()})
		}
		if len(unit) > 400 {
			break
		}
	}
	return unit
}

func c19describe(u []*direct) string {
	var b strings.Builder
	for _, d := range u {
		b.WriteString(d.String() + "\n")
		if b.Len() > 8000 {
			break
		}
	}
	return b.String()
}

func c19workloads(c *Ctx, i int) {
	r := c.R
	unit := c19workload(r, r.Range(0, 5))
	if len(unit) == 0 {
		unit = []*direct{{m: "WriteText", s: "x"}}
	}
	depth := r.PickInt(0, 1, 6, 7, 8, 15, 16, 30, 60)
	whole := r.P(25) // the stack comes and goes
	if whole {
		depth = r.PickInt(0, 1, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 257, 600)
		var all []*direct
		for k := 0; k <= depth; k++ {
			all = append(all, &direct{m: "StartElem", elem: xw.Elem{Name: "x"}})
		}
		unit = append(all, unit...)
		switch r.N(4) {
		case 0:
			unit = append(unit, &direct{m: "EndAll"})
		case 1:
			unit = append(unit, &direct{m: "EndAllFlush"})
		case 2:
			unit = append(unit, &direct{m: "EndToDepth", d: -1, kind: xw.ElemNode})
		default:
			for k := 0; k <= depth; k++ {
				unit = append(unit, &direct{m: r.Pick("EndElem", "EndAny", "EndElemFull")})
			}
		}
	}
	opts := []xw.Option{func(w *xw.Writer) { w.InitialBufSize = r.PickInt(1, 16, 100, 0, 4096) }}
	if r.P(30) {
		opts = append(opts, xw.WithIndentString(r.Pick(" ", "", "\t\t")))
	}
	if r.P(20) {
		opts = append(opts, func(w *xw.Writer) { w.Enforce = false })
	}
	c.Describe(func() string {
		return fmt.Sprintf("in a stack of %d nodes (whole: %v):\n%s", depth+1, whole, c19describe(unit))
	})
	w := xw.Open(&countSink{}, opts...)
	for k := 0; k <= depth && !whole; k++ {
		if err := w.StartElem(xw.Elem{Name: "x"}); err != nil {
			c.Fail("%v", err)
		}
	}
	c19measure(c, "workload", w, unit, 3)
	c.Distinct(c19describe(unit), fmt.Sprint(depth))
	if i%701 == 4 {
		c.Sample("in a stack of %d nodes: %s", depth+1, clip(c19describe(unit)))
	}
}

// c19live: the memory a Writer holds depends on its buffer and depth only.
func c19live(c *Ctx, i int) {
	r := c.R
	maxDepth := r.PickInt(3, 10, 40)
	indent := r.P(40)
	ns := r.P(50)
	c.Describe(func() string {
		return fmt.Sprintf("depth up to %d, indented %v, namespaces %v", maxDepth, indent, ns)
	})
	var opts []xw.Option
	if indent {
		opts = append(opts, xw.WithIndent())
	}
	s := &countSink{}
	w := xw.Open(s, opts...)
	must := func(err error) {
		if err != nil {
			c.Fail("%v", err)
		}
	}
	must(w.StartElem(xw.Elem{Name: "root"}))
	open := 1
	long := strings.Repeat("text & more ", 2000)
	phase := func(n int) {
		for k := 0; k < n; k++ {
			switch r.N(8) {
			case 0, 1, 2:
				if open < maxDepth {
					e := xw.Elem{Name: "e"}
					if ns {
						e.Prefix, e.URI = "p", "urn:p"
					}
					must(w.StartElem(e))
					if r.Bool() {
						a := xw.Attr{Name: "a", Value: "v"}
						if ns {
							a.Prefix, a.URI = "q", "urn:q"
						}
						must(w.WriteAttr(a))
					}
					open++
				}
			case 3, 4:
				if open > 1 {
					must(w.EndElem())
					open--
				}
			case 5:
				if r.P(3) {
					must(w.WriteText(long))
				} else {
					must(w.WriteText("text"))
				}
			case 6:
				must(w.WriteComment(xw.Comment{Content: "c"}))
			case 7:
				must(w.WriteElem(xw.Elem{Name: "x", Content: []xw.Writable{xw.Text("t"), xw.Elem{Name: "y"}}}))
			}
		}
		for open < maxDepth { // measured at the same depth
			must(w.StartElem(xw.Elem{Name: "e"}))
			open++
		}
	}
	phase(3000)
	before := liveHeap()
	n := 150000
	if c.Thorough() {
		n = 1500000
	}
	phase(n)
	grown := liveHeap() - before
	if grown > 100<<10 {
		c.Fail("live memory grew by %d bytes during %d calls at the same depth, %d bytes written", grown, n, s.n)
	}
	must(w.EndAll())
	must(w.Flush())
	runtime.KeepAlive(w)
	c.Event("bytes written with live memory watched", int(s.n))
	c.Distinct(fmt.Sprint(maxDepth, indent, ns, i))
}
