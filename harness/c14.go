package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/unicode"
)

func init() {
	register(&Check{
		ID:   "C14",
		Race: true,
		Rule: "built with the race detector: groups of goroutines write with their own Writers from shared argument values (attribute and content slices with spare capacity, options, Doc pointers) while others do the same, each output compared with the one of a lone run; " +
			"subtrees written one after the other on one Writer against the same subtrees each on a fresh Writer; deep copies of all arguments and sentinels in spare capacity compared afterwards; distinct by program",
		Suites: []Suite{
			{Name: "concurrent", Quick: 350, Thor: 20000, Serial: true, Run: c14concurrent},
			{Name: "history", Quick: 6000, Thor: 600000, Run: c14history},
			{Name: "inputs", Quick: 3500, Thor: 400000, Run: c14inputs},
			{Name: "slots", Quick: 20000, Thor: 400000, Run: c14slots},
		},
	})
}

var spareAttr = xw.Attr{Prefix: "spare", URI: "spare", Name: "spare", Value: "spare"}
var spareText = xw.Text("spare")
var spareDTDAttr = xw.DTDAttr{Name: "spare", Type: "spare", Value: "spare"}

// roomy gives every slice of v spare capacity filled with sentinels.
func roomy(v interface{}) interface{} {
	switch t := v.(type) {
	case xw.Elem:
		attrs := make([]xw.Attr, len(t.Attrs), len(t.Attrs)+3)
		copy(attrs, t.Attrs)
		for i, f := len(attrs), attrs[:cap(attrs)]; i < len(f); i++ {
			f[i] = spareAttr
		}
		t.Attrs = attrs
		content := make([]xw.Writable, 0, len(t.Content)+2)
		for _, k := range t.Content {
			content = append(content, roomy(k).(xw.Writable))
		}
		for i, f := len(content), content[:cap(content)]; i < len(f); i++ {
			f[i] = spareText
		}
		t.Content = content
		return t
	case xw.DTDAttList:
		attrs := make([]xw.DTDAttr, len(t.Attrs), len(t.Attrs)+3)
		copy(attrs, t.Attrs)
		for i, f := len(attrs), attrs[:cap(attrs)]; i < len(f); i++ {
			f[i] = spareDTDAttr
		}
		t.Attrs = attrs
		return t
	}
	return v
}

// deep copies a value together with what is in its spare capacity.
func deep(v interface{}) interface{} {
	switch t := v.(type) {
	case xw.Elem:
		t.Attrs = append([]xw.Attr(nil), t.Attrs[:cap(t.Attrs)]...)
		var l []xw.Writable
		for _, k := range t.Content[:cap(t.Content)] {
			l = append(l, deep(k).(xw.Writable))
		}
		t.Content = l
		return t
	case xw.DTDAttList:
		t.Attrs = append([]xw.DTDAttr(nil), t.Attrs[:cap(t.Attrs)]...)
		return t
	case xw.Doc:
		cp := func(p *string) *string {
			if p == nil {
				return nil
			}
			s := *p
			return &s
		}
		t.ForcedEncoding, t.ForcedVersion = cp(t.ForcedEncoding), cp(t.ForcedVersion)
		if t.Standalone != nil {
			b := *t.Standalone
			t.Standalone = &b
		}
		return t
	}
	return v
}

// job is something several writers do with shared values.
type job struct {
	doc    xw.Doc
	useDoc bool
	elems  []xw.Elem
	attrs  []xw.Attr
	list   xw.DTDAttList
	wr     []xw.Writable
	st     []xw.Startable
	opts   []xw.Option
	enc    int
}

func newJob(r *RNG, withEnc bool) *job {
	w := newWalker(r)
	g := newG(r)
	j := &job{useDoc: r.P(60)}
	s := r.Pick("UTF-8", "us-ascii")
	j.doc = xw.Doc{}.WithStandalone(r.Bool())
	if r.Bool() {
		j.doc = j.doc.ForceEncoding(s)
	}
	if r.Bool() {
		j.doc = j.doc.ForceVersion("1.0")
	}
	pure := func() xw.Elem {
		for {
			g.Budget = r.Range(1, 10)
			n := g.elem(0)
			if nestable(n) {
				return roomy(canonElem(n)).(xw.Elem)
			}
		}
	}
	for k := r.Range(1, 3); k > 0; k-- {
		e := pure()
		if r.P(40) {
			// values of shared namespaces
			e.Prefix, e.URI = "", ""
			e.Attrs = append(e.Attrs, xw.Attr{Prefix: "zz", URI: "urn:zz", Name: "a", Value: "1"}, xw.Attr{Prefix: "zz", URI: "urn:zz", Name: "b", Value: "2"})
			e = roomy(e).(xw.Elem)
		}
		j.elems = append(j.elems, e)
	}
	for k := r.Range(1, 4); k > 0; k-- {
		w.uniq++
		j.attrs = append(j.attrs, xw.Attr{Name: fmt.Sprintf("u%d", w.uniq), Value: g.str()})
	}
	j.list = roomy(w.node("attlist").attlist()).(xw.DTDAttList)
	for k := r.Range(1, 5); k > 0; k-- {
		n := w.node(r.Pick("text", "comment", "cdata", "pi", "elem"))
		j.wr = append(j.wr, roomy(n.writable()).(xw.Writable))
	}
	for k := r.Range(1, 12); k > 0; k-- {
		j.st = append(j.st, roomy(w.node("elem").elem()).(xw.Startable))
	}
	switch r.N(4) {
	case 0:
		j.opts = append(j.opts, xw.WithIndent())
	case 1:
		j.opts = append(j.opts, xw.WithIndentString("\t"))
	}
	if r.P(30) {
		j.opts = append(j.opts, func(w *xw.Writer) { w.InitialBufSize = 32 })
	}
	if r.P(20) {
		j.opts = append(j.opts, func(w *xw.Writer) { w.NewlineString = "\r\n" })
	}
	if withEnc {
		j.enc = r.N(4)
	}
	return j
}

func canonElem(n *N) xw.Elem {
	m := *n
	m.Kids = flattenDeep(n.Kids)
	return m.elem()
}

func flattenDeep(l []*N) []*N {
	l = flatten(l)
	for _, n := range l {
		n.Kids = flattenDeep(n.Kids)
	}
	return l
}

func (j *job) snapshot() interface{} {
	var l []interface{}
	l = append(l, deep(j.doc), append([]xw.Attr(nil), j.attrs[:cap(j.attrs)]...), deep(j.list))
	for _, e := range j.elems {
		l = append(l, deep(e))
	}
	for _, w := range j.wr[:cap(j.wr)] {
		if w != nil {
			l = append(l, deep(w))
		}
	}
	for _, s := range j.st[:cap(j.st)] {
		if s != nil {
			l = append(l, deep(s))
		}
	}
	return l
}

// run writes everything once, from the shared values.
func (j *job) run(gap func()) string {
	var b bytes.Buffer
	var x *xw.Writer
	switch j.enc {
	case 1:
		x = xw.OpenEncoding(&b, "utf-16le", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM).NewEncoder(), j.opts...)
	case 2:
		x = xw.OpenEncoding(&b, "windows-1252", charmap.Windows1252.NewEncoder(), j.opts...)
	default:
		x = xw.Open(&b, j.opts...)
	}
	var errs []interface{}
	do := func(err error) {
		errs = append(errs, err)
		gap()
	}
	if j.useDoc {
		do(x.Start(j.doc))
	}
	do(x.StartDTD(xw.DTD{Name: "a", SystemID: "s"}))
	do(x.WriteDTDAttList(j.list))
	do(x.Write(j.list))
	do(x.EndDTD())
	do(x.StartElem(xw.Elem{Name: "root"}))
	do(x.WriteAttr(j.attrs...))
	do(x.Start(j.st...))
	do(x.Write(j.wr...))
	for _, e := range j.elems {
		do(x.WriteElem(e))
		do(x.Write(e))
		do(x.Block(e, j.wr...))
	}
	do(x.EndElem("nope"))
	do(x.WriteDTDElem(xw.DTDElem{Name: "x", Decl: "ANY"}))
	ec := &xw.ErrCollector{}
	ec.Do(x.WriteText("text <&>"), x.WriteCDataContent("misplaced"))
	do(ec.Err)
	do(xw.CheckName("名前:x"))
	do(xw.CheckChars("a\x01", true))
	do(xw.CheckPubID("{"))
	do(xw.CheckEncoding("utf-8"))
	do(fmt.Errorf("%s %s", xw.ElemNode, xw.StateOpen.Name()))
	do(x.EndAll())
	do(x.Flush())
	return fmt.Sprintf("%q %v", b.String(), errs)
}

func c14concurrent(c *Ctx, i int) {
	const G = 8
	shared := newJob(c.R, true)
	jobs := make([]*job, G)
	for k := range jobs {
		jobs[k] = shared
		if c.R.P(30) {
			jobs[k] = newJob(c.R, true)
		}
	}
	snap := shared.snapshot()
	nop := func() {}
	c.Describe(func() string { return fmt.Sprintf("shared values: %+v", snap) })
	var got [G][3]string
	var wg sync.WaitGroup
	var gate sync.WaitGroup
	gate.Add(1)
	for k := 0; k < G; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			gate.Wait()
			for n := range got[k] {
				got[k][n] = jobs[k].run(nop)
			}
		}(k)
	}
	gate.Done()
	wg.Wait()
	for k := 0; k < G; k++ {
		want := jobs[k].run(nop)
		for n := range got[k] {
			if got[k][n] != want {
				c.Fail("run %d of writer %d of %d concurrent ones differs from a lone one: %s", n, k, G, diffAt(want, got[k][n]))
			}
			c.Event("concurrent outputs compared", 1)
		}
		c.Distinct(want)
	}
	if !reflect.DeepEqual(snap, shared.snapshot()) {
		c.Fail("the shared values were modified")
	}
	// two writers interleaved call by call on one goroutine
	a, b := newJob(c.R, false), shared
	wa, wb := a.run(nop), b.run(nop)
	ch := make(chan bool)
	var ga string
	go func() {
		<-ch
		ga = a.run(func() { ch <- true; <-ch })
		close(ch)
	}()
	open := true
	step := func() {
		if !open {
			return
		}
		ch <- true
		_, open = <-ch
	}
	gb := b.run(step)
	for open {
		step()
	}
	if ga != wa {
		c.Fail("interleaved with another writer: %s", diffAt(wa, ga))
	}
	if gb != wb {
		c.Fail("interleaved with another writer: %s", diffAt(wb, gb))
	}
	c.Event("interleaved pairs compared", 1)
	c.Eval(2 * G)
}

// c14history: what a subtree looks like does not depend on what came before.
func c14history(c *Ctx, i int) {
	r := c.R
	g := newG(r)
	g.Plain = r.P(50)
	cnt := r.Range(2, 5)
	var trees []*N
	for k := 0; k < cnt; k++ {
		g.Budget = r.Range(1, 8)
		switch r.N(8) {
		case 0:
			g.Budget = 30
			trees = append(trees, g.chain(r.Range(5, 30)))
		case 1:
			trees = append(trees, g.comment())
		case 2:
			trees = append(trees, g.cdata())
		case 3:
			trees = append(trees, g.pi())
		default:
			trees = append(trees, g.elem(0))
		}
	}
	in := r.P(50) // inside an element
	depth := 0
	if in {
		depth = r.Range(1, 10)
	}
	var head, tail []Op
	for k := 0; k < depth; k++ {
		head = append(head, Op{M: "StartElem", N: []*N{{K: "elem", Name: "w", Prefix: r.Pick("", "p"), URI: "urn:w"}}})
		tail = append(tail, Op{M: "EndElem"})
	}
	if in {
		head = append(head, Op{M: "Next"})
	}
	var progs [][]Op
	all := append([]Op(nil), head...)
	for _, t := range trees {
		p := compileBalanced(r, t)
		progs = append(progs, p)
		all = append(all, p...)
		if r.P(20) {
			// refused calls are history too
			all = append(all, Op{M: "WriteDTDAttr", N: []*N{{K: "dtdattr", Name: "x"}}}, Op{M: "End", I: 3})
		}
	}
	all = append(all, tail...)
	c.Describe(func() string { return opsString(all) })
	run := func(ops []Op) string {
		s := &capSink{}
		x := xw.Open(s)
		for _, o := range ops {
			err := call(x, o)
			if (err != nil) != (o.M == "WriteDTDAttr" || o.M == "End" && o.I == 3) {
				c.Fail("call %s: %v", clip(o.String()), err)
			}
		}
		x.Flush()
		return s.String()
	}
	got := run(all)
	pre := run(append(append([]Op(nil), head...), tail...))
	h := len(run(head))
	want := pre[:h]
	for _, p := range progs {
		one := run(append(append([]Op(nil), head...), p...))
		want += one[h:]
	}
	want += pre[h:]
	if got != want {
		c.Fail("the subtrees look different after one another: %s", diffAt(want, got))
	}
	c.Event("subtrees compared", cnt)
	c.Distinct(opsString(all))
	if i%4001 == 3 {
		c.Sample("%q", clip(got))
	}
}

// compileBalanced ends what it starts with matching calls only.
func compileBalanced(r *RNG, t *N) []Op {
	c := &Comp{r: r, mixed: true, depth: -1, noAll: true}
	for {
		c.ops = nil
		c.depth = -1
		if left := c.node(t, false); left == 0 {
			ok := true
			for _, o := range c.ops {
				if o.M == "EndAll" || o.M == "EndAllFlush" || o.M == "EndDoc" || o.M == "EndToDepth" {
					ok = false
				}
				if o.M == "End" && o.I == 3 {
					ok = false
				}
			}
			if ok {
				return c.ops
			}
		}
		c.mixed = r.Bool()
	}
}

// c14inputs: arguments are not modified and can be reused.
func c14inputs(c *Ctx, i int) {
	j := newJob(c.R, true)
	snap := j.snapshot()
	c.Describe(func() string { return fmt.Sprintf("values: %+v", snap) })
	a := j.run(func() {})
	for k := 0; k < 2; k++ {
		if b := j.run(func() {}); b != a {
			c.Fail("the same calls with the same values give something else the next time: %s", diffAt(a, b))
		}
		if now := j.snapshot(); !reflect.DeepEqual(snap, now) {
			c.Fail("arguments were modified: %s", diffAt(fmt.Sprintf("%+v", snap), fmt.Sprintf("%+v", now)))
		}
	}
	c.Eval(2)
	c.Event("argument sets compared with their copies", 2)
	c.Distinct(a)
}

// c14slots: nothing of a former node is left in a reused slot of the stack.
func c14slots(c *Ctx, i int) {
	r := c.R
	w := newWalker(r)
	mk := func() []Op {
		// one node of each startable kind, at the same depth, with every field used
		switch r.N(9) {
		case 5:
			d := &N{K: "doc", Standalone: r.N(3), NoEnc: r.P(20), NoVer: r.P(20)}
			if r.P(40) {
				v := r.Pick("1.0", "1.1", "")
				d.FVer = &v
			}
			if r.P(40) {
				v := r.Pick("UTF-8", "x", "")
				d.FEnc = &v
			}
			l := []Op{{M: "StartDoc", N: []*N{d}}}
			if r.Bool() {
				l = append(l, Op{M: "WriteElem", N: []*N{w.node("elem")}})
			}
			return append(l, Op{M: r.Pick("EndDoc", "EndAny")})
		case 6:
			return []Op{writeOps(r, w.node(r.Pick("pi", "entity", "notation", "dtdelem", "text", "comment", "cdata", "attlist", "dtdattr", "attr")))}
		case 7:
			g := newG(r)
			g.Budget = r.Range(1, 12)
			return compile(r, []*N{g.elem(0)}, true)
		case 0:
			return []Op{{M: "StartComment", N: []*N{{K: "comment", Data: r.Pick("", "c", "x")}}}, {M: "EndComment"}}
		case 1:
			return []Op{{M: "StartCData", N: []*N{{K: "cdata", Data: r.Pick("", "]", "x]]")}}}, {M: "EndCData"}}
		case 2:
			return []Op{{M: "StartDTD", N: []*N{{K: "dtd", Name: "d", Sys: r.Pick("", "s")}}}, {M: "EndDTD"}}
		case 3:
			return []Op{{M: "StartDTDAttList", N: []*N{w.node("attlist")}}, {M: "EndDTDAttList"}}
		case 4:
			n := &N{K: "elem", Name: r.Pick("a", "b"), Full: r.Bool(), Prefix: r.Pick("", "p", "q")}
			if r.Bool() {
				n.URI = r.Pick("urn:1", "urn:2")
			}
			l := []Op{{M: "StartElem", N: []*N{n}}}
			if r.Bool() {
				u := "urn:3"
				if n.Prefix == "q" && n.URI != "" {
					u = n.URI
				}
				l = append(l, Op{M: "WriteAttr", N: []*N{{K: "attr", Prefix: "q", URI: u, Name: "z", Data: "v"}}})
			}
			if r.P(30) {
				l = append(l, Op{M: "WriteText", D: "t"})
			}
			return append(l, Op{M: r.Pick("EndElem", "EndElemFull", "EndAny")})
		}
		return []Op{{M: "StartElem", N: []*N{w.node("elem")}}, {M: "EndAny"}}
	}
	var all []Op
	want := ""
	for k := r.Range(2, 8); k > 0; k-- {
		p := mk()
		all = append(all, p...)
		out, err, at := runOps(p, Cfg{})
		if err != nil {
			c.Fail("call %d failed: %v\n%s", at, err, opsString(p))
		}
		want += out
	}
	c.Describe(func() string { return opsString(all) })
	got, err, at := runOps(all, Cfg{})
	if err != nil {
		c.Fail("call %d failed: %v", at, err)
	}
	if got != want {
		c.Fail("nodes look different after other nodes: %s", diffAt(want, got))
	}
	c.Event("nodes in reused slots", len(all))
	c.Distinct(opsString(all))
}
