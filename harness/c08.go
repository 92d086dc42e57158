package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/unicode"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID:    "C08",
		Level: "fault_enumeration",
		Rule: "seeded programs over buffer sizes 1..4096, plain, indented and encoded; the sink fails at each write index (all of them up to 24, else 24 drawn) in each way (error with nothing written, error after a part, short write without an error, one failure then recovery, error with everything written), " +
			"the caller stops or carries on; monitors compare the sink with the fault-free run and watch every Flush; non-trivial: the fault was reached; distinct by program, index and way",
		Assume: []string{"sinks that report a short write without an error are tried on unencoded writers only (x/text ignores the count)"},
		Suites: []Suite{
			{Name: "faults", Quick: 30000, Thor: 200000, Run: c08faults},
			{Name: "wrappers", Quick: 3000, Thor: 20000, Run: c08wrappers},
		},
	})
}

var errInjected = errors.New("injected sink failure")

type faultSink struct {
	bytes.Buffer
	n       int // writes so far
	at      int // fail this write (from 0); -1 never
	kind    int
	faulted bool
	after   int // bytes received after the fault
}

const (
	fkError = iota
	fkPartial
	fkShort
	fkTransient
	fkFullErr
	nFaultKinds
)

var faultNames = []string{"error", "partial write and error", "short write without error", "one failure, then recovery", "error after writing all"}

func (s *faultSink) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

func (s *faultSink) Write(b []byte) (int, error) {
	k := s.n
	s.n++
	if s.at < 0 || k < s.at {
		return s.Buffer.Write(b)
	}
	if s.faulted {
		s.after += len(b)
		if s.kind == fkTransient {
			return s.Buffer.Write(b)
		}
		return 0, errInjected
	}
	if len(b) == 0 {
		s.at++
		return 0, nil
	}
	s.faulted = true
	switch s.kind {
	case fkPartial:
		n := len(b) / 2
		s.Buffer.Write(b[:n])
		return n, errInjected
	case fkShort:
		n := len(b) - 1 - len(b)/3
		if n < 0 {
			n = 0
		}
		s.Buffer.Write(b[:n])
		return n, nil
	case fkFullErr:
		s.Buffer.Write(b)
		return len(b), errInjected
	}
	return 0, errInjected
}

// plainSink hides WriteString.
type plainSink struct{ s *faultSink }

func (p plainSink) Write(b []byte) (int, error) { return p.s.Write(b) }

type encCase struct {
	name string
	e    encoding.Encoding
}

var c08encs = []encCase{{"windows-1252", charmap.Windows1252}, {"utf-16le", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)}, {"utf-16", unicode.UTF16(unicode.BigEndian, unicode.UseBOM)}}

func c08open(sink *faultSink, cfg Cfg, enc int, hide bool) *xw.Writer {
	var w io.Writer = sink
	if hide {
		w = plainSink{sink}
	}
	if enc >= 0 {
		e := c08encs[enc]
		return xw.OpenEncoding(w, e.name, e.e.NewEncoder(), cfg.options()...)
	}
	return xw.Open(w, cfg.options()...)
}

func c08program(c *Ctx) []Op {
	g := newG(c.R)
	g.ASCII = true
	g.Budget = c.R.Range(1, 14)
	if c.R.P(50) {
		g.Plain = true
	}
	ops := compile(c.R, g.document(), true)
	// more flushes
	if c.R.P(60) {
		var l []Op
		for _, o := range ops {
			l = append(l, o)
			if c.R.P(25) {
				l = append(l, Op{M: "Flush"})
			}
		}
		ops = l
	}
	if c.R.Bool() {
		ops = append(ops, Op{M: "EndAllFlush"})
	}
	return append(ops, Op{M: "Flush"})
}

func c08faults(c *Ctx, i int) {
	ops := c08program(c)
	cfg := c.vary(Cfg{NoStrict: c.R.P(20), Buf: c.R.PickInt(1, 1, 2, 3, 5, 8, 13, 16, 32, 64, 128, 0, 4096)})
	cfg.Enc, cfg.Warm, cfg.Late = "", 0, false
	if c.R.P(40) {
		s := c.R.Pick(" ", "\t", "    ")
		cfg.Indent = &s
	}
	if c.R.P(15) {
		cfg.NoEnforce = true
	}
	enc := -1
	if c.R.P(30) {
		enc = c.R.N(len(c08encs))
	}
	hide := c.R.Bool()

	ref := &faultSink{at: -1}
	w := c08open(ref, cfg, enc, hide)
	for k, o := range ops {
		if err := call(w, o); err != nil {
			c.Describe(func() string { return opsString(ops) })
			c.Fail("without a fault, call %d (%s) failed: %v", k, clip(o.String()), err)
		}
	}
	full := ref.String()
	var idx []int
	if ref.n <= 24 {
		for k := 0; k < ref.n; k++ {
			idx = append(idx, k)
		}
	} else {
		idx = append(idx, 0, 1, ref.n-1, ref.n-2)
		for len(idx) < 24 {
			idx = append(idx, c.R.N(ref.n))
		}
	}
	prog := opsString(ops)
	for _, at := range idx {
		for kind := 0; kind < nFaultKinds; kind++ {
			if kind == fkShort && enc >= 0 {
				continue
			}
			stop := c.R.P(30)
			c.Describe(func() string {
				return fmt.Sprintf("write %d of %d: %s; config %s, encoding %d, stop at the first error %v\nprogram:\n%s", at, ref.n, faultNames[kind], dump(cfg), enc, stop, prog)
			})
			c08one(c, ops, cfg, enc, hide, at, kind, stop, full)
			c.Distinct(prog, fmt.Sprint(at, kind))
		}
	}
	c.Event("write indexes", len(idx))
	if i%900 == 3 {
		c.Sample("%d writes of %d bytes in all, buffer %d; faults at %v", ref.n, len(full), cfg.Buf, idx)
	}
}

func c08wanted(kind int, err error) bool {
	if kind == fkShort {
		// bufio may also go on with the rest, and then meets the error
		return errors.Is(err, io.ErrShortWrite) || errors.Is(err, errInjected)
	}
	return errors.Is(err, errInjected)
}

func c08one(c *Ctx, ops []Op, cfg Cfg, enc int, hide bool, at, kind int, stop bool, full string) {
	s := &faultSink{at: at, kind: kind}
	w := c08open(s, cfg, enc, hide)
	reported := false
	where := "nowhere"
	for k, o := range ops {
		before := s.faulted
		err := call(w, o)
		if err != nil && !s.faulted {
			c.Fail("call %d (%s) failed before there was a fault: %v", k, clip(o.String()), err)
		}
		if s.faulted && err != nil && !reported {
			if !before && !c08wanted(kind, err) {
				c.Fail("call %d (%s), which met the fault, reports another error: %v", k, clip(o.String()), err)
			}
			reported = true
			where = fmt.Sprintf("call %d", k)
		}
		if s.faulted && (o.M == "Flush" || o.M == "EndAllFlush" && err == nil) {
			if err == nil {
				c.Fail("the sink failed, but call %d (%s) succeeds", k, o.M)
			}
			if !c08wanted(kind, err) {
				c.Fail("the sink failed, but call %d (%s) reports another error: %v", k, o.M, err)
			}
		}
		if err != nil && stop {
			break
		}
	}
	if !s.faulted {
		c.Fail("harness: the fault at write %d was not reached", at)
	}
	for k := 0; k < 3; k++ {
		err := w.Flush()
		if err == nil {
			c.Fail("the sink failed (reported by %s), but Flush number %d afterwards succeeds", where, k+1)
		}
		if !c08wanted(kind, err) {
			c.Fail("the sink failed, but Flush number %d afterwards reports another error: %v", k+1, err)
		}
	}
	if got := s.String(); !strings.HasPrefix(full, got) {
		c.Fail("the sink received what is no prefix of the fault-free output: %s", diffAt(full, got))
	}
	c.Eval(1)
	c.Event("faults injected", 1)
	if reported {
		c.Event("reported by the call or one before the last Flush", 1)
	}
}

// c08wrappers: the error keeps its identity through ErrCollector, and
// long content meets the failing sink in the middle of one call.
func c08wrappers(c *Ctx, i int) {
	kind := i % nFaultKinds
	size := c.R.PickInt(1, 16, 100, 2048)
	at := c.R.N(6)
	s := &faultSink{at: at, kind: kind}
	w := xw.Open(s, Cfg{Buf: size}.options()...)
	ec := &xw.ErrCollector{}
	long := strings.Repeat(c.R.Pick("text ", "<&>", "é\n", "\x00"), size*3+10)
	c.Describe(func() string { return fmt.Sprintf("buffer %d, fault at %d: %s", size, at, faultNames[kind]) })
	ec.Do(
		w.StartElem(xw.Elem{Name: "a"}),
		w.WriteAttr(xw.Attr{Name: "b", Value: long}),
		w.WriteText(long),
		w.WriteComment(xw.Comment{Content: strings.ReplaceAll(long, "\x00", "x")}),
		w.WriteCData(xw.CData{Content: strings.ReplaceAll(long, "\x00", "x")}),
		w.WriteRaw(long),
		w.WritePI(xw.PI{Target: "p", Content: strings.ReplaceAll(long, "\x00", "x")}),
		w.EndAllFlush(),
	)
	if s.faulted {
		var err error
		ec.Set(&err)
		if err == nil || !c08wanted(kind, err) {
			c.Fail("the sink failed, but the collected error is %v", err)
		}
		c.Distinct(fmt.Sprint(kind, size, at, len(long)))
	} else if ec.Err != nil {
		c.Fail("no fault but error %v", ec.Err)
	}
	for k := 0; k < 2; k++ {
		if err := w.Flush(); (err != nil) != s.faulted {
			c.Fail("fault %v, but Flush gives %v", s.faulted, err)
		}
	}
}
