package main

import (
	"fmt"
	"io"
	"runtime"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C09",
		Rule: "each seeded program is run unflushed with 9 buffer sizes, with random Flush calls, and once flushed after every call, which gives the exact number of bytes produced by each call; after every call the sink must hold a prefix of the output that lacks at most the buffer size, after Flush nothing; " +
			"a separate serial suite measures live memory while writing tens of megabytes; non-trivial: output longer than the buffer; distinct by program and buffer size",
		Suites: []Suite{
			{Name: "buffers", Quick: 60000, Thor: 500000, Run: c09buffers},
			{Name: "memory", Quick: 12, Thor: 24, Serial: true, Run: c09memory},
		},
	})
}

func c09buffers(c *Ctx, i int) {
	g := newG(c.R)
	g.Budget = c.R.Range(1, 20)
	enc := -1
	if c.R.P(20) {
		enc = c.R.N(2)
		g.ASCII = true
	}
	tops := g.document()
	ops := compile(c.R, tops, true)
	var cfg Cfg
	if c.R.P(40) {
		s := c.R.Pick(" ", "\t\t", "")
		cfg.Indent = &s
	}
	desc := "unflushed"
	c.Describe(func() string {
		return fmt.Sprintf("%s, config %s, encoding %d\nprogram:\n%s", desc, dump(cfg), enc, opsString(ops))
	})

	// the reference: what every call produces
	s := &faultSink{at: -1}
	cfg.Buf = c.R.PickInt(1, 64, 0)
	desc = "flushed after every call"
	w := c08open(s, cfg, enc, true)
	lens := make([]int, len(ops))
	for k, o := range ops {
		if err := call(w, o); err != nil {
			c.Fail("call %d (%s) failed: %v", k, clip(o.String()), err)
		}
		if err := w.Flush(); err != nil {
			c.Fail("Flush after call %d failed: %v", k, err)
		}
		lens[k] = s.Len()
	}
	full := s.String()

	sizes := []int{1, 2, 16, 17, 4096, 0, -1, c.R.Range(1, 40), c.R.Range(1, 4000)}
	for _, size := range sizes {
		cfg.Buf = size
		flushP := 0
		if c.R.Bool() {
			flushP = c.R.Range(1, 60)
		}
		desc = fmt.Sprintf("buffer %d, flush after %d%% of the calls", size, flushP)
		held := size
		if held <= 0 {
			held = 2048
		}
		if enc >= 0 {
			held = held*4 + 8
		}
		s := &faultSink{at: -1}
		w := c08open(s, cfg, enc, c.R.Bool())
		for k, o := range ops {
			if err := call(w, o); err != nil {
				c.Fail("call %d (%s) failed: %v", k, clip(o.String()), err)
			}
			if o.M == "Flush" || c.R.N(100) < flushP {
				if err := w.Flush(); err != nil {
					c.Fail("Flush failed: %v", err)
				}
				if s.Len() != lens[k] {
					c.Fail("after Flush the sink has %d bytes, but %d were written up to call %d", s.Len(), lens[k], k)
				}
				c.Event("flushes observed", 1)
			}
			if s.Len() > lens[k] {
				c.Fail("after call %d the sink has %d bytes, but only %d were written", k, s.Len(), lens[k])
			}
			if lens[k]-s.Len() > held {
				c.Fail("after call %d (%s) %d bytes are held back, more than the buffer of %d", k, clip(o.String()), lens[k]-s.Len(), held)
			}
			if got := s.Buffer.Bytes(); string(got) != full[:len(got)] {
				c.Fail("after call %d the sink differs: %s", k, diffAt(full, string(got)))
			}
		}
		if err := w.Flush(); err != nil {
			c.Fail("Flush failed: %v", err)
		}
		if s.String() != full {
			c.Fail("the output depends on buffer or flushes: %s", diffAt(full, s.String()))
		}
		c.Event("calls observed", len(ops))
		c.Eval(1)
		if len(full) > held {
			c.Distinct(full, fmt.Sprint(size))
		}
	}
	if i%4001 == 2 {
		c.Sample("%d calls, %d bytes, %d buffer sizes", len(ops), len(full), len(sizes))
	}
}

type countSink struct{ n int64 }

func (s *countSink) Write(b []byte) (int, error) { s.n += int64(len(b)); return len(b), nil }

func liveHeap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func c09memory(c *Ctx, i int) {
	s := &countSink{}
	var opts []xw.Option
	name := fmt.Sprintf("variant %d", i%12)
	if i%2 == 1 {
		opts = append(opts, xw.WithIndent())
	}
	var w *xw.Writer
	if i%12 >= 8 {
		w = xw.OpenEncoding(s, c08encs[i%2].name, c08encs[i%2].e.NewEncoder(), opts...)
	} else {
		w = xw.Open(s, opts...)
	}
	must := func(err error) {
		if err != nil {
			c.Fail("%s: %v", name, err)
		}
	}
	text := strings.Repeat("some text & more ", 4)
	big := strings.Repeat(text, 2000)
	unit := func(k int) {
		switch i % 6 {
		case 0, 1:
			must(w.StartElem(xw.Elem{Name: "row"}))
			must(w.WriteAttr(xw.Attr{Name: "id"}.Int(k)))
			must(w.WriteText(text))
			must(w.EndElem())
		case 2:
			must(w.StartElem(xw.Elem{Name: "row", Prefix: "p", URI: "urn:p"}))
			must(w.WriteAttr(xw.Attr{Prefix: "q", URI: "urn:q", Name: "id", Value: text}))
			must(w.WriteComment(xw.Comment{Content: text}))
			must(w.WritePI(xw.PI{Target: "t", Content: text}))
			must(w.EndElemFull())
		case 3:
			must(w.Write(xw.Elem{Name: "row", Attrs: []xw.Attr{{Name: "a", Value: text}}, Content: []xw.Writable{xw.Text(text), xw.Elem{Name: "x"}}}))
		case 4:
			must(w.StartElem(xw.Elem{Name: "a"}))
			must(w.StartElem(xw.Elem{Name: "b"}))
			must(w.StartCData(xw.CData{}))
			must(w.WriteCDataContent(text))
			must(w.EndToDepth(w.Depth()-3, xw.ElemNode))
		case 5:
			if k%100 == 0 {
				must(w.WriteText(big))
			}
			must(w.WriteText(text))
		}
	}
	must(w.StartDoc(xw.Doc{}))
	must(w.StartElem(xw.Elem{Name: "root"}))
	n := 60000
	if c.Thorough() {
		n = 1000000
	}
	for k := 0; k < 2000; k++ {
		unit(k)
	}
	before := liveHeap()
	from := s.n
	var peak int64
	for k := 0; k < n; k++ {
		unit(k)
		if k%(n/4) == n/8 {
			if h := liveHeap() - before; h > peak {
				peak = h
			}
		}
	}
	if h := liveHeap() - before; h > peak {
		peak = h
	}
	if peak > 200<<10 {
		c.Fail("%s: writing %d more bytes grew live memory by %d bytes", name, s.n-from, peak)
	}
	must(w.EndAllFlush())
	runtime.KeepAlive(w)
	c.Event("bytes written with live memory watched", int(s.n))
	c.Distinct(name)
	c.Sample("%s: %d bytes written, live memory grew by at most %d", name, s.n, peak)
}

var _ io.Writer = (*countSink)(nil)
