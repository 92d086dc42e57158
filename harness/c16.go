package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"runtime"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C16",
		Rule: "histories of Do calls from several call sites run in lockstep with a reference model: all histories of up to three calls (four in the thorough tier) over every list of up to three values of nil and two errors, then seeded ones with long lists, typed nil errors, nested collectors, and Set, Panic, Must, Error, Unwrap, errors.Is and errors.As between the calls; " +
			"distinct by history",
		Suites: []Suite{
			{Name: "enumerated", Quick: 1 + 40 + 40*40 + 40*40*40, Thor: 1 + 40 + 40*40 + 40*40*40 + 40*40*40*40, Run: c16enum},
			{Name: "random", Quick: 400000, Thor: 3000000, Run: c16random},
			{Name: "must", Quick: 20000, Thor: 100000, Run: c16must},
			{Name: "writer", Quick: 50000, Thor: 300000, Run: c16writer},
		},
	})
}

type myErr struct{ n int }

func (e *myErr) Error() string { return fmt.Sprintf("myErr%d", e.nn()) }
func (e *myErr) nn() int {
	if e == nil {
		return -1
	}
	return e.n
}

type valErr int

func (e valErr) Error() string { return fmt.Sprintf("valErr%d", int(e)) }

// doSites call Do, and know where.
var doSites = []func(e *xw.ErrCollector, l []error) (string, int){
	func(e *xw.ErrCollector, l []error) (string, int) {
		_, f, n, _ := runtime.Caller(0)
		e.Do(l...)
		return f, n + 1
	},
	func(e *xw.ErrCollector, l []error) (string, int) {
		do := e.Do
		_, f, n, _ := runtime.Caller(0)
		do(l...)
		return f, n + 1
	},
	func(e *xw.ErrCollector, l []error) (f string, n int) {
		func() {
			func() {
				_, f, n, _ = runtime.Caller(0)
				e.Do(l...)
				n++
			}()
		}()
		return f, n
	},
	func(e *xw.ErrCollector, l []error) (f string, n int) {
		for k := 0; k < 1; k++ {
			_, f, n, _ = runtime.Caller(0)
			(*xw.ErrCollector).Do(e, l...)
		}
		return f, n + 1
	},
	func(e *xw.ErrCollector, l []error) (f string, n int) {
		done := make(chan bool)
		go func() {
			_, f, n, _ = runtime.Caller(0)
			e.Do(l...)
			close(done)
		}()
		<-done
		return f, n + 1
	},
	func(e *xw.ErrCollector, l []error) (f string, n int) {
		switch len(l) {
		case 0:
			_, f, n, _ = runtime.Caller(0)
			e.Do()
			return f, n + 1
		case 1:
			_, f, n, _ = runtime.Caller(0)
			e.Do(l[0])
			return f, n + 1
		case 2:
			_, f, n, _ = runtime.Caller(0)
			e.Do(l[0], l[1])
			return f, n + 1
		}
		_, f, n, _ = runtime.Caller(0)
		e.Do(l...)
		return f, n + 1
	},
}

// ecModel is what the collector should hold.
type ecModel struct {
	err   error
	index int
	file  string
	line  int
}

func (m *ecModel) do(l []error, file string, line int) {
	if m.err != nil {
		return
	}
	for i, e := range l {
		if e != nil {
			m.err, m.index, m.file, m.line = e, i+1, file, line
			return
		}
	}
}

var errBefore = errors.New("the error there was before")

// sameErr compares identities.
func sameErr(a, b error) (same bool) {
	defer func() {
		if recover() != nil { // incomparable
			same = fmt.Sprintf("%T%v", a, a) == fmt.Sprintf("%T%v", b, b)
		}
	}()
	return a == b
}

func (m *ecModel) check(c *Ctx, e *xw.ErrCollector) {
	if !sameErr(e.Err, m.err) {
		c.Fail("the collector holds %v, the first error was %v", e.Err, m.err)
	}
	if !sameErr(e.Unwrap(), m.err) || !sameErr(errors.Unwrap(e), m.err) {
		c.Fail("Unwrap gives %v, the first error was %v", e.Unwrap(), m.err)
	}
	target := errBefore
	e.Set(&target)
	var none error
	e.Set(&none)
	p := func() (p interface{}) {
		defer func() { p = recover() }()
		e.Panic()
		return nil
	}()
	if m.err == nil {
		if target != errBefore || none != nil {
			c.Fail("Set changes its target to %v though there was no error", target)
		}
		if p != nil {
			c.Fail("Panic panics with %v though there was no error", p)
		}
		if e.Index != 0 || e.File != "" || e.Line != 0 {
			c.Fail("there was no error, but the position is %s:%d #%d", e.File, e.Line, e.Index)
		}
		return
	}
	if e.Index != m.index {
		c.Fail("the error was number %d of its call, the collector says %d", m.index, e.Index)
	}
	if filepath.Base(e.File) != filepath.Base(m.file) || e.Line != m.line {
		c.Fail("the error was passed at %s:%d, the collector says %s:%d", m.file, m.line, e.File, e.Line)
	}
	for _, got := range []error{target, none} {
		if got == nil || !errors.Is(got, m.err) {
			c.Fail("Set gives %v, which is not the first error %v", got, m.err)
		}
		var ec *xw.ErrCollector
		if !errors.As(got, &ec) || !sameErr(ec.Err, m.err) {
			c.Fail("Set gives %v (%T), which does not hold the first error", got, got)
		}
	}
	if p == nil {
		c.Fail("Panic returns though there was an error")
	}
	if pe, ok := p.(error); !ok || !errors.Is(pe, m.err) {
		c.Fail("Panic panics with %v, which is not the first error %v", p, m.err)
	}
	s := e.Error()
	for _, part := range []string{m.err.Error(), fmt.Sprint(m.line), filepath.Base(m.file), fmt.Sprint(m.index)} {
		if !strings.Contains(s, part) {
			c.Fail("Error gives %q, without %q", s, part)
		}
	}
	c.Event("held errors compared", 1)
}

var c16alphabet = func() (l [][]error) {
	vals := []error{nil, errors.New("first"), &myErr{2}}
	l = append(l, []error{})
	for _, a := range vals {
		l = append(l, []error{a})
		for _, b := range vals {
			l = append(l, []error{a, b})
			for _, d := range vals {
				l = append(l, []error{a, b, d})
			}
		}
	}
	return l
}()

func c16enum(c *Ctx, i int) {
	n := len(c16alphabet)
	var hist []int
	for k, cnt := i, 1; ; {
		if k < cnt {
			m := k
			for x := 1; x < cnt; x *= n {
				hist = append(hist, m%n)
				m /= n
			}
			break
		}
		k -= cnt
		cnt *= n
	}
	c.Describe(func() string {
		s := ""
		for _, h := range hist {
			s += fmt.Sprintf("Do(%v) ", c16alphabet[h])
		}
		return s
	})
	e, m := &xw.ErrCollector{}, &ecModel{}
	for k, h := range hist {
		f, n := doSites[(i+k)%5](e, c16alphabet[h])
		m.do(c16alphabet[h], f, n)
		m.check(c, e)
	}
	if len(hist) == 0 {
		m.check(c, e)
	}
	c.Enumerated(1)
	c.Event("Do calls in lockstep with the model", len(hist))
}

func (r *RNG) err() error {
	switch r.N(12) {
	case 0:
		return (*myErr)(nil) // a non-nil error holding a nil pointer
	case 1:
		return valErr(0)
	case 2:
		return &xw.ErrCollector{Err: errors.New("nested"), File: "f", Line: 3, Index: 9}
	case 3:
		return fmt.Errorf("wrapped: %w", errBefore)
	case 4:
		return errors.New("")
	case 5:
		return &xw.ErrCollector{}
	}
	return fmt.Errorf("error %d", r.N(1000))
}

func c16random(c *Ctx, i int) {
	r := c.R
	e, m := &xw.ErrCollector{}, &ecModel{}
	desc := ""
	c.Describe(func() string { return desc })
	pct := r.PickInt(1, 5, 30)
	calls := r.Range(1, 12)
	for k := 0; k < calls; k++ {
		var l []error
		for n := r.PickInt(0, 1, 1, 2, 3, 5, 9, 40, 300); n > 0; n-- {
			if r.N(100) < pct {
				l = append(l, r.err())
			} else {
				l = append(l, nil)
			}
		}
		desc += fmt.Sprintf("Do(%v) ", l)
		cp := append([]error(nil), l...)
		f, n := pick(r, doSites)(e, l)
		for j := range l {
			if !sameErr(l[j], cp[j]) {
				c.Fail("Do changes its arguments")
			}
		}
		m.do(l, f, n)
		// observing in between must not change anything, nor must not observing
		if r.Bool() || k == calls-1 {
			m.check(c, e)
		}
	}
	c.Event("Do calls in lockstep with the model", calls)
	c.Distinct(desc)
	if i%20011 == 1 {
		c.Sample("%s", clip(desc))
	}
}

// c16must: Must returns iff all are nil, else panics with the first.
func c16must(c *Ctx, i int) {
	r := c.R
	e := &xw.ErrCollector{}
	m := &ecModel{}
	var hist []string
	c.Describe(func() string { return strings.Join(hist, " ") })
	if r.P(40) {
		// what Do collected is no error of a later Must
		var l []error
		for n := r.Range(0, 4); n > 0; n-- {
			if r.P(40) {
				l = append(l, r.err())
			} else {
				l = append(l, nil)
			}
		}
		f, n := pick(r, doSites)(e, l)
		m.do(l, f, n)
		hist = append(hist, fmt.Sprintf("Do(%v)", l))
		if m.err != nil {
			none := make([]error, r.N(4))
			hist = append(hist, fmt.Sprintf("Must(%v)", none))
			if p := func() (p interface{}) { defer func() { p = recover() }(); e.Must(none...); return nil }(); p != nil {
				c.Fail("Must panics with %v, but is given no error", p)
			}
			m.check(c, e)
			c.Event("Must calls without an error after one was collected", 1)
			c.Distinct(strings.Join(hist, " "))
			return
		}
	}
	for k := r.Range(1, 4); k > 0; k-- {
		var l []error
		for n := r.N(5); n > 0; n-- {
			if r.P(30) {
				l = append(l, r.err())
			} else {
				l = append(l, nil)
			}
		}
		var f string
		var n int
		p := func() (p interface{}) {
			defer func() { p = recover() }()
			_, f, n, _ = runtime.Caller(0)
			e.Must(l...)
			return nil
		}()
		hist = append(hist, fmt.Sprintf("Must(%v)", l))
		m.do(l, f, n+1)
		if (p != nil) != (m.err != nil) {
			c.Fail("Must panics with %v, the first error was %v", p, m.err)
		}
		m.check(c, e)
		if p != nil {
			pe, ok := p.(error)
			if !ok || !errors.Is(pe, m.err) {
				c.Fail("Must panics with %v, the first error was %v", p, m.err)
			}
			break // what a later Must does is unspecified
		}
	}
	c.Event("Must calls", len(hist))
	c.Distinct(strings.Join(hist, " "))
}

// c16writer: the errors of writer calls are collected in the order of the
// calls, and all calls are made.
func c16writer(c *Ctx, i int) {
	r := c.R
	w := newWalker(r)
	for k := r.Range(1, 12); k > 0; k-- {
		w.step()
		if r.P(30) {
			w.end()
		}
		if r.P(30) {
			w.op(Op{M: r.Pick("EndDTD", "EndCData"), I: -1}, true)
			if p, _ := w.parent(); p == "dtd" || p == "cdata" {
				w.ops, w.fail = w.ops[:len(w.ops)-1], w.fail[:len(w.fail)-1]
			}
		}
	}
	c.Describe(func() string { return opsString(w.ops) })
	s, s2 := &capSink{}, &capSink{}
	x, y := xw.Open(s), xw.Open(s2)
	base := x.Depth() + 1 - 1
	e, m := &xw.ErrCollector{}, &ecModel{}
	for k := 0; k < len(w.ops); {
		n := r.Range(1, 4)
		var l, l2 []error
		for ; n > 0 && k < len(w.ops); n-- {
			l = append(l, runStep(x, w.ops[k], base))
			l2 = append(l2, runStep(y, w.ops[k], base))
			k++
		}
		f, line := pick(r, doSites)(e, l)
		m.do(l, f, line)
		for j := range l {
			if (l[j] == nil) != (l2[j] == nil) {
				c.Fail("the verdict of a call changed")
			}
		}
	}
	m.check(c, e)
	x.Flush()
	y.Flush()
	if s.String() != s2.String() {
		c.Fail("collecting errors changes the output: %s", diffAt(s2.String(), s.String()))
	}
	c.Distinct(opsString(w.ops))
	c.Event("writer calls collected", len(w.ops))
}
