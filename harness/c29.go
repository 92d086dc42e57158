package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"testing"

	"github.com/shabbyrobe/xmlwriter/testtool"
)

func init() {
	register(&Check{
		ID: "C29",
		Rule: "the helpers are called with seeded conditions, errors, values, patterns and floats (boundaries of epsilon, signed zeros, infinities, NaN, neighbouring floats) on a recording test object; whether it was told to fail, how often, what was printed, and that the caller was left, are compared with the documented condition; " +
			"distinct by helper and arguments",
		Assume: []string{"invalid patterns, two equal infinities, and messages which are not strings are not tried"},
		Suites: []Suite{
			{Name: "calls", Quick: 200000, Thor: 1000000, Serial: true, Run: c29calls},
		},
	})
}

// fakeTB records failures; FailNow leaves the calling function as the real one.
type fakeTB struct {
	testing.TB
	failed int
	other  []string
}

type tbLeave struct{}

func (f *fakeTB) FailNow()                          { f.failed++; panic(tbLeave{}) }
func (f *fakeTB) Fail()                             { f.other = append(f.other, "Fail") }
func (f *fakeTB) Helper()                           {}
func (f *fakeTB) Fatal(a ...interface{})            { fmt.Print(a...); f.FailNow() }
func (f *fakeTB) Fatalf(s string, a ...interface{}) { fmt.Printf(s, a...); f.FailNow() }
func (f *fakeTB) Log(a ...interface{})              { fmt.Print(a...) }
func (f *fakeTB) Logf(s string, a ...interface{})   { fmt.Printf(s, a...) }
func (f *fakeTB) Error(a ...interface{})            { f.other = append(f.other, "Error") }
func (f *fakeTB) Errorf(string, ...interface{})     { f.other = append(f.other, "Errorf") }
func (f *fakeTB) SkipNow()                          { f.other = append(f.other, "SkipNow"); panic(tbLeave{}) }
func (f *fakeTB) Skip(a ...interface{})             { f.SkipNow() }

type c29nilErr struct{}

func (*c29nilErr) Error() string { return "typed nil" }

func c29value(r *RNG, depth int) interface{} {
	switch r.N(14) {
	case 0:
		return nil
	case 1:
		return r.N(3)
	case 2:
		return int64(r.N(3))
	case 3:
		return r.Pick("", "a", "b")
	case 4:
		return []byte(r.Pick("", "a", "b"))
	case 5:
		return []byte(nil)
	case 6:
		return float64(r.N(2))
	case 7:
		return math.NaN()
	case 8:
		return r.Bool()
	case 9:
		return errors.New(r.Pick("x", "y"))
	case 10:
		n := r.N(2)
		return &n
	case 11:
		return map[string]int{"a": r.N(2)}
	}
	if depth > 2 {
		return struct{ A, B int }{r.N(2), r.N(2)}
	}
	l := []interface{}{}
	for n := r.N(3); n > 0; n-- {
		l = append(l, c29value(r, depth+1))
	}
	return l
}

func c29float(r *RNG) float64 {
	switch r.N(8) {
	case 0:
		return math.Inf(1 - 2*r.N(2))
	case 1:
		return math.NaN()
	case 2:
		return math.Copysign(0, float64(1-2*r.N(2)))
	case 3:
		return math.Float64frombits(r.U64())
	case 4:
		return float64(r.Range(-3, 3)) * math.SmallestNonzeroFloat64
	}
	return float64(r.Range(-8, 8)) / 4
}

// captured calls f with standard output going to a pipe.
func captured(f func()) (out string, left bool) {
	old := os.Stdout
	pr, pw, err := os.Pipe()
	must(err)
	done := make(chan string)
	go func() {
		var b bytes.Buffer
		io.Copy(&b, pr)
		done <- b.String()
	}()
	os.Stdout = pw
	defer func() {
		e := recover()
		os.Stdout = old
		pw.Close()
		out = <-done
		pr.Close()
		if _, left = e.(tbLeave); !left && e != nil {
			panic(e)
		}
	}()
	f()
	return
}

func c29calls(c *Ctx, i int) {
	r := c.R
	tb := &fakeTB{}
	var args []interface{}
	msg := ""
	switch r.N(4) {
	case 0:
		msg = "plain"
		args = []interface{}{msg}
	case 1:
		msg = fmt.Sprintf("got %d of %q", i, "x")
		args = []interface{}{"got %d of %q", i, "x"}
	case 2:
		msg = "100%"
		args = []interface{}{"100%%"}
	}
	var what, contains string
	var want bool // must fail
	var call func() int
	line := func() int { _, _, l, _ := runtime.Caller(1); return l }
	var at int
	switch i % 5 {
	case 0:
		ok := r.Bool()
		what, want = fmt.Sprintf("Assert(%v, %v)", ok, args), !ok
		call = func() int { at = line(); testtool.Assert(tb, ok, args...); return 0 }
		contains = msg
	case 1:
		pat := r.Pick("^a+$", "b", "", "a|b", "(?i)AB", "^$", "[0-9]{2}", "a.c", "\\n", "$")
		s := r.Pick("", "a", "aa", "b", "ab", "aB", "x12y", "1", "a\nc", "\n", "abc", "é")
		what, want = fmt.Sprintf("Pattern(%q, %q)", pat, s), !regexp.MustCompile(pat).MatchString(s)
		call = func() int { at = line(); testtool.Pattern(tb, pat, s); return 0 }
		contains = fmt.Sprintf("%#v", s)
	case 2:
		eps := math.Abs(c29float(r))
		a := c29float(r)
		b := a + eps*float64(r.Range(-4, 4))/2
		switch r.N(5) {
		case 0:
			b = math.Nextafter(b, math.Inf(1-2*r.N(2)))
		case 1:
			b = c29float(r)
		case 2:
			b = a
		}
		if math.IsInf(a, 0) && a == b {
			return
		}
		near := a == b || math.Abs(a-b) < eps
		what, want = fmt.Sprintf("FloatNear(%v, %v, %v, %v)", eps, a, b, args), !near
		call = func() int { at = line(); testtool.FloatNear(tb, eps, a, b, args...); return 0 }
		contains = msg
	case 3:
		var err error
		switch r.N(4) {
		case 0:
			err = errors.New(r.Pick("", "bad", "50%d", "a\nb"))
		case 1:
			err = fmt.Errorf("w: %w", io.EOF)
		case 2:
			err = (*c29nilErr)(nil) // not the nil error
		}
		what, want = fmt.Sprintf("OK(%#v)", err), err != nil
		call = func() int { at = line(); testtool.OK(tb, err); return 0 }
		if err != nil {
			contains = err.Error()
		}
	case 4:
		a := c29value(r, 0)
		b := c29value(r, 0)
		if r.Bool() { // the same kind of value again
			r2 := *r
			a = c29value(r, 0)
			b = c29value(&r2, 0)
		}
		what, want = fmt.Sprintf("Equals(%#v, %#v)", a, b), !reflect.DeepEqual(a, b)
		call = func() int { at = line(); testtool.Equals(tb, a, b); return 0 }
	}
	c.Describe(func() string { return what })
	returned := false
	out, left := captured(func() { call(); returned = true })
	c.Distinct(what)
	switch {
	case len(tb.other) > 0:
		c.Fail("%s calls %v", what, tb.other)
	case want && tb.failed == 0:
		c.Fail("%s does not fail the test", what)
	case !want && tb.failed > 0:
		c.Fail("%s fails the test", what)
	case tb.failed > 1:
		c.Fail("%s fails the test %d times", what, tb.failed)
	case left != want || returned == want:
		c.Fail("%s: left the caller: %v, returned: %v", what, left, returned)
	case !want && out != "":
		c.Fail("%s prints %q though it holds", what, out)
	case want && !strings.Contains(out, fmt.Sprintf("c29.go:%d", at)):
		c.Fail("%s prints %q, without the caller's place c29.go:%d", what, out, at)
	case want && !strings.Contains(out, contains):
		c.Fail("%s prints %q, without %q", what, out, contains)
	}
	if want {
		c.Event("failures seen", 1)
	} else {
		c.Event("passes seen", 1)
	}
	c.Sample("%s: fails %v", what, want)
}
