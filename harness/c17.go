package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C17",
		Rule: "every 8- and 16-bit value, both booleans, boundary values of every width (powers of two and ten and their neighbours) and seeded bit patterns of the wider types; each attribute value is read back with strconv and compared, its form with the canonical one (floats: no shorter digit string reads back), the other fields with the originals, and the written document with the attribute; " +
			"distinct by type and value",
		Assume: []string{"Attr.Uint takes an int: negative values are left out"},
		Suites: []Suite{
			{Name: "small", Quick: 512, Run: c17small},
			{Name: "boundary", Quick: 64 * 3, Run: c17boundary},
			{Name: "powers10", Quick: 700, Run: c17powers},
			{Name: "random", Quick: 2000000, Thor: 8000000, Run: c17random},
			{Name: "written", Quick: 200000, Thor: 400000, Run: c17written},
		},
	})
}

var (
	canonInt   = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)
	floatForm  = regexp.MustCompile(`^[+-]?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)
	digitsOnly = regexp.MustCompile(`[eE].*$|[^0-9]`)
)

func c17base(c *Ctx) xw.Attr {
	return pick(c.R, []xw.Attr{{Name: "a"}, {}, {Prefix: "p", URI: "urn:x", Name: "b", Value: "old"}, {Name: "é", Value: "<&>"}, {URI: "u", Value: "1"}})
}

// frame compares what must not change.
func c17frame(c *Ctx, base, got, again xw.Attr, what string) {
	if got.Name != base.Name || got.Prefix != base.Prefix || got.URI != base.URI {
		c.Fail("%s changes other fields of %+v: %+v", what, base, got)
	}
	if got != again {
		c.Fail("%s is not reproducible: %+v, %+v", what, got, again)
	}
	c.Event("attributes read back", 1)
}

func c17int(c *Ctx, typ string, v int64) {
	base := c17base(c)
	set := func() xw.Attr {
		switch typ {
		case "int":
			return base.Int(int(v))
		case "int8":
			return base.Int8(int8(v))
		case "int16":
			return base.Int16(int16(v))
		case "int32":
			return base.Int32(int32(v))
		case "int64":
			return base.Int64(v)
		case "uint(int)":
			return base.Uint(int(v))
		}
		panic("harness: " + typ)
	}
	bits := map[string]int{"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint(int)": 64}[typ]
	if bits < 64 {
		v = v << (64 - bits) >> (64 - bits)
	}
	if typ == "uint(int)" && v < 0 {
		return
	}
	keep := base
	a := set()
	if base != keep {
		c.Fail("%s(%d) modifies its receiver", typ, v)
	}
	c17frame(c, base, a, set(), fmt.Sprintf("%s(%d)", typ, v))
	got, err := strconv.ParseInt(a.Value, 10, bits)
	if err != nil || got != v || !canonInt.MatchString(a.Value) {
		c.Fail("%s(%d) gives %q, which reads back as %d (%v)", typ, v, a.Value, got, err)
	}
	c.Distinct(typ, a.Value)
}

func c17uint(c *Ctx, typ string, v uint64) {
	base := c17base(c)
	bits := 64
	var set func() xw.Attr
	switch typ {
	case "uint8":
		bits = 8
		set = func() xw.Attr { return base.Uint8(uint8(v)) }
	case "uint16":
		bits = 16
		set = func() xw.Attr { return base.Uint16(uint16(v)) }
	case "uint32":
		bits = 32
		set = func() xw.Attr { return base.Uint32(uint32(v)) }
	case "uint64":
		set = func() xw.Attr { return base.Uint64(v) }
	}
	v = v << (64 - bits) >> (64 - bits)
	a := set()
	c17frame(c, base, a, set(), fmt.Sprintf("%s(%d)", typ, v))
	got, err := strconv.ParseUint(a.Value, 10, bits)
	if err != nil || got != v || !canonInt.MatchString(a.Value) {
		c.Fail("%s(%d) gives %q, which reads back as %d (%v)", typ, v, a.Value, got, err)
	}
	c.Distinct(typ, a.Value)
}

// sigDigits is how many significant digits a number is written with.
func sigDigits(s string) int {
	d := strings.TrimLeft(digitsOnly.ReplaceAllString(s, ""), "0")
	if strings.Contains(s, ".") {
		return len(d)
	}
	d = strings.TrimRight(d, "0")
	return len(d)
}

func c17float(c *Ctx, bits int, v float64) {
	base := c17base(c)
	typ := fmt.Sprintf("float%d", bits)
	set := func() xw.Attr {
		if bits == 32 {
			return base.Float32(float32(v))
		}
		return base.Float64(v)
	}
	a := set()
	c17frame(c, base, a, set(), fmt.Sprintf("%s(%v)", typ, v))
	c.Distinct(typ, a.Value)
	got, err := strconv.ParseFloat(a.Value, bits)
	if math.IsNaN(v) {
		if err != nil || !math.IsNaN(got) {
			c.Fail("%s(%v) gives %q, which reads back as %v (%v)", typ, v, a.Value, got, err)
		}
		return
	}
	if err != nil || math.Float64bits(got) != math.Float64bits(v) {
		c.Fail("%s(%v) gives %q, which reads back as %v (%v)", typ, v, a.Value, got, err)
	}
	if math.IsInf(v, 0) {
		return
	}
	if !floatForm.MatchString(a.Value) {
		c.Fail("%s(%v) gives %q, which is not a decimal number", typ, v, a.Value)
	}
	if v == 0 {
		return
	}
	n := sigDigits(a.Value)
	min := 1
	for ; ; min++ {
		s := strconv.FormatFloat(v, 'e', min-1, bits)
		if g, err := strconv.ParseFloat(s, bits); err == nil && g == v {
			break
		}
	}
	if n > min {
		c.Fail("%s(%v) gives %q with %d digits, but %d are enough", typ, v, a.Value, n, min)
	}
	c.Event("shortest forms compared", 1)
}

var intTypes = []string{"int", "int8", "int16", "int32", "int64", "uint(int)"}
var uintTypes = []string{"uint8", "uint16", "uint32", "uint64"}

func c17all(c *Ctx, u uint64) {
	for _, t := range intTypes {
		c17int(c, t, int64(u))
	}
	for _, t := range uintTypes {
		c17uint(c, t, u)
	}
}

func c17small(c *Ctx, i int) {
	c.Describe(func() string { return fmt.Sprintf("block %d of the small values", i) })
	if i < 256 {
		for k := 0; k < 256; k++ {
			v := i*256 + k
			c17int(c, "int16", int64(int16(v)))
			c17uint(c, "uint16", uint64(v))
			c.Eval(2)
		}
		return
	}
	v := i - 256
	c17int(c, "int8", int64(int8(v)))
	c17uint(c, "uint8", uint64(v))
	for _, b := range []bool{true, false} {
		base := c17base(c)
		a := base.Bool(b)
		c17frame(c, base, a, base.Bool(b), fmt.Sprintf("Bool(%v)", b))
		want := "false"
		if b {
			want = "true"
		}
		if a.Value != want {
			c.Fail("Bool(%v) gives %q", b, a.Value)
		}
	}
	// exact small numbers
	c17float(c, 32, float64(v))
	c17float(c, 64, float64(v)/8)
	c17float(c, 32, -float64(v)/16)
}

func c17boundary(c *Ctx, i int) {
	c.Describe(func() string { return fmt.Sprintf("around 2^%d", i/3) })
	u := uint64(1)<<(i/3) + uint64(i%3) - 1
	c17all(c, u)
	c17all(c, -u)
	c17all(c, ^u)
	for _, f := range []float64{float64(u), -float64(u), float64(int64(u)), 1 / float64(u|1), math.Ldexp(1, i), math.Ldexp(1, -i), math.Ldexp(1, 1023-i), math.Ldexp(1, -1074+i)} {
		for _, g := range []float64{f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1))} {
			c17float(c, 64, g)
			c17float(c, 32, float64(float32(g)))
		}
		h := float32(f)
		c17float(c, 32, float64(math.Nextafter32(h, float32(math.Inf(1)))))
		c17float(c, 32, float64(math.Nextafter32(h, float32(math.Inf(-1)))))
	}
	if i == 0 {
		for _, f := range []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi} {
			c17float(c, 64, f)
			c17float(c, 32, float64(float32(f)))
		}
		c17float(c, 32, math.MaxFloat32)
		c17float(c, 32, math.SmallestNonzeroFloat32)
	}
}

func c17powers(c *Ctx, i int) {
	c.Describe(func() string { return fmt.Sprintf("around 10^%d", i-350) })
	f, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", i-350), 64)
	for _, m := range []float64{1, 0.1, 3, 9.999999, 1.23456789} {
		g := f * m
		c17float(c, 64, g)
		c17float(c, 64, math.Nextafter(g, 0))
		c17float(c, 64, math.Nextafter(g, math.Inf(1)))
		c17float(c, 32, float64(float32(g)))
	}
	if i >= 350 && i < 350+20 {
		u := uint64(1)
		for k := 350; k < i; k++ {
			u *= 10
		}
		for d := -2; d <= 2; d++ {
			c17all(c, u+uint64(d))
			c17all(c, -(u + uint64(d)))
		}
	}
}

func c17random(c *Ctx, i int) {
	u := c.R.U64()
	if c.R.Bool() {
		u >>= uint(c.R.N(64))
	}
	c.Describe(func() string { return fmt.Sprintf("%#x", u) })
	c17all(c, u)
	c17float(c, 64, math.Float64frombits(u))
	c17float(c, 64, float64(int64(u)))
	c17float(c, 32, float64(math.Float32frombits(uint32(u))))
	c17float(c, 32, float64(float32(int32(u))))
	c17float(c, 64, float64(int32(u))/pick(c.R, []float64{10, 100, 1000, 1e6}))
	c.Eval(14)
	if i%10007 == 5 {
		c.Sample("bits %#x: %+v, float %+v", u, xw.Attr{}.Int64(int64(u)), xw.Attr{}.Float64(math.Float64frombits(u)))
	}
}

// c17written: the value that reaches the document is the one of the attribute.
func c17written(c *Ctx, i int) {
	r := c.R
	u := r.U64() >> uint(r.N(64))
	f := math.Float64frombits(r.U64())
	l := []xw.Attr{
		xw.Attr{Name: "i"}.Int(int(u)), xw.Attr{Name: "i8"}.Int8(int8(u)), xw.Attr{Name: "i16"}.Int16(int16(u)), xw.Attr{Name: "i32"}.Int32(int32(u)), xw.Attr{Name: "i64"}.Int64(int64(u)),
		xw.Attr{Name: "u"}.Uint(int(u >> 1)), xw.Attr{Name: "u8"}.Uint8(uint8(u)), xw.Attr{Name: "u16"}.Uint16(uint16(u)), xw.Attr{Name: "u32"}.Uint32(uint32(u)), xw.Attr{Name: "u64"}.Uint64(u),
		xw.Attr{Name: "f32"}.Float32(float32(f)), xw.Attr{Name: "f64"}.Float64(f), xw.Attr{Name: "b"}.Bool(u&1 == 1),
	}
	c.Describe(func() string { return fmt.Sprintf("%+v", l) })
	s := &capSink{}
	w := xw.Open(s)
	var err error
	if r.Bool() {
		err = w.WriteElem(xw.Elem{Name: "a", Attrs: l})
	} else {
		ec := &xw.ErrCollector{}
		ec.Do(w.StartElem(xw.Elem{Name: "a"}), w.WriteAttr(l...), w.EndElem())
		ec.Set(&err)
	}
	if err != nil {
		c.Fail("%v", err)
	}
	w.Flush()
	toks, err := parseXML(s.String())
	if err != nil {
		c.Fail("%v in %q", err, s.String())
	}
	for k, a := range toks[0].Attrs {
		var got interface{}
		var want interface{}
		switch a.K {
		case "i", "i64":
			got, err = strconv.ParseInt(a.V, 10, 64)
			want = int64(u)
		case "i8":
			got, err = strconv.ParseInt(a.V, 10, 8)
			want = int64(int8(u))
		case "i16":
			got, err = strconv.ParseInt(a.V, 10, 16)
			want = int64(int16(u))
		case "i32":
			got, err = strconv.ParseInt(a.V, 10, 32)
			want = int64(int32(u))
		case "u":
			got, err = strconv.ParseUint(a.V, 10, 64)
			want = u >> 1
		case "u8":
			got, err = strconv.ParseUint(a.V, 10, 8)
			want = uint64(uint8(u))
		case "u16":
			got, err = strconv.ParseUint(a.V, 10, 16)
			want = uint64(uint16(u))
		case "u32":
			got, err = strconv.ParseUint(a.V, 10, 32)
			want = uint64(uint32(u))
		case "u64":
			got, err = strconv.ParseUint(a.V, 10, 64)
			want = u
		case "f32":
			var g float64
			g, err = strconv.ParseFloat(a.V, 32)
			got, want = math.Float32bits(float32(g)), math.Float32bits(float32(f))
			if g != g && float32(f) != float32(f) {
				got = want
			}
		case "f64":
			var g float64
			g, err = strconv.ParseFloat(a.V, 64)
			got, want = math.Float64bits(g), math.Float64bits(f)
			if g != g && f != f {
				got = want
			}
		case "b":
			got, err = strconv.ParseBool(a.V)
			want = u&1 == 1
		}
		if err != nil || got != want {
			c.Fail("attribute %d (%s) reads back from the document as %v, it was %v (%v)", k, a.K, got, want, err)
		}
	}
	if len(toks[0].Attrs) != len(l) {
		c.Fail("%d attributes written, %d read back", len(l), len(toks[0].Attrs))
	}
	c.Event("attributes read back from documents", len(l))
	c.Distinct(fmt.Sprint(u, f))
}
