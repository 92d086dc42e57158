package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C02",
		Rule: "every code point alone and between neighbours, every pair of bytes, every byte after a plain prefix of every length to 80, long runs of multi-byte and escaped characters at every phase, and seeded hostile strings " +
			"as text, attribute value and DTD attribute default, over buffer sizes 1..4096; the parser must give back the string with only unrepresentable characters replaced; non-trivial: not empty; distinct by string",
		Suites: []Suite{
			{Name: "codepoints", Quick: 0x110000 / 256, Thor: 0x110000 / 256, Run: c02codepoints},
			{Name: "bytepairs", Quick: 256, Run: c02pairs},
			{Name: "handover", Quick: 256, Run: c02handover},
			{Name: "long", Quick: 13 * 8 * 3, Thor: 13 * 8 * 200, Run: func(c *Ctx, i int) { c02long(c, i%(13*8), false) }},
			{Name: "huge", Quick: 13 * 3, Thor: 13 * 8 * 10, Run: func(c *Ctx, i int) { c02long(c, i%(13*8), true) }},
			{Name: "strings", Quick: 400000, Thor: 3000000, Run: c02strings},
		},
	})
}

// wtf8 encodes any number as a code point, surrogates included.
func wtf8(r rune) string {
	if r >= 0xD800 && r <= 0xDFFF {
		return string([]byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6)&0x3F, 0x80 | byte(r)&0x3F})
	}
	return string(r)
}

// wantString is what a parser gives for s: every byte of invalid UTF-8 and
// every illegal character replaced.
func wantString(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 || !isXMLChar(r) {
			r = 0xFFFD
		}
		b.WriteRune(r)
		i += w
	}
	return b.String()
}

// c02round writes all strings in each of the positions and compares.
func c02round(c *Ctx, strs []string, buf int) {
	c.Describe(func() string { return fmt.Sprintf("buffer %d, strings %q", buf, strs) })
	s := &capSink{}
	cfg := c.vary(Cfg{Buf: buf})
	if c.i%3 == 1 {
		cfg.NoEnforce = true
	}
	w := cfg.open(s)
	must := func(err error) {
		if err != nil {
			c.Fail("writing %q failed: %v", clipq(strs), err)
		}
	}
	must(w.StartDTD(xw.DTD{Name: "r"}))
	must(w.StartDTDAttList(xw.DTDAttList{Name: "r"}))
	for i, v := range strs {
		must(w.WriteDTDAttr(xw.DTDAttr{Name: fmt.Sprintf("a%d", i), Type: c02types[c.R.N(len(c02types))],
			Default: []xw.DTDAttrDefaultType{xw.DTDAttrDefault, xw.DTDAttrFixed}[i&1], Value: v}))
	}
	must(w.EndDTDAttList())
	must(w.EndDTD())
	must(w.StartElem(xw.Elem{Name: "r"}))
	for i, v := range strs {
		switch i % 3 {
		case 0:
			must(w.WriteElem(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "v", Value: v}}, Content: []xw.Writable{xw.Text(v)}}))
		case 1:
			must(w.StartElem(xw.Elem{Name: "e"}))
			must(w.WriteAttr(xw.Attr{Name: "v", Value: v}))
			must(w.WriteText(v))
			must(w.EndElemFull())
		case 2:
			must(w.Block(xw.Elem{Name: "e"}, xw.Attr{Name: "v", Value: v}, xw.Text(v)))
		}
	}
	must(w.EndAllFlush())
	out := s.String()
	toks, err := parseXML(out)
	if err != nil {
		c.Fail("%v\noutput: %s", err, clip(fmt.Sprintf("%q", out)))
	}
	k := 0
	next := func() Tok {
		if k < len(toks) {
			k++
			return toks[k-1]
		}
		return Tok{Kind: "(end)"}
	}
	expect := func(kind string) Tok {
		t := next()
		if t.Kind != kind {
			c.Fail("markup was introduced or lost: expected %s, parsed %s\noutput: %s", kind, clip(t.String()), clip(fmt.Sprintf("%q", out)))
		}
		return t
	}
	expect(tkDoctype)
	al := expect(tkAttList)
	if len(al.Defs) != len(strs) {
		c.Fail("wrote %d attribute definitions, parsed %d", len(strs), len(al.Defs))
	}
	expect(tkDoctypeE)
	expect(tkStart)
	for i, v := range strs {
		want := wantString(v)
		if g := al.Defs[i].Value; g != want {
			c.Fail("DTD attribute default %q reads back as %q, want %q", v, g, want)
		}
		t := expect(tkStart)
		if len(t.Attrs) != 1 || t.Attrs[0].K != "v" {
			c.Fail("attribute value %q introduced markup: %s", v, clip(t.String()))
		}
		if g := t.Attrs[0].V; g != want {
			c.Fail("attribute value %q reads back as %q, want %q", v, g, want)
		}
		if v != "" {
			if g := expect(tkText).Data; g != want {
				c.Fail("text %q reads back as %q, want %q", v, g, want)
			}
		}
		expect(tkEnd)
	}
	expect(tkEnd)
	if k != len(toks) {
		c.Fail("markup was introduced: %s", clip(toks[k].String()))
	}
	c.Eval(len(strs) * 3)
	c.Event("values read back", len(strs)*3)
	c.Event("bytes parsed", len(out))
}

// c02types: the value must survive whatever the type promises about it.
var c02types = []xw.DTDAttrType{xw.DTDAttrString, xw.DTDAttrString, xw.DTDAttrString, xw.DTDAttrID, xw.DTDAttrIDRef, xw.DTDAttrIDRefs, xw.DTDAttrEntity,
	xw.DTDAttrEntities, xw.DTDAttrNmtoken, xw.DTDAttrNmtokens, "(a|b)", "NOTATION (n)"}

// c02long: every kind of character on both sides of, and across, every byte
// position of a long string.
func c02long(c *Ctx, i int, huge bool) {
	units := []string{"\u00e9", "\u20ac", "\U0001F4A9", "&", "\r", "\ufffd", "\xff", "\xe2\x82", "\x01", "]]>", "x\u20ac", "\"\u00e9", "ab\U0001F4A9"}
	unit := units[i%len(units)]
	phase := i / len(units)
	size := c.R.PickInt(300, 2048, 5000, 9000, 20000, 70000)
	if huge {
		size = c.R.PickInt(1<<18, 1<<19, 1<<20, 1<<20, 1000000) + c.R.N(2000)
	}
	s := strings.Repeat("x", phase) + strings.Repeat(unit, size/len(unit)+1)
	c02round(c, []string{s, s, s}, c.R.PickInt(0, 1, 16, 100, 4096, 65536))
	c.Distinct(s)
	c.Event("long strings", 1)
}

func clipq(l []string) string { return clip(fmt.Sprintf("%q", l)) }

func c02codepoints(c *Ctx, i int) {
	var strs []string
	for r := rune(i * 256); r < rune(i*256+256); r++ {
		s := wtf8(r)
		strs = append(strs, s, "a"+s+"b")
		if i < 0x30 || i%16 == 0 {
			strs = append(strs, s+s, "&"+s+"<", "é"+s, s+"\U0001F4A9")
		}
	}
	c02round(c, strs, c.R.PickInt(0, 1, 16, 4096))
	c.Enumerated(len(strs))
	c.Sample("U+%04X..U+%04X", i*256, i*256+255)
}

func c02pairs(c *Ctx, i int) {
	var strs []string
	for b := 0; b < 256; b++ {
		strs = append(strs, string([]byte{byte(i), byte(b)}), string([]byte{'x', byte(i), byte(b), 'y'}), string([]byte{0xE2, byte(i), byte(b)}), string([]byte{0xF0, byte(i), byte(b), 0x80}))
	}
	c02round(c, strs, c.R.PickInt(0, 1, 7))
	c.Enumerated(len(strs))
}

// c02handover: the byte that ends the fast path at every offset.
func c02handover(c *Ctx, i int) {
	plain := strings.Repeat("abcXYZ0189-_.,()[]^~`'!#$%*+/:;=?@", 5)
	var strs []string
	for n := 0; n <= 80; n++ {
		strs = append(strs, plain[:n]+string([]byte{byte(i)}), plain[:n]+string([]byte{byte(i)})+plain[:n%7]+`"`)
	}
	c02round(c, strs, c.R.PickInt(0, 16, 64))
	c.Enumerated(len(strs))
}

func c02strings(c *Ctx, i int) {
	var strs []string
	for k := c.R.Range(1, 6); k > 0; k-- {
		s := c.R.anyString()
		if c.R.N(12) == 0 {
			s += strings.Repeat(pick(c.R, hostile), c.R.Range(1, 40)) + c.R.anyString()
		}
		strs = append(strs, s)
		if s != "" {
			c.Distinct(s)
		}
	}
	c02round(c, strs, c.R.PickInt(0, 0, 1, 2, 3, 16, 17, 64, 100, 2048, 4096))
	if i%500 == 1 {
		c.Sample("%q", strs[0])
	}
}
