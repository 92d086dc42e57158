package main

import (
	"fmt"
	"strings"
	"sync"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/encoding/unicode/utf32"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C10",
		Rule: "seeded documents through every encoding of golang.org/x/text (single byte, EBCDIC, UTF-16 and UTF-32, Japanese, Korean, Chinese) over buffer sizes 1..2048, decoded with the matching decoder and compared byte for byte (or, where characters had to be escaped, token by token) with what Open writes; " +
			"every code point is tried as text and attribute value in windows-1252, ISO-8859-1, Shift JIS, GB18030 and UTF-16; non-trivial: the document has a character above U+007F; distinct by encoding and document",
		Assume: []string{"names, comments, CDATA, PIs and literals are ASCII, where no reference could stand (see the known finding)",
			"characters that x/text itself does not round-trip are not used with that encoding; in EBCDIC, ISO-2022-JP and HZ, where x/text inserts the reference as raw ASCII bytes, only characters of the encoding are used"},
		Suites: []Suite{
			{Name: "documents", Quick: 150000, Thor: 1000000, Run: c10documents},
			{Name: "codepoints", Quick: 0x110000 / 1024, Run: c10codepoints},
			{Name: "literals", Quick: 500, Run: c10literals},
			{Name: "big", Quick: 9 * 54, Thor: 9 * 540, Run: c10big},
		},
	})
}

type encInfo struct {
	name string
	e    encoding.Encoding
	// noRefs: x/text inserts the bytes of references without regard for the
	// encoding or its state
	noRefs bool
	bom    bool
	lossy  *sync.Map // rune -> 0 fine, 1 unsupported, 2 lossy
}

var encInfos = func() []*encInfo {
	l := []*encInfo{
		{name: "utf-8", e: unicode.UTF8},
		{name: "utf-16be", e: unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM)},
		{name: "utf-16le", e: unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)},
		{name: "UTF-16", e: unicode.UTF16(unicode.BigEndian, unicode.ExpectBOM), bom: true},
		{name: "UTF-16", e: unicode.UTF16(unicode.LittleEndian, unicode.UseBOM), bom: true},
		{name: "utf-32be", e: utf32.UTF32(utf32.BigEndian, utf32.IgnoreBOM)},
		{name: "utf-32", e: utf32.UTF32(utf32.LittleEndian, utf32.UseBOM), bom: true},
		{name: "shift_jis", e: japanese.ShiftJIS},
		{name: "euc-jp", e: japanese.EUCJP},
		{name: "iso-2022-jp", e: japanese.ISO2022JP, noRefs: true},
		{name: "euc-kr", e: korean.EUCKR},
		{name: "gbk", e: simplifiedchinese.GBK},
		{name: "gb18030", e: simplifiedchinese.GB18030},
		{name: "hz-gb-2312", e: simplifiedchinese.HZGB2312, noRefs: true},
		{name: "big5", e: traditionalchinese.Big5},
	}
	for _, e := range charmap.All {
		cm, ok := e.(*charmap.Charmap)
		if !ok {
			continue
		}
		name := strings.NewReplacer(" ", "-", "(", "", ")", "", "/", "-").Replace(fmt.Sprint(cm))
		_, amp := cm.EncodeRune('&')
		b, _ := cm.EncodeRune('&')
		l = append(l, &encInfo{name: name, e: cm, noRefs: !amp || b != '&'})
	}
	for _, e := range l {
		e.lossy = new(sync.Map)
	}
	return l
}()

// as is the same encoding under another name.
func (e *encInfo) as(name string) *encInfo {
	f := *e
	f.name = name
	return &f
}

// class tells how x/text treats a rune: 0 round-trips, 1 unsupported, 2 lossy.
func (e *encInfo) class(r rune) int {
	if v, ok := e.lossy.Load(r); ok {
		return v.(int)
	}
	v := 0
	b, err := e.e.NewEncoder().String("A" + string(r) + "B")
	if err != nil {
		v = 1
	} else if d, err := e.e.NewDecoder().String(b); err != nil || d != "A"+string(r)+"B" {
		v = 2
	}
	e.lossy.Store(r, v)
	return v
}

// restrict drops the characters that cannot be used with the encoding.
func (e *encInfo) restrict(s string) string {
	var b strings.Builder
	for _, r := range sanitize(s) {
		switch e.class(r) {
		case 2:
			continue
		case 1:
			if e.noRefs {
				continue
			}
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (e *encInfo) restrictTree(n *N) {
	switch n.K {
	case "text", "dtdattr":
		n.Data = e.restrict(n.Data)
	case "elem":
		n.URI = e.restrict(n.URI)
		if n.URI == "" && n.Prefix != "" {
			n.Prefix = ""
		}
		for i := range n.Attrs {
			n.Attrs[i].Value = e.restrict(n.Attrs[i].Value)
			n.Attrs[i].URI = ""
			if n.Attrs[i].Prefix != "" {
				n.Attrs[i].Prefix, n.Attrs[i].Name = "", n.Attrs[i].Prefix+"_"+n.Attrs[i].Name
			}
		}
	}
	for _, k := range n.Kids {
		e.restrictTree(k)
	}
}

func uniqAttrs(n *N) {
	seen := map[string]bool{}
	for i := range n.Attrs {
		for seen[n.Attrs[i].Name] {
			n.Attrs[i].Name += "_"
		}
		seen[n.Attrs[i].Name] = true
	}
	for _, k := range n.Kids {
		uniqAttrs(k)
	}
}

func c10write(c *Ctx, e *encInfo, ops []Op, cfg Cfg) string {
	s := &capSink{}
	w := xw.OpenEncoding(s, e.name, e.e.NewEncoder(), cfg.options()...)
	for k, o := range ops {
		if err := call(w, o); err != nil {
			c.Fail("%s: call %d (%s) failed: %v", e.name, k, clip(o.String()), err)
		}
	}
	if err := w.Flush(); err != nil {
		c.Fail("%s: Flush failed: %v", e.name, err)
	}
	return s.String()
}

// c10judge compares the decoded bytes with the plain document.
func c10judge(c *Ctx, e *encInfo, encoded, plain string, want []Tok) {
	dec, err := e.e.NewDecoder().String(encoded)
	if err != nil {
		c.Fail("%s: the output does not decode: %v\noutput: %q", e.name, err, clip(encoded))
	}
	all := true
	for _, r := range plain {
		if r >= 0x80 && e.class(r) != 0 {
			all = false
			break
		}
	}
	if all {
		if dec != plain {
			c.Fail("%s: decodes to another document: %s", e.name, diffAt(plain, dec))
		}
		c.Event("documents equal byte for byte", 1)
		return
	}
	toks, err := parseXML(dec)
	if err != nil {
		c.Fail("%s: %v\ndecoded: %s", e.name, err, clip(fmt.Sprintf("%q", dec)))
	}
	if d := firstDiff(want, toks, true); d != "" {
		c.Fail("%s: %s\ndecoded: %s", e.name, d, clip(fmt.Sprintf("%q", dec)))
	}
	for _, r := range dec {
		if r >= 0x80 && e.class(r) == 1 {
			c.Fail("%s: harness: unsupported character %U in the decoded output", e.name, r)
		}
	}
	c.Event("documents equal by tokens, with references", 1)
}

func c10documents(c *Ctx, i int) {
	e := encInfos[i%len(encInfos)]
	if c.R.P(25) { // the name is the caller's
		e = e.as(c.R.Pick("a", "Z", "x-"+e.name, "X-mine", "utf-8", "UTF-8", "utf8", "UTF-16", "ISO-8859-1", "us-ascii", "windows-1252", "Shift_JIS", "a.b_c-1", strings.Repeat("e", 300)))
	}
	g := newG(c.R)
	g.ASCII = true
	g.NoDTD = c.R.P(70)
	g.Budget = c.R.Range(1, 15)
	tops := g.document()
	cfg := Cfg{Buf: c.R.PickInt(1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 256, 0)}
	if c.R.P(20) {
		s := " "
		cfg.Indent = &s
	}
	c10check(c, e, tops, cfg)
}

func c10check(c *Ctx, e *encInfo, tops []*N, cfg Cfg) {
	for _, n := range tops {
		e.restrictTree(n)
		uniqAttrs(n)
	}
	cfg = c.vary(cfg)
	cfg.Enc, cfg.Warm, cfg.Late = "", 0, false
	ops := compile(c.R, tops, true)
	c.Describe(func() string {
		return fmt.Sprintf("encoding %s, config %s\nprogram:\n%s", e.name, dump(cfg), opsString(ops))
	})
	encoded := c10write(c, e, ops, cfg)
	// what Open writes, with that name in the declaration
	s := &capSink{}
	w := xw.Open(s, cfg.options()...)
	for k, o := range ops {
		for j, n := range o.N {
			if n.K == "doc" && n.FEnc == nil && !n.NoEnc {
				m := *n
				m.FEnc = &e.name
				o.N = append([]*N{}, o.N...)
				o.N[j] = &m
			}
		}
		if err := call(w, o); err != nil {
			c.Fail("call %d failed: %v", k, err)
		}
	}
	w.Flush()
	plain := s.String()
	var want []Tok
	if cfg.Indent == nil {
		for _, n := range tops {
			want = expected(want, n, cfg, e.name)
		}
	}
	t, err := parseXML(plain)
	if err != nil {
		c.Fail("plain: %v", err)
	}
	if want != nil {
		if d := firstDiff(want, t, false); d != "" {
			c.Fail("plain: %s", d)
		}
	}
	c10judge(c, e, encoded, plain, t)
	c.Event("bytes decoded", len(encoded))
	hi := false
	for k := 0; k < len(plain); k++ {
		if plain[k] >= 0x80 {
			hi = true
		}
	}
	if hi {
		c.Distinct(e.name, plain)
	}
	if c.i%6007 == 2 {
		c.Sample("%s: %q", e.name, clip(encoded))
	}
}

// c10codepoints: every code point as text and attribute value.
func c10codepoints(c *Ctx, i int) {
	encs := []string{"Windows-1252", "ISO-8859-1", "shift_jis", "gb18030", "utf-16le"}
	if c.Thorough() {
		encs = nil
		for _, e := range encInfos {
			encs = append(encs, e.name)
		}
	}
	for _, name := range encs {
		var e *encInfo
		for _, x := range encInfos {
			if x.name == name {
				e = x
			}
		}
		if e == nil {
			die("no encoding %s", name)
		}
		var b strings.Builder
		for r := rune(i * 1024); r < rune(i*1024+1024); r++ {
			if r >= 0xD800 && r <= 0xDFFF || i > 80 && r%8 != 3 && !c.Thorough() {
				continue
			}
			b.WriteRune(r)
		}
		s := e.restrict(b.String())
		if s == "" {
			continue
		}
		c.Describe(func() string { return fmt.Sprintf("encoding %s, characters %q", name, clip(s)) })
		tree := []*N{{K: "elem", Name: "a", Attrs: []A{{Name: "v", Value: s}}, Kids: []*N{{K: "text", Data: s}}}}
		ops := compile(c.R, tree, true)
		cfg := Cfg{Buf: c.R.PickInt(1, 3, 64, 0)}
		plain, err, _ := runOps(ops, cfg)
		if err != nil {
			c.Fail("plain: %v", err)
		}
		c10judge(c, e, c10write(c, e, ops, cfg), plain, expectedAll(tree, cfg))
		c.Enumerated(1)
		c.Eval(len(s))
	}
}

// c10literals: where a reference cannot stand. Known to be wrong: x/text's
// replacement ends up as literal content.
func c10literals(c *Ctx, i int) {
	e := encInfos[0]
	for k := 0; ; k++ {
		e = encInfos[(i+k)%len(encInfos)]
		if !e.noRefs && e.class('日') == 1 {
			break
		}
	}
	var n *N
	switch (i / 7) % 4 {
	case 0:
		n = &N{K: "comment", Pieces: []string{"日"}}
	case 1:
		n = &N{K: "cdata", Pieces: []string{"日"}}
	case 2:
		n = &N{K: "pi", Name: "p", Data: "日"}
	case 3:
		n = &N{K: "elem", Name: "日"}
	}
	tree := []*N{{K: "elem", Name: "a", Kids: []*N{n}}}
	ops := compile(c.R, tree, false)
	s := &capSink{}
	w := xw.OpenEncoding(s, e.name, e.e.NewEncoder())
	for _, o := range ops {
		if call(w, o) != nil {
			return // refused
		}
	}
	if w.Flush() != nil {
		return
	}
	dec, err := e.e.NewDecoder().String(s.String())
	if err == nil {
		toks, perr := parseXML(dec)
		if perr == nil && firstDiff(expectedAll(tree, Cfg{}), toks, false) == "" {
			return
		}
	}
	c.FailSig("unsupported-in-literal", "%s: a character the encoding does not have in a %s comes out as %q", e.name, n.K, clip(dec))
}
