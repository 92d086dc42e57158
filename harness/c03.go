package main

import (
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C03",
		Rule: "one field of one node is given a seeded hostile string (biased to just legal and just illegal) and the verdict is compared with an independent model of the XML rule for that field; " +
			"comment and CDATA content is also split into 1 to 5 pieces in every API style; all code points are tried as content; the same fields after any legal program, in any place, way of calling and nesting, and rows of sections with Raw between their pieces; non-trivial: every non-empty string; distinct by field and string",
		Assume: []string{"names with characters above U+FFFF are left to C04"},
		Suites: []Suite{
			{Name: "fields", Quick: 3000000, Thor: 8000000, Run: c03field},
			{Name: "split", Quick: 1500000, Thor: 4000000, Run: c03split},
			{Name: "splitall", Quick: 3000, Thor: 3000, Run: c03splitAll},
			{Name: "codepoints", Quick: 0x110000 / 256, Run: c03codepoints},
			{Name: "context", Quick: 400000, Thor: 4000000, Run: c03context},
			{Name: "sections", Quick: 300000, Thor: 3000000, Run: c03sections},
			{Name: "required", Quick: 400, Thor: 4000, Run: c03required},
		},
	})
}

var nearBad = []string{"-", "--", "->", "-->", "!", "]", "]]", "]]>", ">", "?", "?>", "\"", "'", "x", " ", "\t", "\n", "\r", "a-", "-b", "]]x>", "\u0085", "\u0084", "\u0086", "\x7f", "\x01", "\ufffd", "\xff", "\ufffe", "\ufdd0", "\U0001fffe", "&", "<", "%", "é"}

func (r *RNG) nearBad() string {
	if r.P(25) {
		return r.anyString()
	}
	var b strings.Builder
	for k := r.Range(0, 8); k > 0; k-- {
		if r.P(45) {
			b.WriteString(nearBad[r.N(16)])
		} else {
			b.WriteString(pick(r, nearBad))
		}
		if r.N(400) == 0 {
			// what follows is far from the start
			b.WriteString(strings.Repeat(r.Pick("x", "é", "-x", "]", "x-"), r.PickInt(30, 64, 255, 256, 1000, 2048, 4095)))
		}
	}
	return b.String()
}

// anyName makes names and almost-names, without characters above U+FFFF.
func (r *RNG) anyName() string {
	s := r.ncname(false)
	switch r.N(6) {
	case 0:
		return s
	case 1:
		return s + ":" + r.ncname(false)
	case 2:
		k := r.N(len(s) + 1)
		return s[:k] + r.Pick(" ", "-", "1", ".", "\u00b7", "<", "&", "\"", "'", "=", "/", ">", "\x00", "\xff", "\u00d7", "\u00f7", "\u037e", "\u2000", "\u2190", "\ufffe", "\ud7ff", "\u3000", "\ue000", "\ufdd0", "\u0300", "\u203f", "!", "@", "[", "`", "{", ",", "\u00aa", "\u0085") + s[k:]
	case 3:
		return r.Pick("-", ".", "0", "9", "\u00b7", "\u0300", "\u036f", "\u203f", "\u2040", "", " ", "<", "\u00d7", "\u2200") + s
	case 4:
		return string(rune(r.Range(1, 0xFFFF)))
	}
	return string(rune(r.Range(0x20, 0x2FF))) + string(rune(r.Range(0x20, 0x2FF)))
}

func supplementary(s string) bool {
	for _, r := range s {
		if r > 0xFFFF {
			return true
		}
	}
	return false
}

func charsOK(s string, strict bool) bool { return legalChars(s, strict) == s }

func pubOK(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isPubidChar(s[i]) {
			return false
		}
	}
	return true
}

// verdict of the model
const (
	vLegal   = 1
	vIllegal = 2
	vEither  = 3
)

func judge(ok bool) int {
	if ok {
		return vLegal
	}
	return vIllegal
}

// fieldRule: the value of one field, how it is written, and its verdict.
type fieldRule struct {
	name string
	gen  func(r *RNG) string
	rule func(s string, strict bool) int
	run  func(w *xw.Writer, s string) error
}

func nameRule(s string, strict bool) int { return judge(isName(s)) }

func genName(r *RNG) string { return r.anyName() }
func genBad(r *RNG) string  { return r.nearBad() }

func genPub(r *RNG) string {
	g := &G{R: r}
	s := g.pubID()
	if r.P(50) {
		k := r.N(len(s) + 1)
		s = s[:k] + r.Pick("\"", "&", "<", ">", "[", "]", "\t", "\\", "^", "`", "{", "}", "|", "~", "\x7f", "\x80", "é", "\x00", "\u2019") + s[k:]
	}
	return s
}

// literal: a system identifier or entity value; discouraged characters may be
// accepted or not.
func literalRule(s string, strict bool) int {
	if strings.Contains(s, `"`) && strings.Contains(s, "'") || !charsOK(s, false) {
		return vIllegal
	}
	if !charsOK(s, true) {
		return vEither
	}
	return vLegal
}

func inElem(w *xw.Writer, f func() error) error {
	if err := w.StartElem(xw.Elem{Name: "r"}); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	return f()
}

var fieldRules = []fieldRule{
	{"comment", genBad, func(s string, strict bool) int {
		return judge(charsOK(s, strict) && !strings.Contains(s, "--") && !strings.HasSuffix(s, "-"))
	}, func(w *xw.Writer, s string) error { return w.WriteComment(xw.Comment{Content: s}) }},
	{"cdata", genBad, func(s string, strict bool) int {
		return judge(charsOK(s, strict) && !strings.Contains(s, "]]>"))
	}, func(w *xw.Writer, s string) error {
		return inElem(w, func() error { return w.WriteCData(xw.CData{Content: s}) })
	}},
	{"pi content", genBad, func(s string, strict bool) int {
		return judge(charsOK(s, strict) && !strings.Contains(s, "?>"))
	}, func(w *xw.Writer, s string) error { return w.WritePI(xw.PI{Target: "t", Content: s}) }},
	{"pi target", func(r *RNG) string {
		if r.P(40) {
			return r.Pick("xml", "XML", "Xml", "xMl", "xmL", "XMl", "xML", "XmL", "xmlx", "xxml", "xm", "ml", "", "x-ml", "xml-stylesheet", "ｘml")
		}
		return r.anyName()
	}, func(s string, strict bool) int {
		if s == "" {
			return vEither
		}
		return judge(isName(s) && !strings.EqualFold(s, "xml"))
	}, func(w *xw.Writer, s string) error { return w.WritePI(xw.PI{Target: s, Content: "c"}) }},
	{"elem name", genName, nameRule, func(w *xw.Writer, s string) error { return w.StartElem(xw.Elem{Name: s}) }},
	{"elem name in content", genName, nameRule, func(w *xw.Writer, s string) error {
		return w.WriteElem(xw.Elem{Name: "r", Content: []xw.Writable{xw.Elem{Name: s}}})
	}},
	{"prefixed elem name", genName, func(s string, strict bool) int { return judge(s != "" && isName("p:"+s)) }, func(w *xw.Writer, s string) error {
		return w.WriteElem(xw.Elem{Prefix: "p", URI: "u", Name: s})
	}},
	{"elem prefix", genName, func(s string, strict bool) int {
		if s == "" {
			return vLegal
		}
		return judge(isName(s + ":n"))
	}, func(w *xw.Writer, s string) error { return w.WriteElem(xw.Elem{Prefix: s, Name: "n"}) }},
	{"attr name", genName, nameRule, func(w *xw.Writer, s string) error {
		return inElem(w, func() error { return w.WriteAttr(xw.Attr{Name: s, Value: "v"}) })
	}},
	{"attr name in elem", genName, nameRule, func(w *xw.Writer, s string) error {
		return w.StartElem(xw.Elem{Name: "r", Attrs: []xw.Attr{{Name: s, Value: "v"}}})
	}},
	{"prefixed attr name", genName, func(s string, strict bool) int { return judge(s != "" && isName("p:"+s)) }, func(w *xw.Writer, s string) error {
		return inElem(w, func() error { return w.WriteAttr(xw.Attr{Prefix: "p", URI: "u", Name: s, Value: "v"}) })
	}},
	{"attr prefix", genName, func(s string, strict bool) int {
		if s == "" {
			return vLegal
		}
		return judge(isName(s + ":n"))
	}, func(w *xw.Writer, s string) error {
		return inElem(w, func() error { return w.WriteAttr(xw.Attr{Prefix: s, Name: "n", Value: "v"}) })
	}},
	{"dtd name", genName, nameRule, func(w *xw.Writer, s string) error { return w.StartDTD(xw.DTD{Name: s}) }},
	{"dtdelem name", genName, nameRule, func(w *xw.Writer, s string) error { return w.WriteDTDElem(xw.DTDElem{Name: s, Decl: "EMPTY"}) }},
	{"attlist name", genName, nameRule, func(w *xw.Writer, s string) error { return w.WriteDTDAttList(xw.DTDAttList{Name: s}) }},
	{"dtdattr name", genName, nameRule, func(w *xw.Writer, s string) error {
		return w.WriteDTDAttList(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: s, Type: xw.DTDAttrString}}})
	}},
	{"entity name", genName, nameRule, func(w *xw.Writer, s string) error { return w.WriteDTDEntity(xw.DTDEntity{Name: s, Content: "c"}) }},
	{"notation name", genName, nameRule, func(w *xw.Writer, s string) error { return w.WriteNotation(xw.Notation{Name: s, SystemID: "s"}) }},
	{"ndata", genName, func(s string, strict bool) int {
		if s == "" {
			return vLegal
		}
		return judge(isName(s))
	}, func(w *xw.Writer, s string) error {
		return w.WriteDTDEntity(xw.DTDEntity{Name: "e", SystemID: "s", NDataID: s})
	}},
	{"dtd public id", genPub, func(s string, strict bool) int { return judge(pubOK(s)) }, func(w *xw.Writer, s string) error {
		return w.StartDTD(xw.DTD{Name: "d", PublicID: s, SystemID: "s"})
	}},
	{"entity public id", genPub, func(s string, strict bool) int { return judge(pubOK(s)) }, func(w *xw.Writer, s string) error {
		return w.WriteDTDEntity(xw.DTDEntity{Name: "e", PublicID: s, SystemID: "s"})
	}},
	{"notation public id", genPub, func(s string, strict bool) int { return judge(pubOK(s)) }, func(w *xw.Writer, s string) error {
		return w.WriteNotation(xw.Notation{Name: "n", PublicID: s, SystemID: "s"})
	}},
	{"notation public id only", genPub, func(s string, strict bool) int { return judge(pubOK(s)) }, func(w *xw.Writer, s string) error {
		return w.WriteNotation(xw.Notation{Name: "n", PublicID: s})
	}},
	{"dtd system id", genBad, literalRule, func(w *xw.Writer, s string) error { return w.StartDTD(xw.DTD{Name: "d", SystemID: s}) }},
	{"dtd system id with public", genBad, func(s string, strict bool) int {
		if s == "" {
			return vIllegal
		}
		return literalRule(s, strict)
	}, func(w *xw.Writer, s string) error { return w.StartDTD(xw.DTD{Name: "d", PublicID: "p", SystemID: s}) }},
	{"entity system id", genBad, literalRule, func(w *xw.Writer, s string) error {
		return w.WriteDTDEntity(xw.DTDEntity{Name: "e", SystemID: s})
	}},
	{"entity system id with public", genBad, func(s string, strict bool) int {
		if s == "" {
			return vIllegal
		}
		return literalRule(s, strict)
	}, func(w *xw.Writer, s string) error {
		return w.WriteDTDEntity(xw.DTDEntity{Name: "e", PublicID: "p", SystemID: s})
	}},
	{"notation system id", genBad, func(s string, strict bool) int {
		if s == "" {
			return vIllegal
		}
		return literalRule(s, strict)
	}, func(w *xw.Writer, s string) error { return w.WriteNotation(xw.Notation{Name: "n", SystemID: s}) }},
	{"entity value", func(r *RNG) string { return strings.NewReplacer("%", "", "&", "").Replace(r.nearBad()) }, literalRule, func(w *xw.Writer, s string) error {
		return w.WriteDTDEntity(xw.DTDEntity{Name: "e", Content: s})
	}},
	{"text", genBad, func(s string, strict bool) int { return vLegal }, func(w *xw.Writer, s string) error {
		return inElem(w, func() error { return w.WriteText(s) })
	}},
	{"attr value", genBad, func(s string, strict bool) int { return vLegal }, func(w *xw.Writer, s string) error {
		return inElem(w, func() error { return w.WriteAttr(xw.Attr{Name: "a", Value: s}) })
	}},
	{"dtdattr value", genBad, func(s string, strict bool) int { return vLegal }, func(w *xw.Writer, s string) error {
		return w.WriteDTDAttList(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "a", Type: xw.DTDAttrString, Value: s}}})
	}},
	{"encoding", func(r *RNG) string {
		return r.Pick("", "U", "_", "1", "-") + r.Pick("", "TF-8", "é", " ", "\"", "a.b_c-1", "/", "\x00", ":", "Z9", "\xff")
	}, func(s string, strict bool) int {
		for i := 0; i < len(s); i++ {
			c := s[i]
			al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			if !al && (i == 0 || !(c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-')) {
				return vIllegal
			}
		}
		return vLegal
	}, func(w *xw.Writer, s string) error { return w.StartDoc(xw.Doc{}.ForceEncoding(s)) }},
}

func c03field(c *Ctx, i int) {
	f := &fieldRules[i%len(fieldRules)]
	s := f.gen(c.R)
	strict := c.R.P(70)
	isName := strings.Contains(f.name, "name") || strings.Contains(f.name, "prefix") || f.name == "ndata" || f.name == "pi target"
	if isName && supplementary(s) {
		return
	}
	c.Describe(func() string { return fmt.Sprintf("field %q, strict %v, value %q", f.name, strict, s) })
	want := f.rule(s, strict)
	sink := &capSink{}
	w := c.vary(Cfg{NoStrict: !strict}).open(sink)
	err := f.run(w, s)
	if err != nil && strings.HasPrefix(err.Error(), "harness:") {
		c.Fail("prelude failed: %v", err)
	}
	w.Flush()
	out := sink.String()
	switch {
	case want == vLegal && err != nil:
		c.Fail("legal %s %q was rejected: %v", f.name, s, err)
	case want == vIllegal && err == nil:
		c.Fail("illegal %s %q was accepted, output %q", f.name, s, clip(out))
	case want == vIllegal && len(s) >= 4 && strings.Contains(afterOpening(out), s) && !(f.name == "comment" && f.rule(s+".", strict) == vLegal):
		// (only the end of a comment tells that its last '-' is not allowed)
		c.Fail("illegal %s %q was rejected but is in the output %q", f.name, s, clip(out))
	}
	if f.name == "pi target" && s == "" && err == nil {
		if !c.Known("pi-empty-target") {
			c.Fail("empty PI target was accepted, output %q", out)
		}
	}
	if want == vIllegal {
		c.Event("illegal values rejected", 1)
	} else {
		c.Event("legal values accepted", 1)
	}
	if s != "" {
		c.Distinct(f.name, s)
	}
	if i%9001 == 0 {
		c.Sample("%s %q: %s", f.name, s, map[bool]string{true: "accepted", false: "rejected"}[err == nil])
	}
}

// afterOpening removes what the writer writes before any content.
func afterOpening(out string) string {
	out = strings.TrimPrefix(out, "<r>")
	for _, p := range []string{"<!--", "<![CDATA[", "<!ENTITY ", "<!DOCTYPE ", "<!NOTATION ", "<?xml ", "<?t "} {
		out = strings.TrimPrefix(out, p)
	}
	return out
}

// pieceProgram writes content in pieces, in a random style, and returns the
// first error.
func pieceProgram(r *RNG, w *xw.Writer, cdata bool, pieces []string) error {
	block := r.P(15)
	first := ""
	if r.P(35) && len(pieces) > 0 {
		first, pieces = pieces[0], pieces[1:]
	}
	var st xw.Startable = xw.Comment{Content: first}
	if cdata {
		st = xw.CData{Content: first}
	}
	cont := func(s string) xw.Writable {
		if cdata {
			return xw.CDataContent(s)
		}
		return xw.CommentContent(s)
	}
	if block {
		var l []xw.Writable
		for _, p := range pieces {
			l = append(l, cont(p))
		}
		return w.Block(st, l...)
	}
	if err := w.Start(st); err != nil {
		return err
	}
	for _, p := range pieces {
		if r.N(12) == 0 {
			if err := w.Next(); err != nil {
				return err
			}
		}
		if r.N(12) == 0 {
			if err := w.Flush(); err != nil {
				return err
			}
		}
		var err error
		switch {
		case r.P(40):
			err = w.Write(cont(p))
		case cdata:
			err = w.WriteCDataContent(p)
		default:
			err = w.WriteCommentContent(p)
		}
		if err != nil {
			return err
		}
	}
	if r.P(30) {
		return w.EndAny()
	}
	if cdata {
		return w.EndCData()
	}
	return w.EndComment()
}

func c03pieces(c *Ctx, cdata bool, pieces []string, strict bool) {
	whole := strings.Join(pieces, "")
	c.Describe(func() string { return fmt.Sprintf("cdata %v, strict %v, pieces %q", cdata, strict, pieces) })
	f := &fieldRules[0]
	if cdata {
		f = &fieldRules[1]
	}
	want := f.rule(whole, strict)
	for _, p := range pieces {
		if !charsOK(p, false) {
			want = vIllegal // a character is never split over two calls
		}
	}
	sink := &capSink{}
	w := c.vary(Cfg{NoStrict: !strict, Buf: c.R.PickInt(0, 1, 5)}).open(sink)
	if cdata || c.R.Bool() {
		if err := w.StartElem(xw.Elem{Name: "r"}); err != nil {
			c.Fail("prelude: %v", err)
		}
		if c.R.P(20) {
			// an earlier section must not influence this one
			if cdata {
				w.WriteCData(xw.CData{Content: "]]"})
			} else {
				w.WriteComment(xw.Comment{Content: "-x"})
			}
		}
	}
	w.Flush()
	pre := sink.Len()
	err := pieceProgram(c.R, w, cdata, pieces)
	w.Flush()
	out := sink.String()[pre:]
	if want == vLegal {
		if err != nil {
			c.Fail("legal content %q in pieces %q was rejected: %v", whole, pieces, err)
		}
		exp := "<!--" + whole + "-->"
		if cdata {
			exp = "<![CDATA[" + whole + "]]>"
		}
		if !strings.HasSuffix(out, exp) {
			c.Fail("pieces %q produced %q", pieces, clip(out))
		}
		c.Event("legal splits accepted", 1)
	} else {
		if err == nil {
			c.Fail("illegal content %q in pieces %q was accepted, output %q", whole, pieces, clip(out))
		}
		c.Event("illegal splits rejected", 1)
	}
	// what came out until the rejection is legal content, and no more
	body := afterOpening(strings.TrimPrefix(out, ">"))
	if err != nil && (!cdata && strings.Contains(body, "--") || cdata && strings.Contains(body, "]]>")) {
		c.Fail("pieces %q were rejected but left %q in the output", pieces, clip(out))
	}
}

func c03split(c *Ctx, i int) {
	cdata := i&1 == 0
	n := c.R.Range(1, 5)
	var pieces []string
	if c.R.P(50) {
		for ; n > 0; n-- {
			pieces = append(pieces, c.R.nearBad())
		}
	} else {
		pieces = c.R.split(legalChars(c.R.nearBad(), true), n)
		if c.R.P(30) {
			k := c.R.N(len(pieces) + 1)
			pieces = append(pieces[:k:k], append([]string{""}, pieces[k:]...)...)
		}
	}
	c03pieces(c, cdata, pieces, c.R.P(75))
	c.Distinct(append([]string{fmt.Sprint(cdata)}, pieces...)...)
	if i%5003 == 0 {
		c.Sample("pieces %q", pieces)
	}
}

// c03splitAll: every content of up to 5 critical characters in every split.
func c03splitAll(c *Ctx, i int) {
	alpha := []string{"-", "]", ">", "x"}
	n := i
	s := ""
	for k := 0; k < 5 && n > 0; k++ {
		s += alpha[n%4]
		n /= 4
	}
	if n > 0 {
		s = strings.Repeat("]", i%4) + s
	}
	for mask := 0; mask < 1<<uint(len(s)); mask++ {
		var pieces []string
		last := 0
		for k := 1; k < len(s); k++ {
			if mask>>uint(k-1)&1 == 1 {
				pieces = append(pieces, s[last:k])
				last = k
			}
		}
		pieces = append(pieces, s[last:])
		c03pieces(c, true, pieces, true)
		c03pieces(c, false, pieces, true)
		c.Distinct(append([]string{"all"}, pieces...)...)
		c.Eval(2)
	}
}

// c03codepoints: every code point as content of every checked kind.
func c03codepoints(c *Ctx, i int) {
	fields := []int{0, 1, 2}
	for k := range fieldRules {
		switch fieldRules[k].name {
		case "dtd system id", "entity value", "notation public id":
			fields = append(fields, k)
		}
	}
	if i > 0x100 && !c.Thorough() {
		// above the BMP: the edges of each plane, and a sample
		if i&0xFF != 0 && i&0xFF != 0xFF && i%37 != 0 {
			return
		}
	}
	sink := &capSink{}
	for r := rune(i * 256); r < rune(i*256+256); r++ {
		if i > 0x30 && i&0xFF != 0xFF && !c.Thorough() && r%4 != 1 && (r < 0xD700 || r > 0x10000) {
			continue
		}
		for _, s := range []string{wtf8(r), "ab" + wtf8(r) + "é"} {
			for _, fi := range fields {
				f := &fieldRules[fi]
				if f.name == "entity value" && (r == '%' || r == '&') {
					continue
				}
				for _, strict := range []bool{true, false} {
					want := f.rule(s, strict)
					sink.Reset()
					w := c.vary(Cfg{NoStrict: !strict, Buf: c.R.PickInt(0, 64)}).open(sink)
					err := f.run(w, s)
					c.Eval(1)
					if want == vLegal && err != nil {
						c.Fail("legal %s %q (%U, strict %v) was rejected: %v", f.name, s, r, strict, err)
					}
					if want == vIllegal && err == nil {
						c.Fail("illegal %s %q (%U, strict %v) was accepted", f.name, s, r, strict)
					}
				}
			}
			c.Enumerated(1)
		}
	}
}

// c03required: missing and contradictory fields.
func c03required(c *Ctx, i int) {
	g := newG(c.R)
	type tc struct {
		what  string
		legal bool
		f     func(w *xw.Writer) error
	}
	wr := func(n xw.Writable) func(w *xw.Writer) error {
		return func(w *xw.Writer) error { return w.Write(n) }
	}
	name, sys, pub := g.name(), g.sysID(), g.pubID()
	e := func(what string, legal bool, d xw.DTDEntity) tc { return tc{"entity " + what, legal, wr(d)} }
	a := func(what string, legal bool, d xw.DTDAttr) tc { return tc{"dtdattr " + what, legal, wr(d)} }
	val := "v" + g.R.anyString()
	cases := []tc{
		e("content", true, xw.DTDEntity{Name: name, Content: "c"}),
		e("empty", true, xw.DTDEntity{Name: name}),
		e("content and system", false, xw.DTDEntity{Name: name, Content: "c", SystemID: sys}),
		e("content and public", false, xw.DTDEntity{Name: name, Content: "c", PublicID: pub, SystemID: sys}),
		e("content and ndata", false, xw.DTDEntity{Name: name, Content: "c", NDataID: "n"}),
		e("ndata alone", false, xw.DTDEntity{Name: name, NDataID: "n"}),
		e("ndata of pe", false, xw.DTDEntity{Name: name, SystemID: sys, NDataID: "n", IsPE: true}),
		e("ndata of pe without ids", false, xw.DTDEntity{Name: name, NDataID: "n", IsPE: true}),
		e("public without system", false, xw.DTDEntity{Name: name, PublicID: pub}),
		e("public without system, pe", false, xw.DTDEntity{Name: name, PublicID: pub, IsPE: true}),
		e("public without system, ndata", false, xw.DTDEntity{Name: name, PublicID: pub, NDataID: "n"}),
		e("system ndata", true, xw.DTDEntity{Name: name, SystemID: sys, NDataID: "n"}),
		e("all", true, xw.DTDEntity{Name: name, SystemID: sys, PublicID: pub, NDataID: "n"}),
		e("pe", true, xw.DTDEntity{Name: name, SystemID: sys, PublicID: pub, IsPE: true}),
		e("pe content", true, xw.DTDEntity{Name: name, Content: "c", IsPE: true}),
		e("no name", false, xw.DTDEntity{Content: "c"}),
		{"dtd public without system", false, func(w *xw.Writer) error { return w.StartDTD(xw.DTD{Name: name, PublicID: pub}) }},
		{"dtd both", true, func(w *xw.Writer) error { return w.StartDTD(xw.DTD{Name: name, PublicID: pub, SystemID: sys}) }},
		{"dtd system", true, func(w *xw.Writer) error { return w.StartDTD(xw.DTD{Name: name, SystemID: sys}) }},
		{"dtd plain", true, func(w *xw.Writer) error { return w.StartDTD(xw.DTD{Name: name}) }},
		{"dtd without name", false, func(w *xw.Writer) error { return w.StartDTD(xw.DTD{SystemID: sys}) }},
		{"notation nothing", false, wr(xw.Notation{Name: name})},
		{"notation no name", false, wr(xw.Notation{SystemID: sys})},
		{"notation system", true, wr(xw.Notation{Name: name, SystemID: sys})},
		{"notation public", true, wr(xw.Notation{Name: name, PublicID: pub})},
		{"notation both", true, wr(xw.Notation{Name: name, PublicID: pub, SystemID: sys})},
		{"dtdelem no decl", false, wr(xw.DTDElem{Name: name})},
		{"dtdelem no name", false, wr(xw.DTDElem{Decl: "EMPTY"})},
		{"dtdelem", true, wr(xw.DTDElem{Name: name, Decl: "EMPTY"})},
		{"attlist no name", false, wr(xw.DTDAttList{Attrs: []xw.DTDAttr{{Name: "a", Type: "CDATA"}}})},
		{"attlist", true, wr(xw.DTDAttList{Name: name})},
		{"elem no name", false, wr(xw.Elem{})},
		{"elem prefix only", false, wr(xw.Elem{Prefix: "p", URI: "u"})},
		a("no type", false, xw.DTDAttr{Name: name}),
		a("no name", false, xw.DTDAttr{Type: "CDATA"}),
		a("required", true, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrRequired}),
		a("required with value", false, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrRequired, Value: val}),
		a("implied", true, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrImplied}),
		a("implied with value", false, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrImplied, Value: val}),
		a("fixed", true, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrFixed, Value: val}),
		a("fixed empty", true, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrFixed}),
		a("default", true, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrDefault, Value: val}),
		a("default empty", true, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrDefault}),
		a("infer", true, xw.DTDAttr{Name: name, Type: "CDATA", Value: val}),
		a("infer empty", true, xw.DTDAttr{Name: name, Type: "CDATA"}),
		a("unknown default", false, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrDefaultType(5 + i%7)}),
		a("negative default", false, xw.DTDAttr{Name: name, Type: "CDATA", Default: xw.DTDAttrDefaultType(-1 - i%5)}),
		{"attr without elem name", false, func(w *xw.Writer) error {
			return inElem(w, func() error { return w.WriteAttr(xw.Attr{Value: "x"}) })
		}},
		{"attr uri without prefix", false, func(w *xw.Writer) error {
			return inElem(w, func() error { return w.WriteAttr(xw.Attr{Name: "a", URI: "u", Value: "x"}) })
		}},
		{"attr with rebound prefix", false, func(w *xw.Writer) error {
			return w.WriteElem(xw.Elem{Name: "e", Attrs: []xw.Attr{{Prefix: "p", URI: "u1", Name: "a"}, {Prefix: "p", URI: "u2", Name: "b"}}})
		}},
	}
	for _, t := range cases {
		for variant := 0; variant < 2; variant++ {
			sink := &capSink{}
			w := xw.Open(sink)
			if variant == 1 {
				// inside of its usual parent
				switch {
				case strings.HasPrefix(t.what, "dtdattr"):
					w.StartDTDAttList(xw.DTDAttList{Name: "l"})
				case strings.HasPrefix(t.what, "entity"), strings.HasPrefix(t.what, "notation"), strings.HasPrefix(t.what, "dtdelem"), strings.HasPrefix(t.what, "attlist"):
					w.StartDTD(xw.DTD{Name: "d"})
				}
			}
			err := t.f(w)
			w.Flush()
			c.Eval(1)
			if t.legal && err != nil {
				c.Fail("%s (name %q sys %q pub %q): legal but rejected: %v", t.what, name, sys, pub, err)
			}
			if !t.legal && err == nil {
				c.Fail("%s (name %q sys %q pub %q): accepted, output %q", t.what, name, sys, pub, sink.String())
			}
			c.Distinct(t.what, name, sys, pub, fmt.Sprint(variant))
		}
	}
}
