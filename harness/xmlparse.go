package main

// A strict, non-validating XML 1.0 (fifth edition) parser written for this
// harness, independent of the code under test. It reports the content of a
// document as a flat token list and rejects anything that is not well-formed.
// It knows nothing of how xmlwriter formats its output.

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// Token kinds.
const (
	tkDecl     = "decl"     // XML declaration
	tkStart    = "start"    // start tag
	tkEnd      = "end"      // end tag
	tkText     = "text"     // character data (coalesced)
	tkCData    = "cdata"    // CDATA section
	tkComment  = "comment"  // comment
	tkPI       = "pi"       // processing instruction
	tkDoctype  = "doctype"  // <!DOCTYPE
	tkDoctypeE = "/doctype" // end of <!DOCTYPE
	tkElemDecl = "!element"
	tkAttList  = "!attlist"
	tkEntity   = "!entity"
	tkNotation = "!notation"
)

// KV is an attribute.
type KV struct{ K, V string }

// AttDef is one attribute definition of an ATTLIST.
type AttDef struct {
	Name, Type, Default, Value string
}

// Tok is one token of a document.
type Tok struct {
	Kind  string
	Name  string // element, target, doctype, declared name
	Data  string // text, comment, PI content, content model, entity value
	Attrs []KV
	Pub   string
	Sys   string
	Has   string // which of the identifiers are present, in the letters "p", "s", "v" (value), "n" (ndata), "%" (parameter entity), "[" (internal subset)
	NData string
	Defs  []AttDef
	Empty bool // start: empty-element tag
	Off   int  // byte offset in the document
}

func (t Tok) key(emptySensitive bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%q|%q|%q|%q|%s|%q", t.Kind, t.Name, t.Data, t.Pub, t.Sys, t.Has, t.NData)
	var ns []string
	for _, a := range t.Attrs {
		s := fmt.Sprintf("|%q=%q", a.K, a.V)
		if a.K == "xmlns" || strings.HasPrefix(a.K, "xmlns:") {
			ns = append(ns, s) // the order of namespace declarations is immaterial
		} else {
			b.WriteString(s)
		}
	}
	sort.Strings(ns)
	b.WriteString(strings.Join(ns, ""))
	for _, d := range t.Defs {
		fmt.Fprintf(&b, "|%q %q %s %q", d.Name, d.Type, d.Default, d.Value)
	}
	if emptySensitive && t.Empty {
		b.WriteString("|empty")
	}
	return b.String()
}

func (t Tok) String() string { return t.key(true) }

func isXMLChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func isDiscouraged(r rune) bool {
	if r >= 0x7F && r <= 0x84 || r >= 0x86 && r <= 0x9F || r >= 0xFDD0 && r <= 0xFDEF {
		return true
	}
	return r >= 0x10000 && (r&0xFFFF == 0xFFFE || r&0xFFFF == 0xFFFF)
}

func isNameStart(r rune) bool {
	switch {
	case r == ':' || r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z':
		return true
	case r >= 0xC0 && r <= 0x2FF:
		return r != 0xD7 && r != 0xF7
	case r >= 0x370 && r <= 0x1FFF:
		return r != 0x37E
	case r == 0x200C || r == 0x200D || r >= 0x2070 && r <= 0x218F || r >= 0x2C00 && r <= 0x2FEF:
		return true
	case r >= 0x3001 && r <= 0xD7FF || r >= 0xF900 && r <= 0xFDCF || r >= 0xFDF0 && r <= 0xFFFD:
		return true
	}
	return r >= 0x10000 && r <= 0xEFFFF
}

func isNameChar(r rune) bool {
	return isNameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 ||
		r >= 0x300 && r <= 0x36F || r == 0x203F || r == 0x2040
}

func isName(s string) bool {
	if s == "" {
		return false
	}
	for i, r := range s {
		if r == utf8.RuneError {
			if _, w := utf8.DecodeRuneInString(s[i:]); w == 1 {
				return false
			}
		}
		if i == 0 && !isNameStart(r) || !isNameChar(r) {
			return false
		}
	}
	return true
}

func isPubidChar(c byte) bool {
	return c == ' ' || c == '\r' || c == '\n' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' ||
		strings.IndexByte("-'()+,./:=?;!*#@$_%", c) >= 0
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

type xmlParser struct {
	s    string
	i    int
	toks []Tok
	text strings.Builder
	tOff int
	open []string
	err  error
	// fragment permits any number of top-level elements and text
	fragment bool
	// source accepts what the writer never makes: general entities declared in
	// the internal subset. A reference in content is reported as
	// "\x00name;", one in an attribute value is replaced.
	source  bool
	ents    map[string]string
	typesOf map[string]map[string]AttDef
	expand  int
	decRefs []string // decimal character references in content
}

type parseErr struct{ msg string }

func (p *xmlParser) fail(format string, args ...interface{}) {
	panic(parseErr{fmt.Sprintf("offset %d: ", p.i) + fmt.Sprintf(format, args...)})
}

// parseXML parses a complete document.
func parseXML(doc string) (toks []Tok, err error) { return parseXMLMode(doc, false) }

// parseFragment parses a sequence of nodes as may appear anywhere.
func parseFragment(doc string) (toks []Tok, err error) { return parseXMLMode(doc, true) }

// parseSource parses a complete document that may declare and use entities.
// Attributes defaulted by the internal subset are reported with the others and
// values are normalised by their declared type.
func parseSource(doc string) (toks []Tok, err error) {
	_, toks, err = parseSourceP(doc)
	return
}

func parseSourceP(doc string) (p *xmlParser, toks []Tok, err error) {
	p = &xmlParser{source: true, ents: map[string]string{}, typesOf: map[string]map[string]AttDef{}}
	toks, err = runParser(p, doc)
	return
}

func parseXMLMode(doc string, fragment bool) (toks []Tok, err error) {
	return runParser(&xmlParser{fragment: fragment}, doc)
}

func runParser(p *xmlParser, doc string) (toks []Tok, err error) {
	defer func() {
		if r := recover(); r != nil {
			pe, ok := r.(parseErr)
			if !ok {
				panic(r)
			}
			toks, err = p.toks, fmt.Errorf("not well-formed: %s", pe.msg)
		}
	}()
	for i, r := range doc {
		if r == utf8.RuneError {
			if _, w := utf8.DecodeRuneInString(doc[i:]); w == 1 {
				p.i = i
				p.fail("invalid UTF-8 byte %#x", doc[i])
			}
		}
		if !isXMLChar(r) {
			p.i = i
			p.fail("illegal character %U", r)
		}
	}
	// 2.11 line ends
	doc = strings.ReplaceAll(doc, "\r\n", "\n")
	doc = strings.ReplaceAll(doc, "\r", "\n")
	p.s = doc
	p.document()
	return p.toks, nil
}

func (p *xmlParser) has(pre string) bool { return strings.HasPrefix(p.s[p.i:], pre) }

func (p *xmlParser) take(pre string) bool {
	if p.has(pre) {
		p.i += len(pre)
		return true
	}
	return false
}

func (p *xmlParser) need(pre string) {
	if !p.take(pre) {
		p.fail("expected %q, found %q", pre, p.peek(20))
	}
}

func (p *xmlParser) peek(n int) string {
	if p.i+n > len(p.s) {
		return p.s[p.i:]
	}
	return p.s[p.i : p.i+n]
}

func (p *xmlParser) ws() bool {
	st := p.i
	for p.i < len(p.s) && isSpace(p.s[p.i]) {
		p.i++
	}
	return p.i > st
}

func (p *xmlParser) needWS() {
	if !p.ws() {
		p.fail("expected white space, found %q", p.peek(20))
	}
}

func (p *xmlParser) name() string {
	st := p.i
	for p.i < len(p.s) {
		r, w := utf8.DecodeRuneInString(p.s[p.i:])
		if p.i == st && !isNameStart(r) || !isNameChar(r) {
			break
		}
		p.i += w
	}
	if p.i == st {
		p.fail("expected a name, found %q", p.peek(20))
	}
	return p.s[st:p.i]
}

func (p *xmlParser) until(end string) string {
	j := strings.Index(p.s[p.i:], end)
	if j < 0 {
		p.fail("%q not found", end)
	}
	r := p.s[p.i : p.i+j]
	p.i += j + len(end)
	return r
}

func (p *xmlParser) quoted() string {
	if p.i >= len(p.s) || p.s[p.i] != '"' && p.s[p.i] != '\'' {
		p.fail("expected a quoted literal, found %q", p.peek(20))
	}
	q := p.s[p.i : p.i+1]
	p.i++
	return p.until(q)
}

func (p *xmlParser) emit(t Tok) {
	p.flushText()
	p.toks = append(p.toks, t)
}

func (p *xmlParser) flushText() {
	if p.text.Len() > 0 {
		p.toks = append(p.toks, Tok{Kind: tkText, Data: p.text.String(), Off: p.tOff})
		p.text.Reset()
	}
}

func (p *xmlParser) addText(s string) {
	if p.text.Len() == 0 {
		p.tOff = p.i
	}
	p.text.WriteString(s)
}

func (p *xmlParser) document() {
	seenRoot, seenDT := false, false
	if p.has("<?xml") && len(p.s) > 5 && (isSpace(p.s[5])) {
		p.xmlDecl()
		if p.fragment && p.has("\n") {
			p.i++ // belongs to the declaration
		}
	}
	for p.i < len(p.s) {
		top := len(p.open) == 0
		switch {
		case p.has("<!--"):
			p.comment()
		case p.has("<![CDATA["):
			if top && !p.fragment {
				p.fail("CDATA section outside the root element")
			}
			off := p.i
			p.i += 9
			d := p.until("]]>")
			p.emit(Tok{Kind: tkCData, Data: d, Off: off})
		case p.has("<!DOCTYPE"):
			if !top || seenDT && !p.fragment || seenRoot && !p.fragment {
				p.fail("misplaced DOCTYPE")
			}
			seenDT = true
			p.doctype()
		case p.fragment && top && p.has("<!"):
			p.decl()
		case p.has("<?"):
			p.pi()
		case p.has("</"):
			off := p.i
			p.i += 2
			n := p.name()
			p.ws()
			p.need(">")
			if len(p.open) == 0 {
				p.fail("end tag %q without a start tag", n)
			}
			if l := p.open[len(p.open)-1]; l != n {
				p.fail("end tag %q does not match start tag %q", n, l)
			}
			p.open = p.open[:len(p.open)-1]
			p.emit(Tok{Kind: tkEnd, Name: n, Off: off})
		case p.has("<"):
			if top && seenRoot && !p.fragment {
				p.fail("second root element")
			}
			seenRoot = true
			p.startTag()
		default:
			c := p.s[p.i]
			if top && !p.fragment {
				if !isSpace(c) {
					p.fail("text outside the root element: %q", p.peek(20))
				}
				p.i++
				continue
			}
			switch {
			case c == '&':
				if p.source && p.has("&#") && !p.has("&#x") {
					p.decRefs = append(p.decRefs, p.peek(10))
				}
				p.addText(p.reference())
			case p.has("]]>"):
				p.fail("']]>' in character data")
			default:
				st := p.i
				j := p.i + 1
				for j < len(p.s) && p.s[j] != '<' && p.s[j] != '&' && p.s[j] != ']' {
					j++
				}
				p.addText(p.s[st:j])
				p.i = j
			}
		}
	}
	p.flushText()
	if len(p.open) > 0 {
		p.fail("element %q is not closed", p.open[len(p.open)-1])
	}
	if !seenRoot && !p.fragment {
		p.fail("no root element")
	}
}

func (p *xmlParser) reference() string {
	p.need("&")
	if p.take("#") {
		base := rune(10)
		if p.take("x") {
			base = 16
		}
		var v rune
		st := p.i
		for p.i < len(p.s) && p.s[p.i] != ';' {
			c := p.s[p.i]
			var d rune
			switch {
			case c >= '0' && c <= '9':
				d = rune(c - '0')
			case base == 16 && c >= 'a' && c <= 'f':
				d = rune(c-'a') + 10
			case base == 16 && c >= 'A' && c <= 'F':
				d = rune(c-'A') + 10
			default:
				p.fail("bad character reference")
			}
			v = v*base + d
			if v > 0x10FFFF {
				p.fail("character reference out of range")
			}
			p.i++
		}
		if p.i == st {
			p.fail("empty character reference")
		}
		p.need(";")
		if !isXMLChar(v) {
			p.fail("reference to illegal character %U", v)
		}
		return string(v)
	}
	n := p.name()
	p.need(";")
	switch n {
	case "amp":
		return "&"
	case "lt":
		return "<"
	case "gt":
		return ">"
	case "quot":
		return `"`
	case "apos":
		return "'"
	}
	if _, ok := p.ents[n]; ok {
		return "\x00" + n + ";"
	}
	p.fail("reference to undeclared entity %q", n)
	return ""
}

// attValue parses a quoted attribute value and normalises it as CDATA.
func (p *xmlParser) attValue() string {
	if p.i >= len(p.s) || p.s[p.i] != '"' && p.s[p.i] != '\'' {
		p.fail("expected a quoted attribute value, found %q", p.peek(20))
	}
	q := p.s[p.i]
	p.i++
	var b strings.Builder
	for {
		if p.i >= len(p.s) {
			p.fail("unterminated attribute value")
		}
		c := p.s[p.i]
		switch {
		case c == q:
			p.i++
			return b.String()
		case c == '<':
			p.fail("'<' in attribute value")
		case c == '&':
			ref := p.reference()
			if ref[0] == 0 {
				ref = p.entityInAttr(ref[1 : len(ref)-1])
			}
			b.WriteString(ref)
		case isSpace(c):
			b.WriteByte(' ')
			p.i++
		default:
			b.WriteByte(c)
			p.i++
		}
	}
}

// entityInAttr is the normalised replacement of an entity in an attribute value.
func (p *xmlParser) entityInAttr(n string) string {
	p.expand++
	if p.expand > 20 {
		p.fail("entities nested too deeply")
	}
	q := &xmlParser{s: p.ents[n], source: true, ents: p.ents, expand: p.expand}
	var b strings.Builder
	for q.i < len(q.s) {
		c := q.s[q.i]
		switch {
		case c == '<':
			p.fail("'<' in the replacement of an entity in an attribute value")
		case c == '&':
			ref := q.reference()
			if ref[0] == 0 {
				ref = q.entityInAttr(ref[1 : len(ref)-1])
			}
			b.WriteString(ref)
		case isSpace(c):
			b.WriteByte(' ')
			q.i++
		default:
			b.WriteByte(c)
			q.i++
		}
	}
	p.expand--
	return b.String()
}

// charRefs replaces the character references of an entity value.
func charRefs(v string) string {
	var b strings.Builder
	q := &xmlParser{s: v}
	for q.i < len(v) {
		if q.has("&#") {
			b.WriteString(q.reference())
		} else {
			b.WriteByte(v[q.i])
			q.i++
		}
	}
	return b.String()
}

// typed applies the declared types and defaults of an element's attributes.
func (p *xmlParser) typed(t *Tok) {
	defs := p.typesOf[t.Name]
	have := map[string]bool{}
	for i, a := range t.Attrs {
		have[a.K] = true
		if d, ok := defs[a.K]; ok && d.Type != "CDATA" {
			t.Attrs[i].V = collapse(a.V)
		}
	}
	var l []string
	for n, d := range defs {
		if !have[n] && (d.Default == "value" || d.Default == "#FIXED") {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	for _, n := range l {
		v := defs[n].Value
		if defs[n].Type != "CDATA" {
			v = collapse(v)
		}
		t.Attrs = append(t.Attrs, KV{n, v})
	}
}

// collapse normalises a tokenised attribute value; only spaces count.
func collapse(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' }), " ")
}

func (p *xmlParser) startTag() {
	t := Tok{Kind: tkStart, Off: p.i}
	p.need("<")
	t.Name = p.name()
	seen := map[string]bool{}
	for {
		sp := p.ws()
		if p.take("/>") {
			t.Empty = true
			p.typed(&t)
			p.emit(t)
			p.toks = append(p.toks, Tok{Kind: tkEnd, Name: t.Name, Off: p.i})
			return
		}
		if p.take(">") {
			p.typed(&t)
			p.emit(t)
			p.open = append(p.open, t.Name)
			return
		}
		if !sp {
			p.fail("expected white space before attribute, found %q", p.peek(20))
		}
		n := p.name()
		p.ws()
		p.need("=")
		p.ws()
		v := p.attValue()
		if seen[n] {
			p.fail("duplicate attribute %q", n)
		}
		seen[n] = true
		t.Attrs = append(t.Attrs, KV{n, v})
	}
}

func (p *xmlParser) comment() {
	off := p.i
	p.need("<!--")
	d := p.until("--")
	if !p.take(">") {
		p.fail("'--' in comment")
	}
	p.emit(Tok{Kind: tkComment, Data: d, Off: off})
}

func (p *xmlParser) pi() {
	off := p.i
	p.need("<?")
	n := p.name()
	if strings.EqualFold(n, "xml") {
		p.fail("reserved PI target %q", n)
	}
	d := ""
	if !p.take("?>") {
		p.needWS()
		d = p.until("?>")
	}
	p.emit(Tok{Kind: tkPI, Name: n, Data: d, Off: off})
}

func (p *xmlParser) xmlDecl() {
	t := Tok{Kind: tkDecl, Off: p.i}
	p.need("<?xml")
	order := ""
	for {
		sp := p.ws()
		if p.take("?>") {
			break
		}
		if !sp {
			p.fail("expected white space in XML declaration")
		}
		n := p.name()
		p.ws()
		p.need("=")
		p.ws()
		v := p.quoted()
		switch n {
		case "version":
			order += "v"
			if !strings.HasPrefix(v, "1.") || strings.Trim(v[2:], "0123456789") != "" || len(v) < 3 {
				p.fail("bad version %q", v)
			}
		case "encoding":
			order += "e"
			for i := 0; i < len(v); i++ {
				c := v[i]
				al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
				if !al && (i == 0 || !(c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-')) {
					p.fail("bad encoding %q", v)
				}
			}
			if v == "" {
				p.fail("empty encoding")
			}
		case "standalone":
			order += "s"
			if v != "yes" && v != "no" {
				p.fail("bad standalone %q", v)
			}
		default:
			p.fail("bad XML declaration attribute %q", n)
		}
		t.Attrs = append(t.Attrs, KV{n, v})
	}
	switch order {
	case "v", "ve", "vs", "ves":
	default:
		p.fail("bad XML declaration (%s)", order)
	}
	p.emit(t)
}

func (p *xmlParser) pubid() string {
	v := p.quoted()
	for i := 0; i < len(v); i++ {
		if !isPubidChar(v[i]) {
			p.fail("illegal character %q in public ID", v[i])
		}
	}
	return v
}

// externalID parses an ExternalID, or a PublicID where publicOnly is allowed.
func (p *xmlParser) externalID(t *Tok, publicOnly bool) bool {
	if p.take("SYSTEM") {
		p.needWS()
		t.Sys = p.quoted()
		t.Has += "s"
		return true
	}
	if p.take("PUBLIC") {
		p.needWS()
		t.Pub = p.pubid()
		t.Has += "p"
		sp := p.ws()
		if p.i < len(p.s) && (p.s[p.i] == '"' || p.s[p.i] == '\'') {
			if !sp {
				p.fail("expected white space between public and system ID")
			}
			t.Sys = p.quoted()
			t.Has += "s"
		} else if !publicOnly {
			p.fail("system ID missing")
		}
		return true
	}
	return false
}

func (p *xmlParser) doctype() {
	t := Tok{Kind: tkDoctype, Off: p.i}
	p.need("<!DOCTYPE")
	p.needWS()
	t.Name = p.name()
	if p.ws() {
		p.externalID(&t, false)
		p.ws()
	}
	if p.take("[") {
		t.Has += "["
		p.emit(t)
		for {
			p.ws()
			if p.take("]") {
				break
			}
			if p.i >= len(p.s) {
				p.fail("unterminated internal subset")
			}
			p.decl()
		}
		p.ws()
	} else {
		p.emit(t)
	}
	p.need(">")
	p.emit(Tok{Kind: tkDoctypeE, Off: p.i})
}

func (p *xmlParser) decl() {
	off := p.i
	switch {
	case p.has("<!--"):
		p.comment()
	case p.has("<?"):
		p.pi()
	case p.take("<!ELEMENT"):
		t := Tok{Kind: tkElemDecl, Off: off}
		p.needWS()
		t.Name = p.name()
		p.needWS()
		st := p.i
		p.contentSpec()
		t.Data = strings.Join(strings.Fields(p.s[st:p.i]), "")
		p.ws()
		p.need(">")
		p.emit(t)
	case p.take("<!ATTLIST"):
		t := Tok{Kind: tkAttList, Off: off}
		p.needWS()
		t.Name = p.name()
		for {
			sp := p.ws()
			if p.take(">") {
				break
			}
			if !sp {
				p.fail("expected white space in ATTLIST")
			}
			t.Defs = append(t.Defs, p.attDef())
		}
		if p.source {
			m := p.typesOf[t.Name]
			if m == nil {
				m = map[string]AttDef{}
				p.typesOf[t.Name] = m
			}
			for _, d := range t.Defs {
				if _, ok := m[d.Name]; !ok {
					m[d.Name] = d // the first definition binds
				}
			}
		}
		p.emit(t)
	case p.take("<!ENTITY"):
		t := Tok{Kind: tkEntity, Off: off}
		p.needWS()
		if p.take("%") {
			t.Has += "%"
			p.needWS()
		}
		t.Name = p.name()
		p.needWS()
		if !p.externalID(&t, false) {
			t.Has += "v"
			t.Data = p.entityValue()
			if _, ok := p.ents[t.Name]; p.source && !ok && !strings.Contains(t.Has, "%") {
				p.ents[t.Name] = charRefs(t.Data)
			}
		} else if p.ws() && p.take("NDATA") {
			if strings.Contains(t.Has, "%") {
				p.fail("NDATA on a parameter entity")
			}
			p.needWS()
			t.NData = p.name()
			t.Has += "n"
		}
		p.ws()
		p.need(">")
		p.emit(t)
	case p.take("<!NOTATION"):
		t := Tok{Kind: tkNotation, Off: off}
		p.needWS()
		t.Name = p.name()
		p.needWS()
		if !p.externalID(&t, true) {
			p.fail("NOTATION without an identifier")
		}
		p.ws()
		p.need(">")
		p.emit(t)
	default:
		p.fail("expected a markup declaration, found %q", p.peek(20))
	}
}

// entityValue returns the literal entity value after checking its references.
func (p *xmlParser) entityValue() string {
	v := p.quoted()
	end := p.i
	q := &xmlParser{s: v}
	for q.i < len(v) {
		switch v[q.i] {
		case '%':
			p.i = end
			p.fail("parameter entity reference in an internal entity value")
		case '&':
			if q.has("&#") {
				q.reference()
			} else {
				q.i++
				q.name()
				q.need(";")
			}
		default:
			q.i++
		}
	}
	return v
}

func (p *xmlParser) nmtoken() string {
	st := p.i
	for p.i < len(p.s) {
		r, w := utf8.DecodeRuneInString(p.s[p.i:])
		if !isNameChar(r) {
			break
		}
		p.i += w
	}
	if p.i == st {
		p.fail("expected a name token")
	}
	return p.s[st:p.i]
}

func (p *xmlParser) attDef() AttDef {
	var d AttDef
	d.Name = p.name()
	p.needWS()
	enum := func() string {
		p.need("(")
		var l []string
		for {
			p.ws()
			l = append(l, p.nmtoken())
			p.ws()
			if p.take(")") {
				return "(" + strings.Join(l, "|") + ")"
			}
			p.need("|")
		}
	}
	if p.has("(") {
		d.Type = enum()
	} else {
		d.Type = p.name()
		switch d.Type {
		case "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS":
		case "NOTATION":
			p.needWS()
			d.Type += " " + enum()
		default:
			p.fail("bad attribute type %q", d.Type)
		}
	}
	p.needWS()
	switch {
	case p.take("#REQUIRED"):
		d.Default = "#REQUIRED"
	case p.take("#IMPLIED"):
		d.Default = "#IMPLIED"
	default:
		d.Default = "value"
		if p.take("#FIXED") {
			d.Default = "#FIXED"
			p.needWS()
		}
		d.Value = p.attValue()
	}
	return d
}

func (p *xmlParser) contentSpec() {
	if p.take("EMPTY") || p.take("ANY") {
		return
	}
	if !p.has("(") {
		p.fail("bad content model %q", p.peek(20))
	}
	st := p.i
	p.i++
	p.ws()
	if p.take("#PCDATA") {
		n := 0
		for {
			p.ws()
			if p.take(")") {
				if !p.take("*") && n > 0 {
					p.fail("mixed content model must end in ')*'")
				}
				return
			}
			p.need("|")
			p.ws()
			p.name()
			n++
		}
	}
	p.i = st
	p.cp()
}

func (p *xmlParser) cp() {
	if p.take("(") {
		sep := ""
		for {
			p.ws()
			p.cp()
			p.ws()
			if p.take(")") {
				break
			}
			c := p.peek(1)
			if c != "|" && c != "," || sep != "" && sep != c {
				p.fail("bad content model separator %q", c)
			}
			sep = c
			p.i++
		}
	} else {
		p.name()
	}
	if p.i < len(p.s) && strings.IndexByte("?*+", p.s[p.i]) >= 0 {
		p.i++
	}
}

// firstDiff compares two token lists and describes the first difference.
func firstDiff(want, got []Tok, emptySensitive bool) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(end of document)", "(end of document)"
		if i < len(want) {
			w = want[i].key(emptySensitive)
		}
		if i < len(got) {
			g = got[i].key(emptySensitive)
		}
		if w != g {
			return fmt.Sprintf("token %d: wrote %s, parsed %s", i, clip(w), clip(g))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:300] + "..." + s[len(s)-280:]
	}
	return s
}
