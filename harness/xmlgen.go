package main

// A generator of XML documents as text, with syntactic variety that the writer
// itself never produces, and counts of what it put in. Used as input for the
// C tools and the tester.

import (
	"fmt"
	"strings"
)

// XCounts is what the generator put into a document.
type XCounts struct {
	Version, Encoding                               string
	Elems, NSElems, Attrs, NSAttrs                  int
	Comments, CommentBytes, CommentMax, CDatas, PIs int
	DTDsPublic, DTDsSystem, DTDElems, AttDefs       int
	Entities, Notations                             int
	Refs, RefsDec, RefsHex                          int
	MaxDepth                                        int
	Decl, DTD                                       bool
}

// XOpt restricts the generator.
type XOpt struct {
	NoDTD, NoDTDPI, NoAttDefaults, NoCRRef, NoFancyEntities bool
	NoQuotMix                                               bool // entity values without both kinds of quotes
	Decl                                                    int  // 0 either, 1 always, -1 never
	Budget                                                  int
	NoPE                                                    bool
	NoNS                                                    bool // no names with colons
	TokenTypes                                              bool // attribute types other than CDATA
	NoEmptyIDs                                              bool // no empty public or system identifiers
	NoCTester                                               bool // without what ctester cannot write
	OddColons                                               bool // names which begin with a colon: they have no prefix
	Long                                                    int  // how many more children the root has than usual
}

type xgen struct {
	R     *RNG
	O     XOpt
	b     strings.Builder
	C     XCounts
	ents  []string // declared general entities usable in content
	tents []string // ... with plain text, usable in attribute values
	left  int
	elems []string
	ns    []string // prefixes in scope
}

// xmlSource generates a well-formed document.
func xmlSource(r *RNG, o XOpt) (string, XCounts) {
	g := &xgen{R: r, O: o, left: o.Budget}
	if g.left == 0 {
		g.left = r.PickInt(1, 3, 8, 20, 60)
	}
	g.left += o.Long
	g.document()
	return g.b.String(), g.C
}

func (g *xgen) w(s ...string) {
	for _, x := range s {
		g.b.WriteString(x)
	}
}

// s writes required white space, os optional white space.
func (g *xgen) s() {
	if g.R.P(75) {
		g.w(" ")
		return
	}
	g.w(g.R.Pick(" ", "  ", "\n", "\t", "\n\t ", "\r\n"))
}
func (g *xgen) os() {
	if g.R.P(15) {
		g.s()
	}
}

var xnames = []string{"a", "b", "c", "d", "foo", "bar", "item", "x-1", "_y", "A.b", "data", "Z9", "name", "quux"}

func (g *xgen) ncname() string {
	r := g.R
	if r.P(80) {
		return pick(r, xnames)
	}
	if r.P(20) {
		return pick(r, xnames) + r.Pick("é", "β", "中", "ж") + pick(r, xnames)
	}
	const st = "abcdefghijklmnopqrstuvwyzABCDEFGHIJKLMNOPQRSTUVWYZ_"
	n := r.Range(1, 12)
	if r.N(80) == 0 {
		n = r.Range(30, 400)
	}
	b := []byte{st[r.N(len(st))]}
	for i := 1; i < n; i++ {
		b = append(b, (st + "0123456789-.xX")[r.N(len(st)+14)])
	}
	return string(b)
}

var xwords = []string{"hello", "world", " ", "\n", "  ", "\t", "x", "é", "日本語", "€", "😀", "a b", "100%", "--", "]", "]]", "?", "?x", "!", "\"", "'", "=", ";", "#", "#33;", "x21;", "|", "%", "\u00a0", "\u2028", "[CDATA[", "DOCTYPE", "\\"}

func (g *xgen) words(avoid ...string) string {
	r := g.R
	var b strings.Builder
	n := r.N(7)
	if r.N(150) == 0 {
		n = r.Range(500, 3000)
	}
	for i := 0; i < n; i++ {
		b.WriteString(pick(r, xwords))
	}
	s := b.String()
	for again := true; again; {
		again = false
		for _, a := range avoid {
			if strings.Contains(s, a) {
				s = strings.ReplaceAll(s, a, "")
				again = true
			}
		}
	}
	return s
}

func (g *xgen) charRef(count bool) string {
	r := g.R
	cp := r.PickInt(33, 38, 60, 62, 34, 39, 65, 93, 124, 160, 233, 0x20ac, 0x4e2d, 0x1F600, 9, 10, 32, 13)
	if g.O.NoCRRef && cp == 13 {
		cp = 65
	}
	if r.Bool() {
		if count {
			g.C.RefsDec++
		}
		return fmt.Sprintf("&#%s%d;", r.Pick("", "", "", "0", "00"), cp)
	}
	if count {
		g.C.RefsHex++
	}
	f := r.Pick("&#x%x;", "&#x%X;", "&#x0%x;")
	return fmt.Sprintf(f, cp)
}

func (g *xgen) quote(s string) {
	q := g.R.Pick(`"`, `'`)
	if strings.Contains(s, q) {
		if q == `"` {
			q = `'`
		} else {
			q = `"`
		}
	}
	g.w(q, s, q)
}

func (g *xgen) document() {
	r := g.R
	if g.O.Decl > 0 || g.O.Decl == 0 && r.P(70) {
		g.xmlDecl()
	}
	g.misc()
	if !g.O.NoDTD && r.P(45) {
		g.doctype()
		g.misc()
	}
	g.elem(1)
	g.misc()
}

func (g *xgen) eq() {
	g.os()
	g.w("=")
	g.os()
}

func (g *xgen) xmlDecl() {
	r := g.R
	g.C.Decl = true
	g.w("<?xml")
	g.s()
	g.w("version")
	g.eq()
	g.C.Version = "1.0"
	g.quote("1.0")
	if r.P(60) {
		g.s()
		g.w("encoding")
		g.eq()
		g.C.Encoding = r.Pick("UTF-8", "utf-8", "Utf-8", "UTF-8", "US-ASCII", "utf-8")
		if g.C.Encoding == "US-ASCII" {
			g.C.Encoding = "UTF-8"
		}
		g.quote(g.C.Encoding)
	}
	if r.P(30) {
		g.s()
		g.w("standalone")
		g.eq()
		g.quote(r.Pick("yes", "no"))
	}
	g.os()
	g.w("?>")
}

func (g *xgen) misc() {
	for g.R.P(40) {
		switch g.R.N(4) {
		case 0:
			g.comment()
		case 1:
			g.pi()
		default:
			g.w(g.R.Pick("\n", "\n", " ", "\r\n", "\n\n"))
		}
	}
}

func (g *xgen) comment() {
	s := strings.TrimSuffix(g.words("--"), "-")
	g.C.Comments++
	n := len(s)
	g.C.CommentBytes += n
	if n > g.C.CommentMax {
		g.C.CommentMax = n
	}
	g.w("<!--", s, "-->")
}

func (g *xgen) pi() {
	g.C.PIs++
	t := g.ncname()
	for len(t) >= 3 && strings.EqualFold(t[:3], "xml") {
		t = g.ncname()
	}
	s := g.words("?>")
	g.w("<?", t)
	if s != "" || g.R.Bool() {
		g.s()
		g.w(s)
	}
	g.w("?>")
}

func (g *xgen) cdata() {
	g.C.CDatas++
	s := g.words("]]>")
	if g.R.P(40) {
		s = g.R.Pick("&#33;", "&#x21;", "&amp;", "<a>", "]]", "]", ">", "&", "<b>&#10;</b>", "<![CDATA[", "") + g.R.Pick("", s)
	}
	s = strings.ReplaceAll(s, "]]>", "")
	g.w("<![CDATA[", s, "]]>")
}

func (g *xgen) text() {
	r := g.R
	for n := r.Range(1, 4); n > 0; n-- {
		switch r.N(6) {
		case 0:
			g.C.Refs++
			g.w(r.Pick("&amp;", "&lt;", "&gt;", "&quot;", "&apos;"))
		case 1:
			g.w(g.charRef(true))
		case 2:
			if len(g.ents) > 0 {
				g.C.Refs++
				g.w("&", pick(r, g.ents), ";")
			}
		default:
			s := g.words()
			s = strings.ReplaceAll(s, "]]", "]x")
			if strings.HasSuffix(s, "]") {
				s += "x"
			}
			g.w(s)
		}
	}
}

func (g *xgen) attValue(noRefs bool) {
	r := g.R
	q := r.Pick(`"`, `'`)
	g.w(q)
	for n := r.N(4); n > 0; n-- {
		switch r.N(7) {
		case 0:
			g.w(r.Pick("&amp;", "&lt;", "&gt;", "&quot;", "&apos;"))
		case 1:
			c := g.charRef(false)
			if !(g.O.NoCTester && noRefs && strings.TrimSpace(charRefs(c)) == "") {
				g.w(c)
			}
		case 2:
			if len(g.tents) > 0 && !noRefs {
				g.w("&", pick(r, g.tents), ";")
			}
		default:
			s := g.words(q, "<", "&")
			g.w(s)
		}
	}
	g.w(q)
}

func (g *xgen) qname() (string, bool) {
	if len(g.ns) > 0 && !g.O.NoNS && g.R.P(40) {
		return pick(g.R, g.ns) + ":" + g.ncname(), true
	}
	if g.O.OddColons && g.R.N(30) == 0 {
		return g.R.Pick(":", ":"+g.ncname(), ":a:b"), false
	}
	return g.ncname(), false
}

func (g *xgen) elem(depth int) {
	r := g.R
	g.left--
	if depth > g.C.MaxDepth {
		g.C.MaxDepth = depth
	}
	saved := len(g.ns)
	var decls []string
	seen := map[string]bool{}
	if !g.O.NoNS {
		for r.P(18) && len(decls) < 4 {
			p := r.Pick("p", "q", "ns1", "ns", "ns10", "a", "ab", "xs", "P", "pq")
			if seen["xmlns:"+p] {
				continue
			}
			seen["xmlns:"+p] = true
			decls = append(decls, p)
			g.ns = append(g.ns, p)
		}
	}
	var name string
	var pre bool
	if len(g.elems) > 0 && r.P(50) {
		name = pick(r, g.elems)
	} else {
		name, pre = g.qname()
	}
	if pre {
		g.C.NSElems++
	} else {
		g.C.Elems++
	}
	g.w("<", name)
	type at struct {
		n  string
		ns bool
	}
	var l []at
	for _, p := range decls {
		l = append(l, at{"xmlns:" + p, true})
	}
	if !g.O.NoNS && r.P(8) {
		l = append(l, at{"xmlns", true})
	}
	if r.P(55) {
		n := r.Range(1, 5)
		common := ""
		if r.N(60) == 0 {
			n = r.PickInt(r.Range(20, 90), r.Range(30, 35), r.Range(62, 67), 128, 129)
		}
		if r.N(12) == 0 { // names which differ late
			common = pick(r, xnames) + strings.Repeat(r.Pick("x", "ab", "-", "Z.9"), r.Range(3, 50))
		}
		for i := 0; i < n; i++ {
			nm, _ := g.qname()
			if common != "" && !strings.Contains(nm, ":") {
				nm = common + nm
			}
			if !g.O.NoNS && r.N(25) == 0 {
				nm = r.Pick("xml:lang", "xml:space")
			}
			if n > 10 {
				nm += fmt.Sprint(i)
			}
			if !seen[nm] && nm != "xmlns" {
				seen[nm] = true
				l = append(l, at{nm, false})
			}
		}
	}
	// declarations may come after their use
	for i := len(l) - 1; i > 0; i-- {
		if r.P(40) {
			j := r.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	for _, a := range l {
		if strings.Index(a.n, ":") > 0 {
			g.C.NSAttrs++
		} else {
			g.C.Attrs++
		}
		g.s()
		g.w(a.n)
		g.eq()
		if a.ns {
			g.quote(r.Pick("urn:a", "urn:b", "http://example.com/x?y=1&amp;z=2", "u"))
		} else {
			g.attValue(false)
		}
	}
	g.os()
	if g.left <= 0 && r.P(60) || r.P(12) && !(depth == 1 && g.O.Long > 0) {
		g.w("/>")
		g.ns = g.ns[:saved]
		return
	}
	g.w(">")
	n := r.N(6)
	if depth == 1 {
		n += g.O.Long
	}
	for ; n > 0; n-- {
		switch r.N(12) {
		case 0:
			g.comment()
		case 1:
			g.pi()
		case 2, 3:
			g.cdata()
		case 4, 5, 6:
			g.text()
		default:
			if g.left > 0 && depth < 200 {
				g.elem(depth + 1)
			}
		}
	}
	if r.N(150) == 0 { // a chain
		k := r.Range(10, 150)
		g.w(strings.Repeat("<deep>", k), strings.Repeat("</deep>", k))
		g.C.Elems += k
		if depth+k > g.C.MaxDepth {
			g.C.MaxDepth = depth + k
		}
	}
	g.w("</", name)
	g.os()
	g.w(">")
	g.ns = g.ns[:saved]
}

func (g *xgen) pubid() string {
	for {
		s := g.R.Pick("-//W3C//DTD XHTML 1.0//EN", "p", "", "a b", "x/y'z", "+//x,1=2?;!*#@$_%-")
		if s != "" || !g.O.NoEmptyIDs {
			return s
		}
	}
}
func (g *xgen) sysid() string {
	for {
		s := g.R.Pick("x.dtd", "http://example.com/a.dtd", "", "a b", "it's", `say "hi"`, "a&b", "é<>")
		if g.O.NoCTester && strings.Contains(s, `"`) {
			continue
		}
		if s != "" || !g.O.NoEmptyIDs {
			return s
		}
	}
}

func (g *xgen) extID(pubOnly bool) (hasSys bool) {
	if g.R.Bool() {
		g.w("SYSTEM")
		g.s()
		g.quote(g.sysid())
		return true
	}
	g.w("PUBLIC")
	g.s()
	p := g.pubid()
	if strings.Contains(p, "'") {
		g.w(`"`, p, `"`)
	} else {
		g.quote(p)
	}
	if !pubOnly || g.R.Bool() {
		g.s()
		g.quote(g.sysid())
		return true
	}
	return false
}

func (g *xgen) doctype() {
	r := g.R
	g.C.DTD = true
	g.w("<!DOCTYPE")
	g.s()
	g.w(g.ncname())
	switch r.N(3) {
	case 0:
		g.s()
		at := g.b.Len()
		g.extID(false)
		if strings.HasPrefix(g.b.String()[at:], "PUBLIC") {
			g.C.DTDsPublic++
		} else {
			g.C.DTDsSystem++
		}
	}
	g.os()
	if r.P(80) {
		g.w("[")
		for n := r.N(9) + g.O.Long/4; n > 0; n-- {
			if r.P(60) {
				g.w(r.Pick("\n", " ", "\n  ", "\r\n"))
			}
			switch r.N(9) {
			case 0:
				g.comment()
			case 1:
				if !g.O.NoDTDPI {
					g.pi()
				}
			case 2, 3:
				g.elemDecl()
			case 4, 5:
				g.attList()
			case 6, 7:
				g.entity()
			case 8:
				g.notation()
			}
		}
		g.os()
		g.w("]")
		g.os()
	}
	g.w(">")
}

func (g *xgen) elemDecl() {
	r := g.R
	g.C.DTDElems++
	g.w("<!ELEMENT")
	g.s()
	n := g.ncname()
	if r.P(40) {
		g.elems = append(g.elems, n)
	}
	g.w(n)
	g.s()
	switch r.N(4) {
	case 0:
		g.w(r.Pick("EMPTY", "ANY"))
	case 1:
		g.w("(")
		g.os()
		g.w("#PCDATA")
		k := r.N(4)
		for i := 0; i < k; i++ {
			g.os()
			g.w("|")
			g.os()
			g.w(fmt.Sprintf("%s%d", g.ncname(), i))
		}
		g.os()
		g.w(")")
		if k > 0 || r.Bool() {
			g.w("*")
		}
	default:
		g.group(0)
		g.w(r.Pick("", "?", "*", "+"))
	}
	g.os()
	g.w(">")
}

func (g *xgen) group(depth int) {
	r := g.R
	g.w("(")
	sep := r.Pick("|", ",")
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		if i > 0 {
			g.os()
			g.w(sep)
		}
		g.os()
		if depth < 4 && r.P(25) {
			g.group(depth + 1)
		} else {
			g.w(g.ncname())
		}
		g.w(r.Pick("", "", "?", "*", "+"))
	}
	g.os()
	g.w(")")
}

func (g *xgen) attList() {
	r := g.R
	g.w("<!ATTLIST")
	g.s()
	el := g.ncname()
	if len(g.elems) > 0 && r.P(50) {
		el = pick(r, g.elems)
	}
	g.w(el)
	seen := map[string]bool{}
	for n := r.Range(1, 3); n > 0; n-- {
		a := g.ncname()
		if seen[a] {
			continue
		}
		seen[a] = true
		g.C.AttDefs++
		g.s()
		g.w(a)
		g.s()
		tok := ""
		switch {
		case !g.O.TokenTypes || r.P(50):
			g.w("CDATA")
		case r.P(40):
			g.w("(")
			g.os()
			g.w("v1")
			for k := r.N(3); k > 0; k-- {
				g.os()
				g.w("|")
				g.os()
				g.w(fmt.Sprintf("v%d", k+1))
			}
			g.os()
			g.w(")")
			tok = "v1"
		case r.P(15):
			g.w("NOTATION")
			g.s()
			g.w("(n1")
			if r.Bool() {
				g.os()
				g.w("|")
				g.os()
				g.w("n2")
			}
			g.w(")")
			tok = "n1"
		default:
			g.w(r.Pick("ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS"))
			tok = "tok"
		}
		g.s()
		switch k := r.N(4); {
		case k == 0:
			g.w("#REQUIRED")
		case k == 1 || g.O.NoAttDefaults:
			g.w("#IMPLIED")
		default:
			if k == 3 {
				g.w("#FIXED")
				g.s()
			}
			if tok != "" {
				g.quote(tok)
			} else {
				g.attValue(true)
			}
		}
	}
	g.os()
	g.w(">")
}

func (g *xgen) entity() {
	r := g.R
	g.C.Entities++
	g.w("<!ENTITY")
	g.s()
	n := fmt.Sprintf("%s%d", g.ncname(), g.C.Entities)
	pe := !g.O.NoPE && r.P(20)
	if pe {
		g.w("%")
		g.s()
	}
	g.w(n)
	g.s()
	switch r.N(5) {
	case 0:
		g.extID(false)
	case 1:
		g.extID(false)
		if !pe {
			g.s()
			g.w("NDATA")
			g.s()
			g.w(g.ncname())
		}
	default:
		q := r.Pick(`"`, `'`)
		if g.O.NoCTester {
			q = `"`
		}
		other := `"'`[strings.IndexAny(`'"`, q)]
		g.w(q)
		plain := true
		for k := r.N(4); k > 0; k-- {
			switch r.N(6) {
			case 0:
				if !g.O.NoFancyEntities {
					g.w(r.Pick("<b/>", "<b c="+string(other)+"d"+string(other)+">x</b>"))
					plain = false
				}
			case 1:
				g.w(r.Pick("&amp;", "&gt;", "&lt;"))
				plain = false
			case 2:
				l := []string{"&#37;", "&#x25;", "&#65;", "&#160;", "&#xe9;", "&#8364;"}
				if !g.O.NoCTester && !g.O.NoQuotMix {
					l = append(l, "&#34;", "&#39;", "&#x22;", "&#x27;")
				}
				g.w(pick(r, l))
			default:
				s := g.words(q, "%", "&", "<")
				if g.O.NoQuotMix {
					s = strings.ReplaceAll(s, string(other), "")
				}
				g.w(s)
			}
		}
		g.w(q)
		if !pe {
			g.ents = append(g.ents, n)
			if plain {
				g.tents = append(g.tents, n)
			}
		}
	}
	g.os()
	g.w(">")
}

func (g *xgen) notation() {
	g.C.Notations++
	g.w("<!NOTATION")
	g.s()
	g.w(g.ncname())
	g.s()
	g.extID(true)
	g.os()
	g.w(">")
}

// longer tells how many more children a root should have: mostly none, sometimes very many.
func longer(r *RNG, oneIn int) int {
	if r.N(oneIn) != 0 {
		return 0
	}
	return r.PickInt(50, 200, 400, 1200)
}
