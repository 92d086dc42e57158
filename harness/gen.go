package main

// Generators: strings, names, trees, and the translation of trees to programs.

import (
	"fmt"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

// hostile pieces of strings
var hostile = []string{
	"<", ">", "&", "\"", "'", "\t", "\n", "\r", "\r\n", " ", "  ", "--", "-", "-->", "<!--", "]", "]]", "]]>", "]>", "?>", "<?", "?",
	"&amp;", "&lt;", "&#38;", "&#xD;", "&", "<![CDATA[", "<a>", "</a>", "<a/>", "%pe;", "%", "=", "/>", "\x00", "\x01", "\x08", "\x0b", "\x0c", "\x1f",
	"\x7f", "\u0080", "\u0085", "\u009f", "\u00a0", "\u2028", "\ufdd0", "\ufffd", "\ufffe", "\uffff", "\ufeff", "\ue000", "\ud7ff", "\xff", "\xc0", "\xc0\x80", "\xed\xa0\x80", "\xe2\x82",
	"\xf0\x9f\x92", "\xf4\x90\x80\x80", "\U00010000", "\U0001F4A9", "\U0001fffe", "\U0010ffff", "\U0010fffe", "é", "ß", "日本語", "\u0301", "𝔘",
	"abc", "xyz 123", "The quick brown fox", "!", "\\", "{}", "`", "~", "|", "0", "A", "z",
}

func (r *RNG) rune() rune {
	switch r.N(10) {
	case 0, 1, 2, 3:
		return rune(0x20 + r.N(0x5f))
	case 4:
		return rune(r.N(0x20))
	case 5:
		return rune(0x7f + r.N(0x81))
	case 6:
		return rune(0x100 + r.N(0x700))
	case 7:
		return rune(0x800 + r.N(0xF800))
	case 8:
		return rune(0x10000 + r.N(0x100000))
	}
	return rune(r.N(0x110000))
}

// anyString makes any byte string.
func (r *RNG) anyString() string {
	if r.N(12) == 0 {
		if s, ok := r.again(); ok {
			return s
		}
	}
	return r.remember(r.newString())
}

func (r *RNG) newString() string {
	n := 0
	switch r.N(20) {
	case 0:
		return ""
	case 1:
		n = r.Range(8, 60)
	case 2:
		return strings.Repeat(pick(r, hostile), r.Range(1, 200))
	default:
		n = r.Range(1, 7)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.N(6) {
		case 0, 1, 2:
			b.WriteString(pick(r, hostile))
		case 3:
			b.WriteRune(r.rune())
		case 4:
			for k := r.N(12); k >= 0; k-- {
				b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEF0123456789    .,"[r.N(48)])
			}
		case 5:
			b.WriteByte(byte(r.N(256)))
		}
	}
	if r.N(150) == 0 {
		// cross the writer's buffer
		unit := "x"
		if r.Bool() {
			unit = pick(r, hostile)
		}
		n := r.Range(1000, 5000)
		if r.N(4) == 0 {
			n *= 5
		}
		b.WriteString(strings.Repeat(unit, n/len(unit)+1))
		b.WriteString(pick(r, hostile))
	}
	return b.String()
}

// legalChars removes what CheckChars rejects.
func legalChars(s string, strict bool) string {
	var b strings.Builder
	for i, c := range s {
		if c == utf8.RuneError && !strings.HasPrefix(s[i:], "\uFFFD") {
			continue
		}
		if !isXMLChar(c) || strict && isDiscouraged(c) {
			continue
		}
		b.WriteRune(c)
	}
	return b.String()
}

func without(s, bad string) string {
	for strings.Contains(s, bad) {
		s = strings.ReplaceAll(s, bad, "")
	}
	return s
}

func (r *RNG) legalComment() string {
	s := without(legalChars(r.anyString(), true), "--")
	if strings.HasSuffix(s, "-") {
		s += "."
	}
	return s
}

func (r *RNG) legalCData() string { return without(legalChars(r.anyString(), true), "]]>") }
func (r *RNG) legalPI() string    { return without(legalChars(r.anyString(), true), "?>") }

// split cuts s into pieces at arbitrary byte positions on rune boundaries.
func (r *RNG) split(s string, n int) []string {
	var l []string
	for ; n > 1 && len(s) > 0; n-- {
		k := r.N(len(s) + 1)
		for k > 0 && k < len(s) && !utf8.RuneStart(s[k]) {
			k--
		}
		l = append(l, s[:k])
		s = s[k:]
	}
	return append(l, s)
}

var nameStarts = []rune{'a', 'b', 'e', 'x', 'z', 'A', 'Q', 'Z', '_', 0xC0, 0xD6, 0xD8, 0xE9, 0xF6, 0xF8, 0x2FF, 0x370, 0x37D, 0x37F, 0x3B1, 0x416, 0x5D0, 0x1E00, 0x1FFF,
	0x200C, 0x200D, 0x2070, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0x3042, 0x65E5, 0x8A9E, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFFD}
var nameMore = []rune{'-', '.', '0', '5', '9', 0xB7, 0x300, 0x36F, 0x203F, 0x2040}

// ncname makes a name without a colon.
func (r *RNG) ncname(ascii bool) string { return r.remember(r.newName(ascii)) }

func (r *RNG) newName(ascii bool) string {
	if r.P(60) {
		return r.Pick("a", "b", "c", "foo", "bar", "item", "x1", "_y", "A-b.c", "data", "root", "elem", "Z")
	}
	var b strings.Builder
	n := r.Range(1, 6)
	if r.N(60) == 0 {
		n = r.Range(20, 300)
	}
	for i := 0; i < n; i++ {
		var c rune
		for {
			if i == 0 || r.P(65) {
				c = pick(r, nameStarts)
				if r.P(30) {
					c = rune(0x41 + r.N(0xFFBF))
				}
			} else {
				c = pick(r, nameMore)
			}
			if ascii && c > 126 || c == ':' {
				continue
			}
			if i == 0 && isNameStart(c) || i > 0 && isNameChar(c) {
				break
			}
		}
		b.WriteRune(c)
	}
	s := b.String()
	if len(s) >= 3 && strings.EqualFold(s[:3], "xml") {
		return "n" + s
	}
	return s
}

// G generates trees.
type G struct {
	R       *RNG
	ASCII   bool // names and literal content
	NoNS    bool
	NoDTD   bool
	NoDoc   bool
	Colons  bool
	Budget  int // nodes left
	MaxKids int
	Plain   bool // content is legal even for a DTD-aware parser: no hostile strings in text
	uniq    int
}

func newG(r *RNG) *G { return &G{R: r, Budget: r.Range(1, 40), MaxKids: 5} }

func (g *G) name() string {
	s := g.R.ncname(g.ASCII)
	if g.Colons && g.R.N(25) == 0 {
		s += ":" + g.R.ncname(g.ASCII)
	}
	return s
}

func (g *G) str() string {
	if g.Plain {
		return g.R.Pick("", "text", "some text", "value 1", "x")
	}
	return g.R.anyString()
}

func (g *G) lit(f func() string) string {
	if g.Plain {
		return g.R.Pick("", "text", "some text", "c", " x ")
	}
	s := f()
	if g.ASCII {
		var b strings.Builder
		for _, c := range s {
			if c < 127 {
				b.WriteRune(c)
			}
		}
		s = b.String()
		// dropping characters may have joined forbidden pairs
		for n := -1; n != len(s); {
			n = len(s)
			s = without(without(without(s, "--"), "]]>"), "?>")
		}
		if strings.HasSuffix(s, "-") {
			s += "."
		}
	}
	return s
}

func (g *G) uri() string {
	if g.R.P(70) || g.Plain {
		return g.R.Pick("urn:a", "urn:b", "http://example.com/ns", "http://example.com/ns2#x?y=1&z")
	}
	s := legalChars(g.R.anyString(), true)
	if s == "" || s == "http://www.w3.org/XML/1998/namespace" || s == "http://www.w3.org/2000/xmlns/" {
		return "urn:z"
	}
	return s
}

func (g *G) attrs(n *N) {
	if !g.R.P(60) {
		return
	}
	used := map[string]bool{}
	bind := map[string]string{}
	if n.URI != "" {
		bind[n.Prefix] = n.URI
		k := "xmlns"
		if n.Prefix != "" {
			k += ":" + n.Prefix
		}
		used[k] = true
	}
	cnt := g.R.Range(1, 4)
	if g.R.N(80) == 0 {
		cnt = g.R.Range(9, 70)
	}
	for i := 0; i < cnt; i++ {
		a := A{Name: g.name(), Value: g.str()}
		if !g.NoNS && g.R.P(25) {
			a.Prefix = g.R.Pick("p", "q", "ns1")
			switch {
			case bind[a.Prefix] != "":
				if g.R.Bool() {
					a.URI = bind[a.Prefix]
				}
			default:
				// binding must not clash with a prefix used without URI
				a.URI = g.uri()
				bind[a.Prefix] = a.URI
				used["xmlns:"+a.Prefix] = true
			}
		}
		for used[a.full()] || g.Colons && strings.HasPrefix(a.full(), "xmlns") {
			g.uniq++
			a.Name = fmt.Sprintf("%s%d", a.Name, g.uniq)
		}
		used[a.full()] = true
		n.Attrs = append(n.Attrs, a)
	}
}

func (g *G) elem(depth int) *N {
	g.Budget--
	n := &N{K: "elem", Name: g.name()}
	if !g.NoNS {
		switch g.R.N(10) {
		case 0, 1:
			n.Prefix, n.URI = g.R.Pick("p", "q", "ns1"), g.uri()
		case 2:
			n.URI = g.uri()
		}
	}
	g.attrs(n)
	n.Full = g.R.P(15)
	kids := 0
	if g.Budget > 0 {
		kids = g.R.N(g.MaxKids + 1)
	}
	for i := 0; i < kids && (g.Budget > 0 || i == 0); i++ {
		n.Kids = append(n.Kids, g.child(depth+1))
	}
	return n
}

// chain makes n elements each inside the former, with some siblings.
func (g *G) chain(n int) *N {
	root := &N{K: "elem", Name: g.name()}
	cur := root
	for i := 1; i < n; i++ {
		if g.R.P(15) {
			g.Budget = 2
			cur.Kids = append(cur.Kids, g.child(i))
		}
		e := &N{K: "elem", Name: g.name()}
		if g.R.P(20) {
			g.attrs(e)
		}
		cur.Kids = append(cur.Kids, e)
		if g.R.P(15) {
			g.Budget = 2
			cur.Kids = append(cur.Kids, g.child(i))
		}
		cur = e
	}
	g.Budget = 3
	for k := g.R.N(3); k > 0; k-- {
		cur.Kids = append(cur.Kids, g.child(n))
	}
	return root
}

func (g *G) child(depth int) *N {
	switch g.R.N(12) {
	case 0, 1, 2, 3, 4:
		return g.elem(depth)
	case 5, 6, 7:
		g.Budget--
		return &N{K: "text", Data: g.str()}
	case 8:
		g.Budget--
		return g.cdata()
	case 9, 10:
		g.Budget--
		return g.comment()
	}
	g.Budget--
	return g.pi()
}

func (g *G) pieces(s string) []string {
	if g.R.P(30) {
		return g.R.split(s, g.R.Range(2, 4))
	}
	return []string{s}
}

func (g *G) cdata() *N {
	return &N{K: "cdata", Pieces: g.pieces(g.lit(g.R.legalCData))}
}

func (g *G) comment() *N {
	return &N{K: "comment", Pieces: g.pieces(g.lit(g.R.legalComment))}
}

func (g *G) pi() *N { return &N{K: "pi", Name: g.R.ncname(g.ASCII), Data: g.lit(g.R.legalPI)} }

const pubChars = " \r\nabcxyzABCXYZ0123456789-'()+,./:=?;!*#@$_%"

func (g *G) pubID() string {
	if g.R.N(6) == 0 {
		// the same as another field
		if s, ok := g.R.again(); ok {
			s = strings.Map(func(c rune) rune {
				if c > 126 || strings.IndexByte(pubChars, byte(c)) < 0 {
					return -1
				}
				return c
			}, s)
			if s != "" {
				return g.R.remember(s)
			}
		}
	}
	return g.R.remember(g.newPubID())
}

func (g *G) newPubID() string {
	if g.R.P(60) {
		return g.R.Pick("-//W3C//DTD XHTML 1.0//EN", "pub", "a'b", "p q")
	}
	var b strings.Builder
	for k := g.R.Range(1, 12); k > 0; k-- {
		b.WriteByte(pubChars[g.R.N(len(pubChars))])
	}
	return b.String()
}

func (g *G) sysID() string { return g.R.remember(g.newSysID()) }

func (g *G) newSysID() string {
	if g.R.P(60) || g.Plain {
		return g.R.Pick("http://example.com/x.dtd", "sys", "a b", `it's`, `say "hi"`)
	}
	s := g.lit(func() string {
		if g.R.P(30) {
			if s, ok := g.R.again(); ok {
				return legalChars(s, false)
			}
		}
		return legalChars(g.R.anyString(), false)
	})
	if strings.Contains(s, `"`) && strings.Contains(s, "'") {
		s = strings.ReplaceAll(s, g.R.Pick(`"`, "'"), "")
	}
	if s == "" {
		return "s"
	}
	return s
}

// entityValue makes a value whose references are grammatical.
func (g *G) entityValue() string {
	s := g.lit(func() string { return legalChars(g.R.anyString(), false) })
	s = strings.ReplaceAll(strings.ReplaceAll(s, "%", ""), "&", "&#38;")
	if strings.Contains(s, `"`) && strings.Contains(s, "'") {
		s = strings.ReplaceAll(s, g.R.Pick(`"`, "'"), "")
	}
	if g.R.P(20) {
		s += g.R.Pick("&lt;", "&#x41;", "&#65;", "&other;")
	}
	return s
}

func (g *G) entity() *N {
	n := &N{K: "entity", Name: g.name()}
	switch g.R.N(6) {
	case 0, 1:
		n.Data = g.entityValue()
		n.PE = g.R.P(30)
	case 2:
		n.Sys = g.sysID()
		n.PE = g.R.P(30)
	case 3:
		n.Sys, n.Pub = g.sysID(), g.pubID()
		n.PE = g.R.P(30)
	case 4:
		n.Sys, n.NData = g.sysID(), g.name()
	case 5:
		n.Sys, n.Pub, n.NData = g.sysID(), g.pubID(), g.name()
	}
	return n
}

func (g *G) notation() *N {
	n := &N{K: "notation", Name: g.name()}
	switch g.R.N(3) {
	case 0:
		n.Sys = g.sysID()
	case 1:
		n.Pub = g.pubID()
	case 2:
		n.Sys, n.Pub = g.sysID(), g.pubID()
	}
	return n
}

func (g *G) dtdelem() *N {
	return &N{K: "dtdelem", Name: g.name(), Data: g.R.Pick(xw.DTDElemEmpty, xw.DTDElemAny, "(#PCDATA)", "(a|b)*", "(a,b?,(c|d)+)", "(#PCDATA|a|b)*", "(a)", "( a , b )")}
}

func (g *G) dtdattr() *N {
	n := &N{K: "dtdattr", Name: g.name(), Type: g.R.Pick("CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(a|b)", "NOTATION (n|m)")}
	n.Default = g.R.N(5)
	switch xw.DTDAttrDefaultType(n.Default) {
	case xw.DTDAttrRequired, xw.DTDAttrImplied:
	default:
		n.Data = g.str()
	}
	return n
}

func (g *G) attlist() *N {
	n := &N{K: "attlist", Name: g.name()}
	for k := g.R.N(4); k > 0; k-- {
		n.Kids = append(n.Kids, g.dtdattr())
	}
	return n
}

func (g *G) decl() *N {
	switch g.R.N(10) {
	case 0, 1, 2:
		return g.dtdelem()
	case 3, 4:
		return g.attlist()
	case 5, 6, 7:
		return g.entity()
	case 8:
		return g.notation()
	}
	return g.comment()
}

func (g *G) dtd() *N {
	n := &N{K: "dtd", Name: g.name()}
	switch g.R.N(4) {
	case 0:
		n.Sys = g.sysID()
	case 1:
		n.Sys, n.Pub = g.sysID(), g.pubID()
	}
	for k := g.R.N(5); k > 0; k-- {
		n.Kids = append(n.Kids, g.decl())
	}
	return n
}

func (g *G) misc() *N {
	if g.R.Bool() {
		return g.comment()
	}
	return g.pi()
}

// root makes the root element.
func (g *G) root() *N {
	switch g.R.N(12) {
	case 0:
		return g.chain(g.R.Range(5, 20))
	case 1:
		if g.R.N(3) == 0 {
			return g.chain(g.R.Range(20, 140))
		}
		return g.chain(g.R.Range(6, 36))
	case 2:
		g.Budget = g.R.Range(40, 150)
	}
	return g.elem(0)
}

// document makes the top-level nodes of a document.
func (g *G) document() []*N {
	var l []*N
	misc := func() {
		for g.R.P(20) {
			l = append(l, g.misc())
		}
	}
	misc()
	if !g.NoDTD && g.R.P(35) {
		l = append(l, g.dtd())
		misc()
	}
	l = append(l, g.root())
	misc()
	if !g.NoDoc && g.R.P(65) {
		d := &N{K: "doc", Standalone: g.R.N(3)}
		if g.R.P(20) {
			d.NoEnc = true
		} else if g.R.P(15) {
			s := g.R.Pick("UTF-8", "utf-8", "us-ascii")
			d.FEnc = &s
		}
		if g.R.P(15) {
			s := "1.0"
			d.FVer = &s
		}
		d.Kids = l
		return []*N{d}
	}
	return l
}

func countNodes(l []*N) int {
	n := 0
	for _, k := range l {
		n += 1 + countNodes(k.Kids) + len(k.Attrs)
	}
	return n
}

func treeDepth(l []*N) int {
	d := 0
	for _, k := range l {
		if e := 1 + treeDepth(k.Kids); e > d {
			d = e
		}
	}
	return d
}

// --- programs ---

// Comp translates trees to programs of API calls.
type Comp struct {
	r     *RNG
	mixed bool // random styles; otherwise one canonical direct call each
	ops   []Op
	depth int // what Writer.Depth() is
	noAll bool
}

// nestable: n can be given in the Content of an element.
func nestable(n *N) bool {
	switch n.K {
	case "text", "comment", "cdata":
		return true
	case "elem":
		for _, k := range n.Kids {
			if !nestable(k) {
				return false
			}
		}
		return true
	}
	return false
}

func (c *Comp) op(o Op) { c.ops = append(c.ops, o) }

var startMethod = map[string]string{"doc": "StartDoc", "dtd": "StartDTD", "attlist": "StartDTDAttList", "elem": "StartElem", "comment": "StartComment", "cdata": "StartCData"}
var endMethod = map[string]string{"doc": "EndDoc", "dtd": "EndDTD", "attlist": "EndDTDAttList", "elem": "EndElem", "comment": "EndComment", "cdata": "EndCData"}
var writeMethod = map[string]string{"elem": "WriteElem", "comment": "WriteComment", "cdata": "WriteCData", "attlist": "WriteDTDAttList",
	"dtdelem": "WriteDTDElem", "dtdattr": "WriteDTDAttr", "entity": "WriteDTDEntity", "notation": "WriteNotation", "pi": "WritePI"}
var contentMethod = map[string]string{"text": "WriteText", "ccontent": "WriteCommentContent", "dcontent": "WriteCDataContent", "raw": "WriteRaw"}

func (c *Comp) start(n *N) {
	if c.mixed && c.r.Bool() {
		c.op(Op{M: "Start", N: []*N{n}})
	} else {
		c.op(Op{M: startMethod[n.K], N: []*N{n}})
	}
	c.depth++
}

func (c *Comp) write(n *N) {
	if c.mixed && c.r.Bool() {
		// join with a preceding generic Write
		if k := len(c.ops) - 1; k >= 0 && c.ops[k].M == "Write" && c.r.P(40) {
			c.ops[k].N = append(append([]*N{}, c.ops[k].N...), n)
			return
		}
		c.op(Op{M: "Write", N: []*N{n}})
		return
	}
	if m := contentMethod[n.K]; m != "" {
		c.op(Op{M: m, D: n.Data})
		return
	}
	if n.K == "attr" {
		c.op(Op{M: "WriteAttr", N: []*N{n}})
		return
	}
	c.op(Op{M: writeMethod[n.K], N: []*N{n}})
}

func (c *Comp) attr(a A) {
	n := &N{K: "attr", Prefix: a.Prefix, URI: a.URI, Name: a.Name, Data: a.Value}
	if k := len(c.ops) - 1; c.mixed && k >= 0 && c.ops[k].M == "WriteAttr" && c.r.P(50) {
		c.ops[k].N = append(append([]*N{}, c.ops[k].N...), n)
		return
	}
	c.write(n)
}

// end ends the current node n, after left open descendants.
func (c *Comp) end(n *N, left int, full bool) {
	kind := int(kindOf[n.K])
	names := func() []string {
		switch n.K {
		case "elem":
			switch c.r.N(3) {
			case 0:
				return []string{n.Name}
			case 1:
				return []string{n.Prefix, n.Name}
			}
		case "dtd", "attlist":
			if c.r.Bool() {
				return []string{n.Name}
			}
		}
		return nil
	}
	if !c.mixed {
		if full {
			c.op(Op{M: "EndElemFull"})
		} else {
			c.op(Op{M: endMethod[n.K]})
		}
		c.depth--
		return
	}
	if left > 0 && !full && c.r.P(60) {
		c.op(Op{M: "EndToDepth", D: fmt.Sprint(c.depth - left - 1), I: kind, S: names()})
		c.depth -= left + 1
		return
	}
	for ; left > 0; left-- {
		c.op(Op{M: "EndAny"})
		c.depth--
	}
	if full {
		c.op(Op{M: "EndElemFull", S: names()})
		c.depth--
		return
	}
	switch c.r.N(4) {
	case 0:
		c.op(Op{M: "End", I: kind, S: names()})
	case 1:
		c.op(Op{M: "EndAny"})
	case 2:
		c.op(Op{M: "EndToDepth", D: fmt.Sprint(c.depth - 1), I: kind, S: names()})
	default:
		if n.K == "elem" {
			c.op(Op{M: "EndElem", S: names()})
		} else {
			c.op(Op{M: endMethod[n.K]})
		}
	}
	c.depth--
}

// node writes n and returns how many nodes it left open.
func (c *Comp) node(n *N, mayLeave bool) int {
	leave := func(k int) bool { return c.mixed && mayLeave && c.r.P(25) }
	switch n.K {
	case "text", "pi", "dtdelem", "dtdattr", "entity", "notation", "raw", "ccontent", "dcontent", "attr":
		c.write(n)
		return 0
	case "comment", "cdata":
		pcs := n.Pieces
		if len(pcs) == 0 && n.Data != "" {
			pcs = []string{n.Data}
		}
		ck := "ccontent"
		if n.K == "cdata" {
			ck = "dcontent"
		}
		if len(pcs) <= 1 && !(c.mixed && c.r.P(50)) {
			c.write(&N{K: n.K, Data: n.content()})
			return 0
		}
		first := &N{K: n.K}
		if c.mixed && c.r.Bool() && len(pcs) > 0 {
			first.Data, pcs = pcs[0], pcs[1:]
		}
		if c.mixed && c.r.P(20) {
			o := Op{M: "Block", N: []*N{first}}
			for _, p := range pcs {
				o.N = append(o.N, &N{K: ck, Data: p})
			}
			c.op(o)
			return 0
		}
		c.start(first)
		for _, p := range pcs {
			c.write(&N{K: ck, Data: p})
		}
		if leave(0) {
			return 1
		}
		c.end(n, 0, false)
		return 0
	case "attlist":
		m := *n
		rest := n.Kids
		k := 0
		if !c.mixed {
			k = len(rest)
		} else {
			k = c.r.N(len(rest) + 1)
		}
		m.Kids, rest = rest[:k], rest[k:]
		if len(rest) == 0 && !(c.mixed && c.r.Bool()) {
			c.write(&m)
			return 0
		}
		if c.mixed && c.r.P(25) {
			c.op(Op{M: "Block", N: append([]*N{&m}, rest...)})
			return 0
		}
		c.start(&m)
		for _, k := range rest {
			c.node(k, false)
		}
		if leave(0) {
			return 1
		}
		c.end(n, 0, false)
		return 0
	case "dtd", "doc":
		m := *n
		m.Kids = nil
		if c.mixed && c.r.P(25) && blockable(n.Kids) {
			c.op(Op{M: "Block", N: append([]*N{&m}, flatten(n.Kids)...)})
			return 0
		}
		c.start(&m)
		left := c.kids(n.Kids)
		if leave(left) {
			return left + 1
		}
		if n.K == "doc" && c.mixed && c.depth-left == 0 && c.r.P(60) {
			c.op(Op{M: c.r.Pick("EndDoc", "EndAll", "EndAllFlush")})
			c.depth = -1
			return 0
		}
		c.end(n, left, false)
		return 0
	case "elem":
		m := *n
		m.Kids, m.Attrs = nil, nil
		k, a := 0, 0
		if c.mixed {
			if c.r.P(60) {
				a = c.r.N(len(n.Attrs) + 1)
				if c.r.Bool() {
					a = len(n.Attrs)
				}
			}
			if c.r.P(50) {
				for k < len(n.Kids) && nestable(n.Kids[k]) && c.r.P(85) {
					k++
				}
			}
		}
		fullEnd := false
		if n.Full && c.mixed && c.r.Bool() {
			m.Full = false
			fullEnd = true
		} else if n.Full && !c.mixed {
			m.Full = false
			fullEnd = true
		}
		m.Attrs = n.Attrs[:a]
		restA := n.Attrs[a:]
		for _, x := range n.Kids[:k] {
			y := *x
			if x.K == "comment" || x.K == "cdata" {
				y.Data, y.Pieces = x.content(), nil
			}
			m.Kids = append(m.Kids, &y)
		}
		rest := n.Kids[k:]
		if !fullEnd && len(restA) == 0 && len(rest) == 0 && !(c.mixed && c.r.P(40)) {
			c.write(&m)
			return 0
		}
		if c.mixed && !fullEnd && c.r.P(25) && blockable(rest) {
			// attributes can be written in the block too
			l := []*N{&m}
			for _, x := range restA {
				l = append(l, &N{K: "attr", Prefix: x.Prefix, URI: x.URI, Name: x.Name, Data: x.Value})
			}
			c.op(Op{M: "Block", N: append(l, flatten(rest)...)})
			return 0
		}
		c.start(&m)
		for _, x := range restA {
			c.attr(x)
		}
		if c.mixed && len(n.Kids) > 0 && c.r.P(8) {
			c.op(Op{M: "Next"})
		}
		left := c.kids(rest)
		if !fullEnd && leave(left) {
			return left + 1
		}
		c.end(n, left, fullEnd)
		return 0
	}
	panic("harness: compile " + n.K)
}

// blockable: all of the nodes are Writable as a whole.
func blockable(l []*N) bool {
	for _, n := range l {
		if n.K == "elem" && !nestable(n) || n.K == "dtd" || n.K == "doc" {
			return false
		}
	}
	return true
}

func flatten(l []*N) []*N {
	var o []*N
	for _, n := range l {
		m := *n
		if n.K == "comment" || n.K == "cdata" {
			m.Data, m.Pieces = n.content(), nil
		}
		o = append(o, &m)
	}
	return o
}

// kids writes the children; only the last one may be left open.
func (c *Comp) kids(l []*N) int {
	left := 0
	for i, k := range l {
		if c.mixed && i < len(l) && c.r.N(40) == 0 {
			c.op(Op{M: "Flush"})
		}
		left = c.node(k, i == len(l)-1)
	}
	return left
}

// compile makes a program that writes the top-level nodes.
func compile(r *RNG, tops []*N, mixed bool) []Op {
	c := &Comp{r: r, mixed: mixed, depth: -1}
	left := 0
	for i, n := range tops {
		left = c.node(n, i == len(tops)-1)
	}
	if left > 0 {
		if r.Bool() {
			c.op(Op{M: r.Pick("EndAll", "EndAllFlush")})
		} else {
			for ; left > 0; left-- {
				c.op(Op{M: "EndAny"})
			}
		}
	} else if mixed && r.P(20) {
		c.op(Op{M: "EndAll"})
	}
	return c.ops
}
