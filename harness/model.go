package main

// Trees of XML nodes, programs of API calls, and how they run.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
)

// A is an attribute.
type A struct {
	Prefix, URI, Name, Value string
}

func (a A) full() string {
	if a.Prefix != "" {
		return a.Prefix + ":" + a.Name
	}
	return a.Name
}

func (a A) attr() xw.Attr { return xw.Attr{Prefix: a.Prefix, URI: a.URI, Name: a.Name, Value: a.Value} }

// N is a node of a tree, or an argument of an API call.
type N struct {
	K      string // doc dtd dtdelem attlist dtdattr entity notation elem attr text comment ccontent cdata dcontent pi raw
	Name   string `json:",omitempty"`
	Prefix string `json:",omitempty"`
	URI    string `json:",omitempty"`
	Data   string `json:",omitempty"` // text, whole content, declaration, value
	// for comment and cdata: the pieces the content is written in
	Pieces []string `json:",omitempty"`
	Attrs  []A      `json:",omitempty"`
	Kids   []*N     `json:",omitempty"`
	Full   bool     `json:",omitempty"`

	Pub, Sys, NData string `json:",omitempty"`
	PE              bool   `json:",omitempty"`
	Type            string `json:",omitempty"`
	Default         int    `json:",omitempty"`

	// doc
	NoEnc, NoVer bool    `json:",omitempty"`
	FEnc, FVer   *string `json:",omitempty"`
	Standalone   int     `json:",omitempty"` // 0 unset, 1 yes, 2 no
}

func (n *N) full() string {
	if n.Prefix != "" {
		return n.Prefix + ":" + n.Name
	}
	return n.Name
}

func (n *N) content() string {
	if len(n.Pieces) > 0 {
		return strings.Join(n.Pieces, "")
	}
	return n.Data
}

var kindOf = map[string]xw.NodeKind{
	"doc": xw.DocNode, "dtd": xw.DTDNode, "dtdelem": xw.DTDElemNode, "attlist": xw.DTDAttListNode,
	"dtdattr": xw.DTDAttrNode, "entity": xw.DTDEntityNode, "notation": xw.NotationNode, "elem": xw.ElemNode,
	"attr": xw.AttrNode, "text": xw.TextNode, "comment": xw.CommentNode, "ccontent": xw.CommentContentNode,
	"cdata": xw.CDataNode, "dcontent": xw.CDataContentNode, "pi": xw.PINode, "raw": xw.RawNode,
}

var allKinds = []string{"doc", "dtd", "dtdelem", "attlist", "dtdattr", "entity", "notation", "elem", "attr",
	"text", "comment", "ccontent", "cdata", "dcontent", "pi", "raw"}

// oddKinds are no kinds of any node.
var oddKinds = map[string]xw.NodeKind{"#0": xw.NoNode, "#-1": -1, "#99": 99, "#big": 1 << 30}

// kindNum is kindOf for odd kinds as well.
func kindNum(k string) xw.NodeKind {
	if v, ok := oddKinds[k]; ok {
		return v
	}
	return kindOf[k]
}

// anyKind is any kind of node, now and then one that does not exist.
func (r *RNG) anyKind() string {
	if r.N(8) == 0 {
		return r.Pick("#0", "#0", "#-1", "#99", "#big")
	}
	return pick(r, allKinds)
}

var startKinds = []string{"doc", "dtd", "attlist", "elem", "comment", "cdata"}

func isStartable(k string) bool {
	switch k {
	case "doc", "dtd", "attlist", "elem", "comment", "cdata":
		return true
	}
	return false
}

func (n *N) doc() xw.Doc {
	d := xw.Doc{SuppressEncoding: n.NoEnc, SuppressVersion: n.NoVer, ForcedEncoding: n.FEnc, ForcedVersion: n.FVer}
	if n.Standalone != 0 {
		d = d.WithStandalone(n.Standalone == 1)
	}
	return d
}

func (n *N) dtdattr() xw.DTDAttr {
	return xw.DTDAttr{Name: n.Name, Type: xw.DTDAttrType(n.Type), Default: xw.DTDAttrDefaultType(n.Default), Value: n.Data}
}

func (n *N) attlist() xw.DTDAttList {
	d := xw.DTDAttList{Name: n.Name}
	for _, k := range n.Kids {
		d.Attrs = append(d.Attrs, k.dtdattr())
	}
	return d
}

func (n *N) elem() xw.Elem {
	e := xw.Elem{Prefix: n.Prefix, URI: n.URI, Name: n.Name, Full: n.Full}
	for _, a := range n.Attrs {
		e.Attrs = append(e.Attrs, a.attr())
	}
	for _, k := range n.Kids {
		e.Content = append(e.Content, k.writable())
	}
	return e
}

func (n *N) attr() xw.Attr {
	return xw.Attr{Prefix: n.Prefix, URI: n.URI, Name: n.Name, Value: n.Data}
}

func (n *N) pi() xw.PI           { return xw.PI{Target: n.Name, Content: n.Data} }
func (n *N) dtd() xw.DTD         { return xw.DTD{Name: n.Name, PublicID: n.Pub, SystemID: n.Sys} }
func (n *N) dtdelem() xw.DTDElem { return xw.DTDElem{Name: n.Name, Decl: n.Data} }
func (n *N) entity() xw.DTDEntity {
	return xw.DTDEntity{Name: n.Name, Content: n.Data, IsPE: n.PE, PublicID: n.Pub, SystemID: n.Sys, NDataID: n.NData}
}
func (n *N) notation() xw.Notation {
	return xw.Notation{Name: n.Name, SystemID: n.Sys, PublicID: n.Pub}
}

// writable makes the Writable of the public API; nil if the node is not one.
func (n *N) writable() xw.Writable {
	switch n.K {
	case "attlist":
		return n.attlist()
	case "dtdelem":
		return n.dtdelem()
	case "dtdattr":
		return n.dtdattr()
	case "entity":
		return n.entity()
	case "notation":
		return n.notation()
	case "elem":
		return n.elem()
	case "attr":
		return n.attr()
	case "text":
		return xw.Text(n.Data)
	case "comment":
		return xw.Comment{Content: n.content()}
	case "ccontent":
		return xw.CommentContent(n.Data)
	case "cdata":
		return xw.CData{Content: n.content()}
	case "dcontent":
		return xw.CDataContent(n.Data)
	case "pi":
		return n.pi()
	case "raw":
		return xw.Raw(n.Data)
	}
	return nil
}

func (n *N) startable() xw.Startable {
	switch n.K {
	case "doc":
		return n.doc()
	case "dtd":
		return n.dtd()
	case "attlist":
		return n.attlist()
	case "elem":
		return n.elem()
	case "comment":
		return xw.Comment{Content: n.content()}
	case "cdata":
		return xw.CData{Content: n.content()}
	}
	return nil
}

// Op is one call of the public API.
type Op struct {
	M string   // method
	N []*N     `json:",omitempty"`
	S []string `json:",omitempty"` // names
	I int      `json:",omitempty"` // depth, kind
	D string   `json:",omitempty"` // string content
}

func (o Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

func opsString(ops []Op) string {
	var b strings.Builder
	for i, o := range ops {
		fmt.Fprintf(&b, "%d %s\n", i, o.String())
		if b.Len() > 20000 {
			b.WriteString("...\n")
			break
		}
	}
	return b.String()
}

// call makes the API call.
func call(w *xw.Writer, o Op) error {
	kind := func() xw.NodeKind { return xw.NodeKind(o.I) }
	switch o.M {
	case "Start":
		l := make([]xw.Startable, 0, len(o.N))
		for _, n := range o.N {
			l = append(l, n.startable())
		}
		return w.Start(l...)
	case "Write":
		l := make([]xw.Writable, 0, len(o.N))
		for _, n := range o.N {
			l = append(l, n.writable())
		}
		return w.Write(l...)
	case "Block":
		l := make([]xw.Writable, 0, len(o.N))
		for _, n := range o.N[1:] {
			l = append(l, n.writable())
		}
		return w.Block(o.N[0].startable(), l...)
	case "StartDoc":
		return w.StartDoc(o.N[0].doc())
	case "StartDTD":
		return w.StartDTD(o.N[0].dtd())
	case "StartDTDAttList":
		return w.StartDTDAttList(o.N[0].attlist())
	case "StartElem":
		return w.StartElem(o.N[0].elem())
	case "StartComment":
		return w.StartComment(xw.Comment{Content: o.N[0].content()})
	case "StartCData":
		return w.StartCData(xw.CData{Content: o.N[0].content()})
	case "WriteElem":
		return w.WriteElem(o.N[0].elem())
	case "WriteComment":
		return w.WriteComment(xw.Comment{Content: o.N[0].content()})
	case "WriteCData":
		return w.WriteCData(xw.CData{Content: o.N[0].content()})
	case "WriteCDataContent":
		return w.WriteCDataContent(o.D)
	case "WriteCommentContent":
		return w.WriteCommentContent(o.D)
	case "WriteText":
		return w.WriteText(o.D)
	case "WriteRaw":
		return w.WriteRaw(o.D)
	case "WritePI":
		return w.WritePI(o.N[0].pi())
	case "WriteDTDEntity":
		return w.WriteDTDEntity(o.N[0].entity())
	case "WriteDTDElem":
		return w.WriteDTDElem(o.N[0].dtdelem())
	case "WriteDTDAttr":
		return w.WriteDTDAttr(o.N[0].dtdattr())
	case "WriteDTDAttList":
		return w.WriteDTDAttList(o.N[0].attlist())
	case "WriteNotation":
		return w.WriteNotation(o.N[0].notation())
	case "WriteAttr":
		l := make([]xw.Attr, 0, len(o.N))
		for _, n := range o.N {
			l = append(l, n.attr())
		}
		return w.WriteAttr(l...)
	case "End":
		return w.End(kind(), o.S...)
	case "EndElem":
		return w.EndElem(o.S...)
	case "EndElemFull":
		return w.EndElemFull(o.S...)
	case "EndDoc":
		return w.EndDoc()
	case "EndDTD":
		return w.EndDTD()
	case "EndDTDAttList":
		return w.EndDTDAttList()
	case "EndComment":
		return w.EndComment()
	case "EndCData":
		return w.EndCData()
	case "EndAny":
		return w.EndAny()
	case "EndAll":
		return w.EndAll()
	case "EndAllFlush":
		return w.EndAllFlush()
	case "EndToDepth":
		d := 0
		fmt.Sscan(o.D, &d)
		return w.EndToDepth(d, kind(), o.S...)
	case "Next":
		return w.Next()
	case "Flush":
		return w.Flush()
	}
	panic("harness: unknown op " + o.M)
}

// Cfg is a configuration of a writer.
type Cfg struct {
	NoEnforce bool
	NoStrict  bool
	Buf       int
	Indent    *string // standard indenter with this indent string
	Newline   *string
	Version   string
	Indenter  xw.Indenter `json:"-"`
	Late      bool        // assign the fields of the open Writer instead of using options
	Nop       bool        // a custom indenter which does nothing
	Enc       string      // opened with OpenEncoding, this name and an encoder that passes on all bytes
	Warm      int         // the Writer has written a chain of so many elements before
}

// nopIndenter changes nothing.
type nopIndenter struct{}

func (nopIndenter) Indent(*xw.Writer, xw.Event, xw.Event) error { return nil }
func (nopIndenter) Wrap(s string) string                        { return s }

// vary adds what must not matter: buffer sizes, what the Writer wrote before, the
// way it is configured, an indenter that does nothing; and other line ends and versions.
func (c *Ctx) vary(cfg Cfg) Cfg {
	r := c.R
	if cfg.Buf == 0 && r.P(25) {
		cfg.Buf = r.PickInt(1, 3, 16, 17, 19, 31, 32, 64, 4096)
	}
	if cfg.Version == "" && r.P(10) {
		cfg.Version = r.Pick("1.0", "1.1", "1.0")
	}
	if cfg.Newline == nil && r.P(10) {
		s := r.Pick("\r\n", "", "\n\n", "\r", " ")
		cfg.Newline = &s
	}
	cfg.Late = cfg.Late || r.P(15)
	if r.P(10) {
		cfg.Enc = r.Pick("UTF-8", "utf-8", "UTF8", "x-utf8")
	}
	if cfg.Indent == nil && cfg.Indenter == nil {
		cfg.Nop = cfg.Nop || r.P(12)
		if cfg.Warm == 0 && r.P(12) {
			cfg.Warm = r.PickInt(1, 7, 8, 9, 16, 30, 100)
		}
	}
	return cfg
}

// open opens a Writer as configured.
func (c Cfg) open(s io.Writer) *xw.Writer {
	var w *xw.Writer
	if c.Enc != "" {
		w = c.opened(xw.OpenEncoding(s, c.Enc, encoding.Nop.NewEncoder(), c.options()...))
	} else {
		w = c.opened(xw.Open(s, c.options()...))
	}
	b, ok := s.(*capSink)
	if c.Warm > 0 && ok && c.Indent == nil && c.Indenter == nil {
		for k := 0; k < c.Warm; k++ {
			if err := w.StartElem(xw.Elem{Prefix: "p", URI: "warm", Name: "w", Full: k%2 == 0, Attrs: []xw.Attr{{Prefix: "q", URI: "warm", Name: "a"}}}); err != nil {
				panic(&failure{msg: fmt.Sprintf("StartElem failed: %v", err)})
			}
		}
		if err := w.EndAllFlush(); err != nil {
			panic(&failure{msg: fmt.Sprintf("EndAllFlush failed: %v", err)})
		}
		b.Reset()
		b.writes = 0
	}
	return w
}

func (c Cfg) options() []xw.Option {
	var l []xw.Option
	if c.Late {
		if c.Buf != 0 {
			l = append(l, func(w *xw.Writer) { w.InitialBufSize = c.Buf })
		}
		return l
	}
	if c.Indent != nil {
		if *c.Indent == " " {
			l = append(l, xw.WithIndent())
		} else {
			l = append(l, xw.WithIndentString(*c.Indent))
		}
	}
	l = append(l, c.set)
	return l
}

// set assigns the fields of a Writer.
func (c Cfg) set(w *xw.Writer) {
	if c.NoEnforce {
		w.Enforce = false
	}
	if c.NoStrict {
		w.StrictChars = false
	}
	if c.Buf != 0 {
		w.InitialBufSize = c.Buf
	}
	if c.Newline != nil {
		w.NewlineString = *c.Newline
	}
	if c.Version != "" {
		w.Version = c.Version
	}
	if c.Indenter != nil {
		w.Indenter = c.Indenter
	} else if c.Nop && c.Indent == nil {
		w.Indenter = nopIndenter{}
	}
}

// opened finishes a Writer that was opened with the options.
func (c Cfg) opened(w *xw.Writer) *xw.Writer {
	if c.Late {
		c.Late = false
		for _, o := range c.options() {
			o(w)
		}
	}
	return w
}

// capSink collects output, and stops runaway output.
type capSink struct {
	bytes.Buffer
	limit  int
	writes int
}

func (s *capSink) Write(b []byte) (int, error) {
	s.writes++
	lim := s.limit
	if lim == 0 {
		lim = 64 << 20
	}
	if s.Len()+len(b) > lim {
		panic(&failure{msg: fmt.Sprintf("runaway output: more than %d bytes", lim)})
	}
	return s.Buffer.Write(b)
}

// runOps runs a program to completion and flushes; it stops at the first error.
func runOps(ops []Op, cfg Cfg) (string, error, int) {
	s := &capSink{}
	w := cfg.open(s)
	for i, o := range ops {
		if err := call(w, o); err != nil {
			w.Flush()
			return s.String(), err, i
		}
	}
	err := w.Flush()
	return s.String(), err, len(ops)
}

// runAll runs every op whatever the errors.
func runAll(w *xw.Writer, ops []Op) []error {
	errs := make([]error, len(ops))
	for i, o := range ops {
		errs[i] = call(w, o)
	}
	return errs
}

var _ io.Writer = (*capSink)(nil)

// --- what a parser should see ---

// sanitize replaces what XML cannot represent by U+FFFD.
func sanitize(s string) string {
	ok := true
	for i, r := range s {
		if !isXMLChar(r) || r == utf8.RuneError && !strings.HasPrefix(s[i:], "\uFFFD") {
			ok = false
			break
		}
	}
	if ok {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		if !isXMLChar(r) {
			r = 0xFFFD
		}
		b.WriteRune(r)
	}
	return b.String()
}

// lineEnds is what a parser makes of line ends in literal content.
func lineEnds(s string) string {
	if strings.IndexByte(s, '\r') < 0 {
		return s
	}
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

// expected appends the tokens of a tree to l.
func expected(l []Tok, n *N, cfg Cfg, enc string) []Tok {
	switch n.K {
	case "doc":
		var at []KV
		if !n.NoVer {
			v := cfg.Version
			if v == "" {
				v = "1.0"
			}
			if n.FVer != nil {
				v = *n.FVer
			}
			at = append(at, KV{"version", v})
		}
		if !n.NoEnc {
			e := enc
			if cfg.Enc != "" {
				e = cfg.Enc
			}
			if n.FEnc != nil {
				e = *n.FEnc
			}
			if e != "" {
				at = append(at, KV{"encoding", e})
			}
		}
		if n.Standalone == 1 {
			at = append(at, KV{"standalone", "yes"})
		} else if n.Standalone == 2 {
			at = append(at, KV{"standalone", "no"})
		}
		l = append(l, Tok{Kind: tkDecl, Attrs: at})
		for _, k := range n.Kids {
			l = expected(l, k, cfg, enc)
		}
	case "elem":
		t := Tok{Kind: tkStart, Name: n.full()}
		ns := map[string]string{}
		if n.URI != "" {
			k := "xmlns"
			if n.Prefix != "" {
				k += ":" + n.Prefix
			}
			t.Attrs = append(t.Attrs, KV{k, sanitize(n.URI)})
			ns[n.Prefix] = n.URI
		}
		for _, a := range n.Attrs {
			t.Attrs = append(t.Attrs, KV{a.full(), sanitize(a.Value)})
		}
		for _, a := range n.Attrs {
			if _, ok := ns[a.Prefix]; a.URI != "" && !ok {
				t.Attrs = append(t.Attrs, KV{"xmlns:" + a.Prefix, sanitize(a.URI)})
				ns[a.Prefix] = a.URI
			}
		}
		t.Empty = len(n.Kids) == 0 && !n.Full
		l = append(l, t)
		for _, k := range n.Kids {
			l = expected(l, k, cfg, enc)
		}
		l = append(l, Tok{Kind: tkEnd, Name: n.full()})
	case "text":
		s := sanitize(n.Data)
		if s == "" {
			return l
		}
		if k := len(l) - 1; k >= 0 && l[k].Kind == tkText {
			l[k].Data += s
			return l
		}
		l = append(l, Tok{Kind: tkText, Data: s})
	case "comment":
		l = append(l, Tok{Kind: tkComment, Data: lineEnds(n.content())})
	case "cdata":
		l = append(l, Tok{Kind: tkCData, Data: lineEnds(n.content())})
	case "pi":
		l = append(l, Tok{Kind: tkPI, Name: n.Name, Data: strings.TrimLeft(lineEnds(n.Data), " \t\n")})
	case "dtd":
		t := Tok{Kind: tkDoctype, Name: n.Name, Pub: lineEnds(n.Pub), Sys: lineEnds(n.Sys)}
		if n.Pub != "" {
			t.Has += "p"
		}
		if n.Sys != "" {
			t.Has += "s"
		}
		if len(n.Kids) > 0 || n.Full {
			t.Has += "["
		}
		l = append(l, t)
		for _, k := range n.Kids {
			l = expected(l, k, cfg, enc)
		}
		l = append(l, Tok{Kind: tkDoctypeE})
	case "dtdelem":
		l = append(l, Tok{Kind: tkElemDecl, Name: n.Name, Data: strings.Join(strings.Fields(n.Data), "")})
	case "attlist":
		t := Tok{Kind: tkAttList, Name: n.Name}
		for _, k := range n.Kids {
			d := AttDef{Name: k.Name, Type: k.Type, Default: "value", Value: sanitize(k.Data)}
			switch xw.DTDAttrDefaultType(k.Default) {
			case xw.DTDAttrInfer:
				if k.Data == "" {
					d.Default = "#IMPLIED"
				}
			case xw.DTDAttrRequired:
				d.Default = "#REQUIRED"
			case xw.DTDAttrImplied:
				d.Default = "#IMPLIED"
			case xw.DTDAttrFixed:
				d.Default = "#FIXED"
			}
			t.Defs = append(t.Defs, d)
		}
		l = append(l, t)
	case "entity":
		t := Tok{Kind: tkEntity, Name: n.Name, Pub: lineEnds(n.Pub), Sys: lineEnds(n.Sys), NData: n.NData, Data: lineEnds(n.Data)}
		if n.PE {
			t.Has += "%"
		}
		if n.Pub == "" && n.Sys == "" {
			t.Has += "v"
		}
		if n.Pub != "" {
			t.Has += "p"
		}
		if n.Sys != "" {
			t.Has += "s"
		}
		if n.NData != "" {
			t.Has += "n"
		}
		l = append(l, t)
	case "notation":
		t := Tok{Kind: tkNotation, Name: n.Name, Pub: lineEnds(n.Pub), Sys: lineEnds(n.Sys)}
		if n.Pub != "" {
			t.Has += "p"
		}
		if n.Sys != "" {
			t.Has += "s"
		}
		l = append(l, t)
	default:
		panic("harness: expected: " + n.K)
	}
	return l
}

func expectedAll(tops []*N, cfg Cfg) []Tok {
	var l []Tok
	for _, n := range tops {
		l = expected(l, n, cfg, "UTF-8")
	}
	return l
}

func dump(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}
