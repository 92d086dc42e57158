package main

import (
	"fmt"
	"strings"

	"golang.org/x/text/encoding/charmap"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID: "C31",
		Rule: "scripts of legal commands with random edits (commands inserted, dropped, repeated, swapped, misplaced, with other names, parameters, kinds, actions) and random sequences of commands are run by gotester, built from the working tree, and, translated by the harness one command to one call, directly on the API; gotester must exit with 0 exactly when every command is known and every call succeeds, with exactly the bytes of the direct calls, and otherwise with another status and a prefix of them; " +
			"distinct by script",
		Suites: []Suite{
			{Name: "edited", Quick: 6000, Thor: 150000, Run: c31edited},
			{Name: "soup", Quick: 5000, Thor: 120000, Run: c31soup},
		},
	})
}

// gmodel is the documented meaning of a script for gotester.
type gmodel struct {
	sink *capSink
	w    *xw.Writer
	opt  []xw.Option
}

func (g *gmodel) open(enc string) error {
	switch enc {
	case "UTF-8":
		g.w = xw.Open(g.sink, g.opt...)
	case "ISO-8859-1":
		g.w = xw.OpenEncoding(g.sink, enc, charmap.ISO8859_1.NewEncoder(), g.opt...)
	case "WINDOWS-1252":
		g.w = xw.OpenEncoding(g.sink, enc, charmap.Windows1252.NewEncoder(), g.opt...)
	default:
		return fmt.Errorf("unsupported encoding")
	}
	return nil
}

func stripWS(s string) string {
	f := func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }
	return strings.Join(strings.FieldsFunc(s, f), " ")
}

var errCommand = fmt.Errorf("the command is refused")

// do runs one command; refused commands give errCommand.
func (g *gmodel) do(k cmd) error {
	var name, ws string
	p := map[string]string{}
	for _, a := range k.at {
		switch a.K {
		case "name":
			name = a.V
		case "ws":
			ws = a.V
		case "line", "pos", "fn":
		default:
			p[a.K] = a.V
		}
	}
	content := k.content
	if ws == "strip" {
		content = stripWS(content)
	}
	known := func(names ...string) bool {
		for q := range p {
			ok := false
			for _, n := range names {
				ok = ok || n == q
			}
			if !ok {
				return false
			}
		}
		return true
	}
	boolean := func(s string) (v, ok bool) {
		switch strings.ToLower(s) {
		case "yes", "true":
			return true, true
		case "no", "false":
			return false, true
		}
		return false, false
	}
	if g.w == nil && k.action != "end" && !(k.action == "start" && k.kind == "doc") {
		if err := g.open("UTF-8"); err != nil {
			return err
		}
	}
	// is reads a parameter which is false when it isn't given.
	is := func(n string) (v, ok bool) {
		if s, given := p[n]; given {
			return boolean(s)
		}
		return false, true
	}
	switch k.action + " " + k.kind {
	case "write attr":
		if !known("prefix", "uri") {
			return errCommand
		}
		return g.w.WriteAttr(xw.Attr{Name: name, Prefix: p["prefix"], URI: p["uri"], Value: content})
	case "write cdata", "write comment", "write cdata-content", "write text", "write dtd-elem":
		if !known() {
			return errCommand
		}
		switch k.kind {
		case "cdata":
			return g.w.WriteCData(xw.CData{Content: content})
		case "comment":
			return g.w.WriteComment(xw.Comment{Content: content})
		case "cdata-content":
			return g.w.WriteCDataContent(content)
		case "dtd-elem":
			return g.w.WriteDTDElem(xw.DTDElem{Name: name, Decl: content})
		}
		return g.w.WriteText(content)
	case "write dtd-attr":
		if !known("decl", "type", "required") {
			return errCommand
		}
		a := xw.DTDAttr{Name: name, Type: xw.DTDAttrType(p["type"])}
		d, decl := p["decl"]
		req, ok := is("required")
		if !ok {
			return errCommand
		}
		switch {
		case decl && req:
			a.Default, a.Value = xw.DTDAttrFixed, d
		case decl:
			a.Default, a.Value = xw.DTDAttrDefault, d
		case req:
			a.Default = xw.DTDAttrRequired
		default:
			a.Default = xw.DTDAttrImplied
		}
		return g.w.WriteDTDAttr(a)
	case "write dtd-entity":
		if !known("is-pe", "ndata-id", "system-id", "public-id") {
			return errCommand
		}
		pe, ok := is("is-pe")
		if !ok {
			return errCommand
		}
		return g.w.WriteDTDEntity(xw.DTDEntity{Name: name, Content: content, IsPE: pe, NDataID: p["ndata-id"], SystemID: p["system-id"], PublicID: p["public-id"]})
	case "write notation":
		if !known("system-id", "public-id") {
			return errCommand
		}
		return g.w.WriteNotation(xw.Notation{Name: name, SystemID: p["system-id"], PublicID: p["public-id"]})
	case "write pi":
		if !known("target") {
			return errCommand
		}
		return g.w.WritePI(xw.PI{Target: p["target"], Content: content})
	case "write raw":
		next := true
		if s, ok := p["next"]; ok {
			if next, ok = boolean(s); !ok {
				return errCommand
			}
		}
		if !known("next") {
			return errCommand
		}
		if next {
			if err := g.w.Next(); err != nil {
				return err
			}
		}
		return g.w.WriteRaw(content)
	case "start doc":
		if !known("version", "encoding", "standalone") {
			return errCommand
		}
		d := xw.Doc{SuppressEncoding: true}
		if v, ok := p["version"]; ok {
			d.ForcedVersion = &v
		}
		enc, ok := p["encoding"]
		if ok {
			d.ForcedEncoding, d.SuppressEncoding = &enc, false
		} else {
			enc = "UTF-8"
		}
		if s, ok := p["standalone"]; ok {
			v, ok := boolean(s)
			if !ok {
				return errCommand
			}
			d.Standalone = &v
		}
		if g.w == nil {
			if err := g.open(strings.ToUpper(enc)); err != nil {
				return errCommand
			}
		}
		return g.w.StartDoc(d)
	case "start cdata", "start comment", "start dtd-att-list":
		if !known() {
			return errCommand
		}
		switch k.kind {
		case "cdata":
			return g.w.StartCData(xw.CData{})
		case "comment":
			return g.w.StartComment(xw.Comment{})
		}
		return g.w.StartDTDAttList(xw.DTDAttList{Name: name})
	case "start dtd":
		if !known("public-id", "system-id") {
			return errCommand
		}
		return g.w.StartDTD(xw.DTD{Name: name, PublicID: p["public-id"], SystemID: p["system-id"]})
	case "start elem":
		if !known("uri", "prefix") {
			return errCommand
		}
		return g.w.StartElem(xw.Elem{Name: name, Prefix: p["prefix"], URI: p["uri"]})
	}
	if k.action != "end" || g.w == nil {
		return errCommand
	}
	switch k.kind {
	case "elem":
		if !known("full") {
			return errCommand
		}
		full, ok := is("full")
		if !ok {
			return errCommand
		}
		if full {
			return g.w.EndElemFull()
		}
		return g.w.EndElem()
	case "all", "cdata", "comment", "doc", "dtd", "dtd-att-list":
		if !known() {
			return errCommand
		}
		switch k.kind {
		case "all":
			return g.w.EndAll()
		case "cdata":
			return g.w.EndCData()
		case "comment":
			return g.w.EndComment()
		case "doc":
			return g.w.EndDoc()
		case "dtd":
			return g.w.EndDTD()
		}
		return g.w.EndDTDAttList()
	}
	return errCommand
}

func c31run(c *Ctx, cmds []cmd) {
	var args []string
	g := &gmodel{sink: &capSink{}}
	if c.R.P(25) {
		args = []string{c.R.Pick("-indent", "--indent", "-indent=true")}
		g.opt = append(g.opt, xw.WithIndent())
	}
	script := scriptText(c.R, cmds, c.R.P(60))
	if c.R.P(30) { // what follows the script is not read
		script += c.R.Pick("\n", " \n\n", "<!-- c -->")
	}
	c.Describe(func() string { return fmt.Sprintf("options %v, script:\n%s", args, script) })
	var err error
	at := -1
	for i, k := range cmds {
		if err = g.do(k); err != nil {
			at = i
			break
		}
	}
	if err == nil && g.w == nil {
		err = fmt.Errorf("there are no commands")
	}
	if g.w != nil {
		if e := g.w.Flush(); e != nil && err == nil {
			err = e
		}
	}
	want := g.sink.String()
	r := runTool("", "gotester", script, args...)
	r.healthy(c)
	switch {
	case err == nil && r.code != 0:
		c.Fail("all commands are accepted by the API, but %v", r)
	case err == nil && r.out != want:
		c.Fail("other bytes than the same calls of the API: %s", diffAt(want, r.out))
	case err != nil && r.code == 0:
		c.Fail("command %d must fail (%v), but %v", at, err, r)
	case err != nil && !strings.HasPrefix(want, r.out):
		c.Fail("before the failing command %d, other bytes than the same calls of the API: %s", at, diffAt(want, r.out))
	case err != nil && strings.TrimSpace(r.err) == "":
		c.Fail("command %d fails, but nothing is reported: %v", at, r)
	}
	c.Eval(1)
	c.Event("commands run", len(cmds))
	if err != nil {
		c.Event("scripts refused", 1)
	} else {
		c.Event("bytes compared", len(want))
	}
	c.Distinct(script, strings.Join(args, " "))
	if c.R.N(4000) == 0 {
		c.Sample("%s", clip(script))
	}
}

var cmdKinds = []string{"attr", "cdata", "cdata-content", "comment", "doc", "dtd", "dtd-attr", "dtd-att-list", "dtd-elem", "dtd-entity", "elem", "notation", "pi", "raw", "text", "all"}
var cmdParams = []string{"prefix", "uri", "decl", "type", "required", "is-pe", "ndata-id", "system-id", "public-id", "target", "next", "version", "encoding", "standalone", "full", "line", "pos", "fn", "ws"}

// almostParams are not known, but almost.
var almostParams = []string{"lineno", "line2", "lin", "Line", "posn", "xpos", "po", "fname", "fn-", "f", "FN", "wss", "w", "prefixes", "pre", "uri2", "ur", "system", "next-", "Full", "encodings", "required2"}

func paramValue(r *RNG, k string) string {
	switch k {
	case "required", "is-pe", "full", "next", "standalone":
		return r.Pick("true", "false", "yes", "no", "YES", "True", "No", "maybe", "", "1")
	case "type":
		return r.Pick("CDATA", "ID", "(a|b)", "")
	case "encoding":
		return r.Pick("UTF-8", "utf-8", "ISO-8859-1", "iso-8859-1", "Windows-1252", "UTF-16", "", "latin1", "ISO-8859-15")
	case "version":
		return r.Pick("1.0", "1.1", "", "2")
	case "uri":
		return r.Pick("urn:a", "urn:b", "", "a&b\"<")
	case "ws":
		return r.Pick("strip", "strip", "none", "", "Strip")
	case "decl", "system-id":
		return r.Pick("", "x", "a b", "it's", "\"q\"", "<&>", "\n\t", "é")
	case "public-id":
		return r.Pick("", "-//X//Y", "a b", "it's", "é")
	}
	return r.Pick("a", "b", "p", "x-y", "", "é", "1", "a b", "xml")
}

func randomCmd(r *RNG) cmd {
	k := cmd{action: r.Pick("start", "write", "end", "write"), kind: pick(r, cmdKinds)}
	has := map[string]bool{}
	put := func(n, v string) {
		if !has[n] {
			has[n] = true
			k.at = append(k.at, KV{n, v})
		}
	}
	if k.action != "end" && r.P(90) {
		put("name", r.Pick("a", "b", "n", "é", "a:b", "1", ""))
	}
	var ps []string
	switch k.kind {
	case "attr", "elem":
		ps = []string{"prefix", "uri"}
		if k.action == "end" {
			ps = []string{"full"}
		}
	case "dtd-attr":
		ps = []string{"decl", "type", "type", "required"}
	case "dtd-entity":
		ps = []string{"is-pe", "ndata-id", "system-id", "public-id"}
	case "dtd", "notation":
		ps = []string{"system-id", "public-id"}
	case "pi":
		put("target", r.Pick("a", "t", "é", "xml", "1", ""))
	case "raw":
		ps = []string{"next"}
	case "doc":
		ps = []string{"version", "encoding", "standalone"}
	}
	for _, p := range ps {
		if r.P(45) && k.action != "end" || k.action == "end" && k.kind == "elem" && r.P(30) {
			put(p, paramValue(r, p))
		}
	}
	if r.P(15) {
		p := r.Pick("line", "pos", "fn", "ws")
		put(p, paramValue(r, p))
	}
	if r.P(4) { // almost a known parameter
		put(pick(r, almostParams), r.Pick("1", "true", "x"))
	}
	if k.action == "write" || r.P(5) {
		k.content = r.Pick("", "x", "a b", " a\n\tb ", "<&>\"'", "é", "--", "]]>", "?>", "-", "€", "\u0085", "\r\n", "ANY", "  ")
	}
	return k
}

// edit makes one random change to a script.
func editScript(r *RNG, l []cmd) []cmd {
	l = append([]cmd(nil), l...)
	i := r.N(len(l) + 1)
	if i == len(l) {
		return append(l, randomCmd(r))
	}
	at := append([]KV(nil), l[i].at...)
	switch r.N(12) {
	case 0, 1:
		l = append(l[:i], append([]cmd{randomCmd(r)}, l[i:]...)...)
	case 2:
		l = append(l[:i], l[i+1:]...)
	case 3:
		l = append(l[:i+1], l[i:]...)
	case 4:
		j := r.N(len(l))
		l[i], l[j] = l[j], l[i]
	case 5:
		if len(at) > 0 {
			j := r.N(len(at))
			at = append(at[:j], at[j+1:]...)
		}
		l[i].at = at
	case 6:
		p := pick(r, cmdParams)
		if r.P(50) {
			p = pick(r, almostParams)
		}
		for _, a := range at {
			if a.K == p {
				return l
			}
		}
		l[i].at = append(at, KV{p, paramValue(r, p)})
	case 7:
		if len(at) > 0 {
			j := r.N(len(at))
			if p := at[j].K; p == "name" {
				at[j].V = r.Pick("a", "b", "é", "", "1", "a b", "-x", "x:y")
			} else {
				at[j].V = paramValue(r, p)
			}
		}
		l[i].at = at
	case 8:
		l[i].kind = pick(r, cmdKinds)
	case 9:
		l[i].action = r.Pick("start", "write", "end")
	case 10:
		l[i].content = r.Pick("", "x", " a\n b ", "--", "]]>", "?>", "-", "<&>", "\u0085", "€")
	case 11:
		l = l[:i]
	}
	return l
}

// plainBools leaves out the values gotester does not define.
func plainBools(l []cmd) {
	for i := range l {
		for j, a := range l[i].at {
			if a.K == "required" || a.K == "is-pe" || a.K == "full" {
				switch strings.ToLower(a.V) {
				case "yes":
					l[i].at[j].V = "true"
				case "no":
					l[i].at[j].V = "false"
				}
			}
		}
	}
}

func c31edited(c *Ctx, i int) {
	l, _ := genScriptLong(c.R, false, longer(c.R, 60))
	plainBools(l)
	if i%4 != 0 {
		for n := c.R.PickInt(1, 1, 2, 5); n > 0; n-- {
			l = editScript(c.R, l)
		}
	}
	c31run(c, l)
}

func c31soup(c *Ctx, i int) {
	var l []cmd
	for n := c.R.Range(0, 30); n > 0; n-- {
		// mostly commands that are accepted so far
		k := randomCmd(c.R)
		for t := 0; t < 20; t++ {
			h := &gmodel{sink: &capSink{}}
			ok := true
			for _, x := range append(append([]cmd{}, l...), k) {
				if ok = h.do(x) == nil; !ok {
					break
				}
			}
			if ok || c.R.N(100) == 0 {
				break
			}
			k = randomCmd(c.R)
		}
		l = append(l, k)
	}
	c31run(c, l)
}
