package main

import (
	"fmt"
	"strings"

	"golang.org/x/text/encoding/charmap"
)

func init() {
	register(&Check{
		ID: "C24",
		Rule: "scripts made by testbuilder from generated documents, and scripts of nested commands over the shared command set with every parameter, run by ctester (libxml2's xmlwriter) and gotester, both built from the working tree; both must succeed, and their documents are parsed by the harness and compared token by token, with each other and with the document the script was made from; " +
			"distinct by script",
		Suites: []Suite{
			{Name: "documents", Quick: 4000, Thor: 60000, Run: c24documents},
			{Name: "scripts", Quick: 8000, Thor: 150000, Run: c24scripts},
			{Name: "long", Quick: 80, Thor: 1500, Run: c24long},
			{Name: "indent", Quick: 1500, Thor: 20000, Run: c24indent},
			{Name: "rejects", Quick: 4000, Thor: 40000, Run: c24rejects},
		},
	})
}

// cmd is one command of a script.
type cmd struct {
	action, kind string
	at           []KV
	content      string
}

// scriptText writes commands as a script, in varied but equivalent XML.
func scriptText(r *RNG, cmds []cmd, varied bool) string {
	var b strings.Builder
	b.WriteString(r.Pick("", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"))
	b.WriteString(r.Pick("<script>", "<script name=\"x\">", "<script ctester='yes'>"))
	esc := func(s string, attr bool) string {
		var o strings.Builder
		for _, c := range s {
			switch {
			case c == '&':
				o.WriteString(r.Pick("&amp;", "&#38;", "&#x26;"))
			case c == '<':
				o.WriteString(r.Pick("&lt;", "&#60;"))
			case c == '>':
				o.WriteString("&gt;")
			case c == '"' && attr:
				o.WriteString("&quot;")
			case c == '\r', attr && (c == '\n' || c == '\t'):
				fmt.Fprintf(&o, "&#%d;", c)
			case varied && r.N(30) == 0:
				fmt.Fprintf(&o, "&#x%x;", c)
			default:
				o.WriteRune(c)
			}
		}
		return o.String()
	}
	for _, k := range cmds {
		if varied && r.P(20) {
			b.WriteString(r.Pick("\n", "  ", "<!-- c -->", "\n\t"))
		}
		at := append([]KV{{"action", k.action}, {"kind", k.kind}}, k.at...)
		if varied && r.P(30) {
			for i := len(at) - 1; i > 0; i-- {
				j := r.N(i + 1)
				at[i], at[j] = at[j], at[i]
			}
		}
		b.WriteString("<command")
		for _, a := range at {
			fmt.Fprintf(&b, " %s=\"%s\"", a.K, esc(a.V, true))
		}
		switch {
		case k.content == "" && r.Bool():
			b.WriteString("/>")
		case varied && k.content != "" && !strings.Contains(k.content, "]]>") && !strings.Contains(k.content, "\r") && r.P(20):
			b.WriteString("><![CDATA[" + k.content + "]]></command>")
		default:
			b.WriteString(">" + esc(k.content, false) + "</command>")
		}
	}
	b.WriteString("</script>")
	return b.String()
}

// sgen makes valid, nested scripts.
type sgen struct {
	R    *RNG
	l    []cmd
	enc  string // encoding of the document
	left int
	flat bool // text only where it can't be confused with indentation
	long int  // how many more elements, attributes and declarations than usual
}

func (g *sgen) put(action, kind string, content string, at ...string) {
	c := cmd{action: action, kind: kind, content: content}
	for i := 0; i+1 < len(at); i += 2 {
		c.at = append(c.at, KV{at[i], at[i+1]})
	}
	g.l = append(g.l, c)
}

// text returns characters; any tells whether they may be outside the encoding.
func (g *sgen) text(any bool, avoid ...string) string {
	r := g.R
	words := []string{"hello", "x", " ", "a b", "é", "ÿ", "--", "]]", "]", "?", ">", "<", "&", "\"", "'", "&amp;", "<b>", "%", "#", "\n", "\t", "=", "-"}
	if any || g.enc == "" {
		words = append(words, "日本", "€", "😀", "ж", "\u00a0", "\u2028")
	}
	if any && !g.flat { // written as a reference
		words = append(words, "\r", "\r\n", "\r \t")
	}
	var b strings.Builder
	for n := r.N(6); n > 0; n-- {
		b.WriteString(r.Pick(words...))
	}
	if r.N(100) == 0 {
		b.WriteString(strings.Repeat(r.Pick("long ", "é", "<", "x"), r.Range(500, 6000)))
	}
	s := b.String()
	if g.flat {
		s = strings.Join(strings.Fields(s), "") + "x"
	}
	for again := true; again; {
		again = false
		for _, a := range avoid {
			if strings.Contains(s, a) {
				s, again = strings.ReplaceAll(s, a, ""), true
			}
		}
	}
	return s
}

func (g *sgen) ws(content string) []string {
	if content != "" && g.R.P(10) {
		return []string{"ws", g.R.Pick("strip", "strip", "none")}
	}
	return nil
}

func (g *sgen) name() string {
	n := pick(g.R, xnames)
	if g.R.N(10) == 0 && g.enc == "" {
		n += g.R.Pick("é", "中", "β")
	}
	return n
}

func (g *sgen) comment() {
	s := strings.TrimRight(g.text(false, "--"), "-")
	ws := g.ws(s)
	if ws != nil { // the stripped comment may not end with '-' either
		if ws[1] == "strip" {
			s = strings.ReplaceAll(s, " ", g.R.Pick(" ", "\r", "\r\n", " \r"))
		}
		s = strings.TrimRight(s, "- \t\r\n")
	}
	g.put("write", "comment", s, ws...)
}

func (g *sgen) pi() {
	s := strings.TrimLeft(g.text(false, "?>"), " \t\n")
	g.put("write", "pi", s, append([]string{"target", g.name()}, g.ws(s)...)...)
}

func (g *sgen) misc() {
	for g.R.P(25) {
		if g.R.Bool() {
			g.comment()
		} else {
			g.pi()
		}
	}
}

func (g *sgen) dtd() {
	r := g.R
	at := []string{"name", g.name()}
	switch r.N(4) {
	case 0:
		at = append(at, "system-id", g.sysid())
	case 1:
		at = append(at, "public-id", g.pubid(), "system-id", g.sysid())
	}
	g.put("start", "dtd", "", at...)
	for n := r.N(7) + g.long/4; n > 0; n-- {
		switch r.N(7) {
		case 0:
			if !g.flat {
				g.comment()
			}
		case 1:
			g.put("write", "dtd-elem", r.Pick("ANY", "EMPTY", "(a|b)*", "(#PCDATA)", "(a,b?,(c|d)+)"), "name", g.name())
		case 2, 3:
			g.put("start", "dtd-att-list", "", "name", g.name())
			for k, m := 0, r.Range(1, 4); k < m; k++ {
				at := []string{"name", fmt.Sprintf("%s%d", g.name(), k)}
				switch r.N(4) {
				case 0:
					at = append(at, "type", r.Pick("CDATA", "NMTOKEN", "ID", "(x|y)"), "required", r.Pick("true", "yes", "false", "no"))
				case 1:
					at = append(at, "type", "CDATA", "decl", g.text(false, "\n", "\t"))
				case 2:
					at = append(at, "type", "(x|y)", "decl", "x", "required", g.yes())
				case 3:
					at = append(at, "type", "CDATA", "required", g.yes(), "decl", g.text(false, "\n", "\t"))
				}
				g.put("write", "dtd-attr", "", at...)
			}
			g.put("end", "dtd-att-list", "")
		case 4, 5:
			at := []string{"name", fmt.Sprintf("%s%d", g.name(), len(g.l))}
			switch r.N(5) {
			case 0:
				g.put("write", "dtd-entity", "", append(at, "is-pe", g.yes(), "system-id", g.sysid())...)
			case 1:
				g.put("write", "dtd-entity", "", append(at, "public-id", g.pubid(), "system-id", g.sysid(), "ndata-id", g.name())...)
			case 2:
				g.put("write", "dtd-entity", "", append(at, "system-id", g.sysid(), "is-pe", r.Pick("false", "no"))...)
			default:
				s := g.text(false, `"`, "%", "&", "<", "\n", "\t")
				if s == "" {
					s = "v"
				}
				if r.P(20) {
					at = append(at, "is-pe", g.yes())
				}
				g.put("write", "dtd-entity", s, at...)
			}
		case 6:
			at := []string{"name", g.name()}
			switch r.N(3) {
			case 0:
				at = append(at, "system-id", g.sysid())
			case 1:
				at = append(at, "public-id", g.pubid(), "system-id", g.sysid())
			case 2:
				at = append(at, "public-id", g.pubid())
			}
			g.put("write", "notation", "", at...)
		}
	}
	g.put("end", "dtd", "")
}

func (g *sgen) yes() string   { return g.R.Pick("true", "yes") }
func (g *sgen) sysid() string { return g.R.Pick("x.dtd", "http://example.com/a", "it's", "a b", "a&b") }
func (g *sgen) pubid() string { return g.R.Pick("-//W3C//DTD XHTML 1.0//EN", "p", "a b", "x'y") }

// elem writes an element; open returns without ending the innermost ones.
func (g *sgen) elem(depth int, ns []string, open *bool) {
	r := g.R
	g.left--
	at := []string{"name", g.name()}
	used := map[string]bool{}
	if r.P(20) {
		p := r.Pick("p", "q", "ns1")
		at = append(at, "prefix", p, "uri", r.Pick("urn:a", "urn:b", "u&v"))
		ns = append(append([]string(nil), ns...), p)
		used[p] = true
	} else if r.P(8) {
		at = append(at, "uri", r.Pick("urn:a", "urn:b"))
	} else if len(ns) > 0 && r.P(30) {
		at = append(at, "prefix", pick(r, ns))
	}
	g.put("start", "elem", "", at...)
	if r.P(60) {
		uris := map[string]string{}
		more := 0
		if g.long > 0 && r.P(2) {
			more = r.N(g.long / 2)
		}
		for k, m := 0, r.Range(1, 5)+more; k < m; k++ {
			v := g.text(true)
			at := append([]string{"name", fmt.Sprintf("%s%d", g.name(), k)}, g.ws(v)...)
			if r.P(15) {
				p := r.Pick("m", "n", "o")
				if more > 0 {
					p += fmt.Sprint(r.N(more))
				}
				if uris[p] == "" {
					uris[p] = r.Pick("urn:m", "urn:n", "x<y")
				}
				at = append(at, "prefix", p, "uri", uris[p])
			} else if len(ns) > 0 && r.P(20) {
				at = append(at, "prefix", pick(r, ns))
			}
			g.put("write", "attr", v, at...)
		}
	}
	mixed := r.Bool()
	n := r.N(6)
	if depth == 1 {
		n += g.long
	}
	for ; n > 0; n-- {
		switch k := r.N(12); k {
		case 0:
			g.comment()
		case 1:
			g.pi()
		case 2:
			if !g.flat || mixed {
				s := g.text(false, "]]>")
				g.put("write", "cdata", s, g.ws(s)...)
			}
		case 3:
			if !g.flat || mixed {
				g.put("start", "cdata", "")
				for m := r.N(3); m > 0; m-- {
					s := strings.TrimRight(g.text(false, "]]>"), "] \t\n")
					g.put("write", "cdata-content", s, g.ws(s)...)
				}
				g.put("end", "cdata", "")
			}
		case 4:
			g.put("start", "comment", "")
			g.put("end", "comment", "")
		case 5:
			if !g.flat {
				var at []string
				if r.Bool() {
					at = []string{"next", r.Pick("true", "yes")}
				}
				g.put("write", "raw", r.Pick("<raw/>", "&amp;", "raw", "<r a='1'>x</r>", "<!--r-->", "\n"), at...)
			}
		case 6, 7, 8:
			if !g.flat || mixed {
				s := g.text(true)
				g.put("write", "text", s, g.ws(s)...)
			}
		default:
			if g.left > 0 && (!g.flat || !mixed) {
				g.elem(depth+1, ns, open)
				if *open {
					return
				}
			}
		}
	}
	if depth > 1 && r.N(25+g.long*4) == 0 && !g.flat {
		*open = true // "end all" or "end doc" follows
		return
	}
	switch {
	case r.P(20):
		g.put("end", "elem", "", "full", r.Pick("true", "yes"))
	case r.P(10):
		g.put("end", "elem", "", "full", r.Pick("false", "no"))
	default:
		g.put("end", "elem", "")
	}
}

func genScript(r *RNG, flat bool) ([]cmd, string) { return genScriptLong(r, flat, 0) }

func genScriptLong(r *RNG, flat bool, long int) ([]cmd, string) {
	g := &sgen{R: r, left: r.PickInt(1, 4, 12, 40) + long, flat: flat, long: long}
	doc := r.P(60)
	if doc {
		var at []string
		if r.P(60) {
			at = append(at, "version", r.Pick("1.0", "1.0", "1.1"))
		}
		if r.P(50) {
			switch r.N(4) {
			case 0:
				g.enc = "ISO-8859-1"
				at = append(at, "encoding", r.Pick("ISO-8859-1", "iso-8859-1"))
			case 1:
				g.enc = "WINDOWS-1252"
				at = append(at, "encoding", r.Pick("windows-1252", "WINDOWS-1252"))
			default:
				at = append(at, "encoding", r.Pick("UTF-8", "utf-8"))
			}
		}
		if r.P(30) {
			at = append(at, "standalone", r.Pick("yes", "no", "true", "false"))
		}
		g.put("start", "doc", "", at...)
	}
	g.misc()
	if r.P(35) {
		g.dtd()
		g.misc()
	}
	open := false
	g.elem(1, nil, &open)
	if !open {
		g.misc()
	}
	switch {
	case doc && r.Bool():
		g.put("end", "doc", "")
	case doc || open || r.P(30):
		g.put("end", "all", "")
	}
	return g.l, g.enc
}

func c24decode(c *Ctx, enc, s, who string) string {
	var cm *charmap.Charmap
	switch enc {
	case "ISO-8859-1":
		cm = charmap.ISO8859_1
	case "WINDOWS-1252":
		cm = charmap.Windows1252
	default:
		return s
	}
	t, err := cm.NewDecoder().String(s)
	if err != nil {
		c.Fail("%s: output is not in %s: %v", who, enc, err)
	}
	return t
}

// c24canon evens out what may differ: see canonDoc, and the case of encodings.
func c24canon(toks []Tok) []Tok {
	l := canonDoc(toks)
	for i := range l {
		if l[i].Kind == tkDecl {
			a := append([]KV(nil), l[i].Attrs...)
			for k := range a {
				if a[k].K == "encoding" {
					a[k].V = strings.ToUpper(a[k].V)
				}
			}
			l[i].Attrs = a
		}
	}
	return l
}

// c24run runs a script in both runners and returns the parsed documents.
func c24run(c *Ctx, script, enc string, args ...string) (lx, gx []Tok, lout, gout string) {
	l := runTool("", "ctester", script, args...)
	l.healthy(c)
	g := runTool("", "gotester", script, args...)
	g.healthy(c)
	c.Eval(2)
	if l.code != 0 || l.err != "" {
		c.Fail("ctester fails on a valid script: %v\ngotester: exit %d, %s\nscript:\n%s", l, g.code, clip(g.out), clip(script))
	}
	if g.code != 0 || g.err != "" {
		c.Fail("gotester fails where ctester succeeds: %v\nctester: %s\nscript:\n%s", g, clip(l.out), clip(script))
	}
	parse := func(who, s string) []Tok {
		t, err := parseSource(c24decode(c, enc, s, who))
		if err != nil {
			c.Fail("the document of %s is not well-formed: %v\nctester: %s\ngotester: %s\nscript:\n%s", who, err, clip(l.out), clip(g.out), clip(script))
		}
		return c24canon(t)
	}
	return parse("ctester", l.out), parse("gotester", g.out), l.out, g.out
}

func c24documents(c *Ctx, i int) {
	src, _ := xmlSource(c.R, XOpt{TokenTypes: true, NoDTDPI: true, NoEmptyIDs: true, NoCTester: true, Long: longer(c.R, 60)})
	c.Describe(func() string { return "document:\n" + src })
	tb := runTool("", "testbuilder", src)
	if tb.code != 0 {
		c.Fail("testbuilder refuses a well-formed document: %v", tb)
	}
	lx, gx, lout, gout := c24run(c, tb.out, "")
	if d := firstDiff(lx, gx, true); d != "" {
		c.Fail("the runners disagree (want = ctester): %s\nctester:\n%s\ngotester:\n%s\nscript:\n%s", d, clip(lout), clip(gout), clip(tb.out))
	}
	want, err := parseSource(src)
	if err != nil {
		die("the generator made a bad document: %v\n%s", err, src)
	}
	if d := firstDiff(c24canon(want), lx, false); d != "" {
		c.Fail("both runners changed the document: %s\nctester:\n%s\nscript:\n%s", d, clip(lout), clip(tb.out))
	}
	c.Event("tokens compared", len(gx))
	c.Event("commands run", strings.Count(tb.out, "<command "))
	c.Distinct(src)
}

func c24scripts(c *Ctx, i int) { c24script(c, 0) }

// c24long: many commands of each kind in one script.
func c24long(c *Ctx, i int) { c24script(c, c.R.PickInt(100, 300, 1000, 2500)) }

func c24script(c *Ctx, long int) {
	cmds, enc := genScriptLong(c.R, false, long)
	script := scriptText(c.R, cmds, true)
	c.Describe(func() string { return "script:\n" + script })
	lx, gx, lout, gout := c24run(c, script, enc)
	if d := firstDiff(lx, gx, true); d != "" {
		c.Fail("the runners disagree (want = ctester): %s\nctester:\n%s\ngotester:\n%s\nscript:\n%s", d, clip(lout), clip(gout), clip(script))
	}
	c.Event("tokens compared", len(gx))
	c.Event("commands run", len(cmds))
	for _, k := range cmds {
		c.Event(k.action+" "+k.kind, 1)
	}
	c.Distinct(script)
}

// c24indent: with -indent both may add white space, but nothing else.
func c24indent(c *Ctx, i int) {
	cmds, enc := genScriptLong(c.R, true, longer(c.R, 60))
	script := scriptText(c.R, cmds, true)
	c.Describe(func() string { return "script:\n" + script })
	lx, gx, lout, gout := c24run(c, script, enc, "-indent")
	trim := func(l []Tok) []Tok {
		var o []Tok
		for _, t := range l {
			if t.Kind == tkText {
				if t.Data = strings.TrimSpace(t.Data); t.Data == "" {
					continue
				}
			}
			o = append(o, t)
		}
		return o
	}
	if d := firstDiff(trim(lx), trim(gx), true); d != "" {
		c.Fail("the runners disagree when indenting (want = ctester): %s\nctester:\n%s\ngotester:\n%s\nscript:\n%s", d, clip(lout), clip(gout), clip(script))
	}
	c.Event("tokens compared", len(gx))
	c.Distinct(script)
}

// noSuchCommands are pairs of a known action and a known kind that don't go together.
var noSuchCommands = []string{"start attr", "start cdata-content", "start dtd-attr", "start dtd-elem", "start dtd-entity", "start notation", "start pi", "start raw", "start text", "start all",
	"write all", "write doc", "write dtd", "write dtd-att-list", "write elem",
	"end attr", "end cdata-content", "end dtd-attr", "end dtd-elem", "end dtd-entity", "end notation", "end pi", "end raw", "end text"}

// c24rejects: a script that can't be understood is run to success by neither.
func c24rejects(c *Ctx, i int) {
	r := c.R
	cmds, _ := genScript(r, false)
	good := scriptText(r, cmds, true)
	k := r.N(len(cmds))
	insert := func(x cmd) string {
		l := append(append(append([]cmd(nil), cmds[:k]...), x), cmds[k:]...)
		return scriptText(r, l, true)
	}
	replace := func(f func(x *cmd)) string {
		l := append([]cmd(nil), cmds...)
		x := l[k]
		x.at = append([]KV(nil), x.at...)
		f(&x)
		l[k] = x
		return scriptText(r, l, true)
	}
	only := "" // the runner the script is for, or both
	var what, bad string
	switch i % 9 {
	case 0:
		what = "unknown action"
		a := r.Pick("begin", "", "Start", "END", "write ", " end", "stop", "startt", "wr")
		bad = replace(func(x *cmd) { x.action = a })
	case 1:
		what = "unknown kind"
		a := r.Pick("element", "", "ELEM", "document", "doc ", "dtdattr", "dtd-attlist", "comments", "entity", "cdatacontent", "unknown", "Text")
		bad = replace(func(x *cmd) { x.kind = a })
	case 2:
		what = "no such command"
		p := strings.Fields(pick(r, noSuchCommands))
		if r.Bool() {
			bad = insert(cmd{action: p[0], kind: p[1], at: []KV{{"name", "a"}}})
		} else {
			bad = replace(func(x *cmd) { x.action, x.kind = p[0], p[1] })
		}
	case 3:
		what = "invalid boolean"
		v := r.Pick("maybe", "", "1", "0", "truee", "t", "y", "on", " yes", "no ")
		done := false
		for n := 0; n < len(cmds) && !done; n++ {
			k = (k + n) % len(cmds)
			bad = replace(func(x *cmd) {
				p := map[string]string{"write dtd-attr": "required", "write dtd-entity": "is-pe", "end elem": "full", "start doc": "standalone", "write raw": "next"}[x.action+" "+x.kind]
				if p == "" {
					return
				}
				done = true
				for j := range x.at {
					if x.at[j].K == p {
						x.at[j].V = v
						return
					}
				}
				x.at = append(x.at, KV{p, v})
			})
			if done && r.P(70) {
				break
			}
		}
		if !done {
			return
		}
	case 4:
		what = "cut short"
		bad = good[:r.N(strings.LastIndex(good, "</script>")+5)]
	case 5:
		what = "not a script"
		to := r.Pick("scripts", "scrip", "Script", "command", "x")
		bad = strings.Replace(strings.Replace(good, "<script", "<"+to, 1), "</script>", "</"+to+">", 1)
	case 6:
		what = "end of nothing"
		kind := r.Pick("elem", "dtd", "comment", "cdata", "dtd-att-list", "elem")
		if kind == "dtd" { // libxml2 takes that for done
			only = "gotester"
		}
		l := append(append([]cmd(nil), cmds...), cmd{action: "end", kind: "all"}, cmd{action: "end", kind: kind})
		bad = scriptText(r, l, true)
	case 7:
		what, only = "not for ctester", "ctester"
		a := strings.Index(good, "<script")
		e := a + strings.IndexByte(good[a:], '>') + 1
		bad = good[:a] + "<script ctester=\"" + r.Pick("no", "false", "maybe", "") + "\">" + good[e:]
	case 8:
		what, only = "something else than commands", "ctester"
		j := strings.LastIndex(good, "</script>")
		bad = good[:j] + r.Pick("x", "<foo/>", "<![CDATA[x]]>", "<commands/>", "<?pi?>") + good[j:]
	}
	c.Describe(func() string { return what + ", script:\n" + bad })
	for _, t := range []string{"ctester", "gotester"} {
		if only != "" && only != t {
			continue
		}
		if g := runTool("", t, good); g.code != 0 {
			c.Fail("%s fails on a valid script: %v\n%s", t, g, clip(good))
		}
		g := runTool("", t, bad)
		g.healthy(c)
		if g.code == 0 {
			c.Fail("%s succeeds on a script with %s: %v", t, what, g)
		}
		c.Eval(2)
	}
	c.Event("refused: "+what, 1)
	c.Distinct(bad)
}
