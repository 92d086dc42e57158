package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID: "C23",
		Rule: "generated documents in every legal syntax piped through testbuilder (with each of its options) and gotester, both built from the working tree; input and output are read with the harness's own parser and compared token by token; and scripts damaged in one command, whose run must fail; " +
			"distinct by document or script",
		Suites: []Suite{
			{Name: "pipeline", Quick: 6000, Thor: 60000, Run: c23pipeline},
			{Name: "long", Quick: 60, Thor: 1200, Run: c23long},
			{Name: "rejects", Quick: 8000, Thor: 60000, Run: c23rejects},
		},
	})
}

// canonDoc removes what the tester does not keep: how declarations are grouped,
// which literal form an entity's value has, and the order of attributes.
func canonDoc(toks []Tok) []Tok {
	var l []Tok
	for _, t := range toks {
		switch t.Kind {
		case tkDoctype:
			t.Has = strings.ReplaceAll(t.Has, "[", "")
		case tkEntity:
			t.Data = charRefs(t.Data)
		case tkStart:
			a := append([]KV(nil), t.Attrs...)
			sort.SliceStable(a, func(x, y int) bool { return a[x].K < a[y].K })
			t.Attrs = a
		case tkAttList:
			for _, d := range t.Defs {
				if d.Type != "CDATA" {
					d.Value = collapse(d.Value)
				}
				l = append(l, Tok{Kind: tkAttList, Name: t.Name, Defs: []AttDef{d}, Off: t.Off})
			}
			continue
		}
		l = append(l, t)
	}
	return l
}

func c23compare(c *Ctx, src, script, out string) {
	want, err := parseSource(src)
	if err != nil {
		die("the generator made a bad document: %v\n%s", err, src)
	}
	got, err := parseSource(out)
	if err != nil {
		c.Fail("the document made by gotester is not well-formed: %v\noutput:\n%s\nscript:\n%s", err, clip(out), clip(script))
	}
	if d := firstDiff(canonDoc(want), canonDoc(got), false); d != "" {
		c.Fail("the document changed: %s\noutput:\n%s\nscript:\n%s", d, clip(out), clip(script))
	}
	c.Event("tokens compared", len(got))
}

func c23run(c *Ctx, src string, args []string) (script, out string) {
	tb := runTool("", "testbuilder", src, args...)
	tb.healthy(c)
	if tb.code != 0 || tb.err != "" {
		c.Fail("testbuilder refuses a well-formed document: %v", tb)
	}
	if _, err := parseXML(tb.out); err != nil {
		c.Fail("the script is not well-formed: %v\n%s", err, clip(tb.out))
	}
	g := runTool("", "gotester", tb.out)
	g.healthy(c)
	if g.code != 0 || g.err != "" {
		c.Fail("gotester fails: %v\nscript:\n%s", g, clip(tb.out))
	}
	c.Eval(2)
	return tb.out, g.out
}

func c23pipeline(c *Ctx, i int) {
	src, _ := xmlSource(c.R, XOpt{TokenTypes: true, NoDTDPI: true, NoEmptyIDs: true, Long: longer(c.R, 60)})
	args := pick(c.R, [][]string{nil, nil, {"-d"}, {"-s"}, {"-s", "-d"}})
	c.Describe(func() string { return fmt.Sprintf("testbuilder %q, document:\n%s", args, src) })
	script, out := c23run(c, src, args)
	c23compare(c, src, script, out)
	c.Event("commands run", strings.Count(script, "<command "))
	c.Distinct(src)
	c.Sample("%d bytes, script of %d commands", len(src), strings.Count(script, "<command "))
}

// longDoc: tokens longer than the read buffers, deep and wide documents.
func longDoc(r *RNG, i int) (kind, src string, n int) {
	n = r.PickInt(4090, 8185, 8192, 8200, 9000, 16384, 24570, 24576, 50000)
	oneLine := r.Bool() // expat passes text line by line
	big := func(avoid string) string {
		var b strings.Builder
		l := []string{"x", "yz", "é", "日本", "😀", " ", "\n", "-x", "]x", "%"}
		if oneLine {
			l[6] = "z"
		}
		for b.Len() < n {
			b.WriteString(pick(r, l))
		}
		return strings.ReplaceAll(b.String(), avoid, "")
	}
	switch k := i % 12; k {
	case 0:
		kind, src = "text", "<a><b/>"+big("]]>")+"<c/></a>"
	case 1:
		kind, src = "attribute", "<a><b c='"+big("<")+"' d=\"1\"/></a>"
	case 2:
		kind, src = "comment", "<!--"+big("--")+"--><a><!--"+strings.Repeat("c", n)+"--></a>"
	case 3:
		kind, src = "CDATA section", "<a><![CDATA["+big("]]>")+"]]><b/></a>"
	case 4:
		kind, src = "PI", "<?p "+strings.TrimSpace(big("?>"))+"x?><a/>"
	case 5:
		nm := strings.Repeat("n", n)
		kind, src = "name", "<"+nm+"><b "+nm+"='1'/></"+nm+">"
	case 6:
		d := r.PickInt(20, 100, 1000)
		kind, src = "depth", strings.Repeat("<a><b c='d'/>x", d)+strings.Repeat("</a>", d)
	case 7:
		var b strings.Builder
		for j := 0; j < n/10; j++ {
			fmt.Fprintf(&b, "<e%d f='%d'>%s</e%d>", j, j, r.Pick("", "t", "&amp;", "<!--c-->"), j)
		}
		kind, src = "width", "<a>"+b.String()+"</a>"
	case 8:
		var b strings.Builder
		b.WriteString("<!DOCTYPE a [")
		for j := 0; j < n/60; j++ {
			fmt.Fprintf(&b, "<!ELEMENT e%d (x|y|z)><!ATTLIST e%d a CDATA 'v%d'><!ENTITY n%d \"%s\"><!--%d-->", j, j, j, j, r.Pick("v", "'", "&#37;", "é"), j)
		}
		kind, src = "declarations", b.String()+"]><a>&n0;</a>"
	case 9:
		var b strings.Builder
		for j := 0; j < r.PickInt(50, 500, 1500); j++ {
			fmt.Fprintf(&b, " at%d='%d'", j, j)
		}
		kind, src = "attributes", "<a"+b.String()+"/>"
	case 10:
		var b strings.Builder
		m := r.PickInt(20, 130, 260, 520, 1000)
		if r.Bool() { // of one element
			b.WriteString("<a")
			for j := 0; j < m; j++ {
				fmt.Fprintf(&b, " xmlns:p%d='urn:%d'", j, j)
				if r.P(40) {
					fmt.Fprintf(&b, " p%d:b%d='%d'", r.N(j+1), j, j)
				}
			}
			fmt.Fprintf(&b, "><p%d:c/><p%d:d/></a>", r.N(m), m-1)
		} else { // of many
			b.WriteString("<a xmlns='urn:d'>")
			for j := 0; j < m; j++ {
				fmt.Fprintf(&b, "<p%d:b xmlns:p%d='urn:%d' c='%d'", j%7, j%7, j, j)
				if r.P(70) {
					fmt.Fprintf(&b, " q%d:d='' xmlns:q%d='urn:q%d'", j%5, j%5, j)
				}
				if r.Bool() {
					b.WriteString("/>")
				} else {
					fmt.Fprintf(&b, ">%s</p%d:b>", r.Pick("", " <d/>", "x"), j%7)
				}
			}
			b.WriteString("</a>")
		}
		kind, src = "namespaces", b.String()
	case 11:
		var b strings.Builder
		b.WriteString("<!DOCTYPE a [<!NOTATION n SYSTEM 's'><!ENTITY e 'v'>]><a xmlns:q='urn:q'>")
		for j := n / 50; j > 0; j-- {
			b.WriteString(r.Pick("<b/>", "text", "<!--c-->", "<?p i?>", "<![CDATA[d]]>", "<q:b/>", "<b q:a='1' b=\"'\"/>", "&e;", "&#233;", "\n", "<c xmlns='urn:c'>x</c>", "<d xml:lang='en'></d>", "&amp;", "<![CDATA[]]>", "<?q?>", "<!---->"))
		}
		kind, src = "mixture", b.String()+"</a>"
	}
	// move the tokens relative to the read buffers
	src = strings.Repeat("\n", r.N(40)) + src + strings.Repeat("\n", r.N(40))
	return
}

func c23long(c *Ctx, i int) {
	kind, src, n := longDoc(c.R, i)
	c.Describe(func() string { return fmt.Sprintf("long %s (n=%d), %d bytes: %s", kind, n, len(src), clip(src)) })
	script, out := c23run(c, src, nil)
	c23compare(c, src, script, out)
	c.Distinct(src)
	c.Event("long documents: "+kind, 1)
}

// c23rejects: a script with one thing wrong must not run to success.
// scriptParams are the parameters of commands by kind.
var scriptParams = map[string][]string{
	"attr": {"prefix", "uri"}, "dtd-attr": {"decl", "type", "required"}, "dtd-entity": {"is-pe", "ndata-id", "system-id", "public-id"},
	"notation": {"system-id", "public-id"}, "pi": {"target"}, "raw": {"next"}, "doc": {"version", "encoding", "standalone"},
	"dtd": {"public-id", "system-id"}, "elem": {"uri", "prefix", "full"},
}

func c23rejects(c *Ctx, i int) {
	r := c.R
	src, _ := xmlSource(r, XOpt{TokenTypes: true, NoDTDPI: true, NoEmptyIDs: true, Budget: r.PickInt(2, 8, 20)})
	script := runTool("", "testbuilder", src).out
	if g := runTool("", "gotester", script); g.code != 0 {
		c.Fail("gotester fails on a good script: %v\n%s", g, clip(script))
	}
	parts := strings.SplitAfter(script, "<command ")
	n := len(parts) - 1 // commands; the text of the k'th is in parts[k]
	if n < 1 {
		return
	}
	k := 1 + r.N(n)
	join := func(before string) string { // puts a command before the k'th
		return strings.Join(parts[:k-1], "") + strings.TrimSuffix(parts[k-1], "<command ") + before + "<command " + strings.Join(parts[k:], "")
	}
	set := func(at, v string) string { // replaces a property of the k'th command
		l := append([]string(nil), parts...)
		j := strings.Index(l[k], at+`="`)
		if j < 0 {
			return ""
		}
		e := j + len(at) + 2 + strings.IndexByte(l[k][j+len(at)+2:], '"')
		if v == "-" {
			l[k] = l[k][:j] + l[k][e+1:]
		} else {
			l[k] = l[k][:j] + at + `="` + v + l[k][e:]
		}
		return strings.Join(l, "")
	}
	var bad, what string
	switch i % 10 {
	case 0:
		what, bad = "unknown action", set("action", r.Pick("begin", "", "Start", "END", "write ", "stop", "-"))
	case 1:
		what, bad = "unknown kind", set("kind", r.Pick("element", "", "ELEM", "all", "doc-type", "dtdattr", "comment ", "-", "entity"))
		if strings.Contains(bad, `kind="all"`) && strings.Contains(bad, `action="end" kind="all"`) {
			return
		}
	case 2:
		what = "unknown parameter"
		l := append([]string(nil), parts...)
		p := r.Pick("foo", "content", "systemid", "value", "requires", "names", "next", "target", "decl", "full")
		var known []string
		for kind, ps := range scriptParams {
			if strings.Contains(l[k], ` kind="`+kind+`"`) {
				known = append(known, ps...)
			}
		}
		debugging := r.P(20)
		if debugging || len(known) > 0 && r.P(60) { // almost one it knows
			p = r.Pick("line", "pos", "fn")
			if !debugging {
				p = pick(r, known)
			}
			switch r.N(5) {
			case 0:
				p = strings.ToUpper(p)
			case 1:
				p = strings.ToUpper(p[:1]) + p[1:]
			case 2:
				p = p[:len(p)-1]
			case 3:
				p += r.Pick("s", "-", ".", "0", "é")
			case 4:
				p = "_" + p
			}
		} else if slices.Contains(known, p) {
			return
		}
		l[k] = p + `="x" ` + l[k]
		bad = strings.Join(l, "")
	case 3:
		what = "no such node to end"
		bad = join(fmt.Sprintf(`<command action="end" kind="%s"/>`, r.Pick("comment", "cdata", "dtd-att-list", "dtd-elem", "attr", "pi", "text", "raw")))
		if strings.Contains(bad, `end" kind="dtd-att-list"/><command`) && strings.Contains(script, "dtd-att-list") {
			return
		}
	case 4:
		what = "cut short"
		p := strings.LastIndex(script, "</script>")
		bad = script[:r.N(p)]
		if r.P(30) {
			bad = script[:p] + r.Pick("", "</scrip>", "</command></script>", "<command/></script", "&nosuch;</script>", "\x01</script>", "<command action=start kind=\"elem\"/></script>", "<command></script>")
		}
	case 5:
		what = "invalid boolean"
		v := r.Pick("maybe", "", "1", "0", "t", "truee", "yess", " true", "on")
		bad = join(`<command action="write" kind="raw" next="` + v + `">x</command>`)
		for _, p := range []string{"required", "is-pe", "full", "standalone"} {
			if r.Bool() && set(" "+p, v) != "" {
				bad = set(" "+p, v)
			}
		}
	case 6:
		what = "not a script"
		bad = strings.Replace(strings.Replace(script, "<script>", "<scripts>", 1), "</script>", "</scripts>", 1)
		if r.Bool() {
			bad = r.Pick("", " ", "x", "<", "<?xml version='1.0'?>", "<command action='start' kind='elem' name='a'/>", "<!--c-->", src)
			if bad == src && strings.Contains(src, "<script") {
				return
			}
		}
	case 7:
		what = "bad name"
		l := append([]string(nil), parts...)
		j := strings.Index(l[k], ` name="`)
		if j < 0 || !strings.HasPrefix(l[k], `action="start" kind="elem"`) && !strings.HasPrefix(l[k], `action="write" kind="attr"`) && !strings.HasPrefix(l[k], `action="start" kind="dtd"`) {
			return
		}
		first := r.Pick("1", "-", " ", "a b", "&lt;", "a&gt;", "&quot;")
		if (first == "1" || first == "-") && strings.Contains(l[k], ` prefix="`) {
			return // "p:-a" is a name
		}
		l[k] = l[k][:j+7] + first + l[k][j+7:]
		bad = strings.Join(l, "")
	case 8:
		what = "second document"
		bad = strings.Join(parts[:len(parts)-1], "") + parts[len(parts)-1]
		bad = strings.Replace(bad, "</script>", `<command action="start" kind="elem" name="a"/><command action="start" kind="doc"/></script>`, 1)
	case 9:
		what = "end of nothing"
		bad = strings.Replace(script, "</script>", `<command action="end" kind="all"/><command action="end" kind="`+r.Pick("elem", "doc", "dtd", "comment", "cdata")+`"/></script>`, 1)
	}
	if bad == "" || bad == script {
		return
	}
	c.Describe(func() string { return what + ", script:\n" + bad })
	g := runTool("", "gotester", bad)
	g.healthy(c)
	if g.code == 0 {
		c.Fail("gotester succeeds on a script with %s: %v", what, g)
	}
	c.Eval(2)
	c.Event("refused: "+what, 1)
	c.Distinct(bad)
}
