package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func init() {
	register(&Check{
		ID: "C25",
		Rule: "documents, damaged documents, random bytes, tester scripts (valid, damaged, with unknown or misordered commands), sizes around the read buffers, deep and wide structures, entity bombs, and lists of files and queries, fed to the tools built with AddressSanitizer and UndefinedBehaviorSanitizer, to those without libraries built with MemorySanitizer, and in part to the plain builds under valgrind; a monitor reads the sanitizers' reports, the exit status, signals and CPU time; " +
			"distinct by tool, options and input",
		Suites: []Suite{
			{Name: "readers", Quick: 4000, Thor: 120000, Run: c25readers},
			{Name: "scripts", Quick: 3500, Thor: 80000, Run: c25scripts},
			{Name: "indexer", Quick: 250, Thor: 8000, Run: c25indexer},
			{Name: "big", Quick: 120, Thor: 600, Run: c25big},
			{Name: "sizes", Quick: 4 * 9 * 14, Thor: 4 * 9 * 14 * 3, Run: c25sizes},
			{Name: "valgrind", Quick: 64, Thor: 2500, Run: c25valgrind},
		},
	})
}

// mutate damages a document in a few places.
func mutate(r *RNG, s string) string {
	b := []byte(s)
	for k := r.Range(1, 4); k > 0; k-- {
		if len(b) == 0 {
			b = []byte(genBytes(r, r.Range(1, 20)))
		}
		p := r.N(len(b))
		switch r.N(8) {
		case 0:
			b = append(b[:p:p], b[p+1:]...)
		case 1:
			b[p] = byte(r.N(256))
		case 2:
			b[p] = "<>&\"'-]?! =/;#x%[(|"[r.N(19)]
		case 3:
			q := r.N(len(b))
			if q < p {
				p, q = q, p
			}
			b = append(b[:p:p], b[q:]...)
		case 4: // repeat a slice
			q := p + r.N(40)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:q:q], b[p:]...)
		case 5:
			b = append(append(b[:p:p], pick(r, hostile)...), b[p:]...)
		case 6:
			b = append(append(b[:p:p], pick(r, xbits)...), b[p:]...)
		case 7:
			b = b[:p]
		}
	}
	return string(b)
}

var xbits = []string{"<", ">", "&", ";", "&#", "&#x", "&#9;", "&#x41;", "&#99999999999999999999;", "&#x0;", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<?x", "<!DOCTYPE", "<!DOCTYPE a [", "]>", "<!ENTITY a \"%\">", "<!ENTITY % p \"x\">", "%p;", "<!ENTITY e '%'>", "<!ENTITY n \"\u00a0\">", "<!ENTITY n \"\u00a0&#37;\">", "<!ATTLIST a b NOTATION (c|d) 'c'>", "<!ATTLIST a>", "<!ELEMENT a (b|c|d)>", "<!ELEMENT a ANY>", "<!NOTATION n PUBLIC 'x'>", "|", "::", ":", "a:b:c", " xmlns:a='b'", " xmlns=''", " a:b='1' a:c='2'", "encoding", "encoding=", "encoding='", "<?xml version='1.0'?>", "<?xml version='1.0' encoding='x'?>", "\xff", "\xc2", "\xef\xbb\xbf", "\xff\xfe", "\x00", "standalone='no'", "=", "'", "\"", "?"}

func c25doc(r *RNG) string {
	switch r.N(12) {
	case 10: // one dimension just at, below or above the size a table may have
		k := r.PickInt(0, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14)
		n := 1<<r.N(11) + r.Range(-2, 2)
		if n < 1 {
			n = 1
		}
		switch k { // n counts things
		case 4:
			n *= 10
		case 11, 12:
			n *= 20
		}
		_, in := bigInput(r, k, n)
		if r.P(30) {
			in = "<r>" + in + in + "</r>"
		}
		return in
	case 0:
		return genBytes(r, r.N(300))
	case 1:
		return genBytes(r, r.PickInt(4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000))
	case 2:
		d := genDecl(r)
		return mutate(r, d.text+genBody(r, len(d.text), r.PickInt(4096, 8192)))
	case 3:
		var b strings.Builder
		for n := r.Range(1, 12); n > 0; n-- {
			b.WriteString(pick(r, xbits))
		}
		return r.Pick("", "<?xml ", "<?xml version='1.0'?>", "<a>", "<!DOCTYPE a [", "<?xml\t") + b.String()
	case 4, 5:
		s, _ := xmlSource(r, XOpt{TokenTypes: true})
		return s
	case 6: // another encoding
		s, _ := xmlSource(r, XOpt{Decl: -1, Budget: 8})
		switch r.N(4) {
		case 0:
			return utf16Bytes(s, r.Bool())
		case 1:
			return "\xef\xbb\xbf" + s
		default:
			return "<?xml version='1.0' encoding='" + r.Pick("iso-8859-1", "windows-1252", "us-ascii", "x", "koi8-r", "utf-16", "UTF-8") + "'?>" + s
		}
	default:
		s, _ := xmlSource(r, XOpt{TokenTypes: true})
		return mutate(r, s)
	}
}

func utf16Bytes(s string, be bool) string {
	b := []byte{0xff, 0xfe}
	if be {
		b = []byte{0xfe, 0xff}
	}
	put := func(v rune) {
		if be {
			b = append(b, byte(v>>8), byte(v))
		} else {
			b = append(b, byte(v), byte(v>>8))
		}
	}
	for _, c := range s {
		if c > 0xffff {
			c -= 0x10000
			put(0xd800 + c>>10)
			put(0xdc00 + c&0x3ff)
		} else {
			put(c)
		}
	}
	return string(b)
}

type toolRun struct {
	tool string
	args []string
}

func c25tool(r *RNG) toolRun {
	switch r.N(9) {
	case 0, 1, 2:
		return toolRun{"testbuilder", pick(r, [][]string{nil, nil, {"-d"}, {"-s"}, {"-d", "-s"}, {"-h"}, {"-z"}})}
	case 3, 4:
		return toolRun{"normaliser", nil}
	case 5, 6:
		return toolRun{"encfixer", pick(r, [][]string{nil, nil, {"-d"}, {"-f", "UTF-8"}, {"-f", ""}, {"-f"}, {"-d", "-f", "x"}, {"-q"}})}
	case 7:
		return toolRun{"encextractor", nil}
	default:
		return toolRun{"nohigh", nil}
	}
}

func c25readers(c *Ctx, i int) {
	r := c.R
	t := c25tool(r)
	in := c25doc(r)
	c.Describe(func() string { return fmt.Sprintf("%s %q\ninput (%d bytes) %q", t.tool, t.args, len(in), in) })
	res := runTool("", t.tool+vSan, in, t.args...)
	res.healthy(c)
	c.Eval(1)
	c.Event(t.tool+map[bool]string{true: " accepts", false: " refuses"}[res.code == 0], 1)
	if cToolLibs[t.tool] == "" {
		res = runTool("", t.tool+vMsan, in, t.args...)
		res.healthy(c)
		c.Eval(1)
		c.Event("runs with MemorySanitizer", 1)
	}
	c.Distinct(t.tool, fmt.Sprint(t.args), in)
	c.Sample("%s %q: %d bytes, exit %d", t.tool, t.args, len(in), res.code)
}

var (
	scriptKinds   = []string{"all", "attr", "cdata", "cdata-content", "comment", "doc", "dtd", "dtd-attr", "dtd-att-list", "dtd-elem", "dtd-entity", "elem", "notation", "pi", "raw", "text"}
	scriptActions = []string{"start", "write", "end"}
)

// wildScript makes a script of arbitrary commands in arbitrary order.
func wildScript(r *RNG) string {
	var b strings.Builder
	b.WriteString(r.Pick("<script>", "<script name='x'>", "<?xml version='1.0'?><script>", "<script ctester='yes'>", "<script ctester='true' name='é'>", "<script ctester='maybe'>", "<script ctester='no'>", "<other>"))
	for n := r.N(30); n > 0; n-- {
		a := pick(r, scriptActions)
		k := pick(r, scriptKinds)
		if r.P(45) {
			x := r.Pick("start elem", "start elem", "end elem", "end elem", "write text", "write attr", "start doc", "end doc", "end all", "start dtd", "end dtd", "start cdata", "end cdata", "start comment", "end comment", "start dtd-att-list", "end dtd-att-list", "write dtd-attr", "write dtd-entity")
			a, k, _ = strings.Cut(x, " ")
		}
		if r.N(40) == 0 {
			a = r.Pick("", "stop", "START", "é")
		}
		if r.N(40) == 0 {
			k = r.Pick("", "element", "ELEM", "dtd-attlist")
		}
		b.WriteString("<command")
		at := func(n, v string) {
			if v == "" && r.Bool() {
				return
			}
			fmt.Fprintf(&b, " %s=%q", n, strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;", `\`, "").Replace(v))
		}
		if r.N(60) != 0 {
			at("action", a)
		}
		if r.N(60) != 0 {
			at("kind", k)
		}
		if r.P(75) {
			at("name", r.Pick("a", "b", "foo", "", "a:b", "1", "a b", "é", "<"))
		}
		for m := r.N(4); m > 0; m-- {
			switch r.N(14) {
			case 0:
				at("prefix", r.Pick("p", "", "xml"))
			case 1:
				at("uri", r.Pick("urn:a", "", "u"))
			case 2:
				at("type", r.Pick("CDATA", "(a|b)", "", "NOTATION (a)"))
			case 3:
				at("decl", r.Pick("x", "", "a\"b", "<&>"))
			case 4:
				at("required", r.Pick("true", "false", "yes", "no", "", "maybe"))
			case 5:
				at("full", r.Pick("true", "false", "x", ""))
			case 6:
				at("next", r.Pick("true", "false", "x", ""))
			case 7:
				at("public-id", r.Pick("p", "", "x y"))
			case 8:
				at("system-id", r.Pick("s", "", "it's", `say "x"`))
			case 9:
				at("ndata-id", r.Pick("n", ""))
			case 10:
				at("is-pe", r.Pick("true", "false", "", "q"))
			case 11:
				at("target", r.Pick("t", "", "xml", "a b"))
			case 12:
				at("ws", r.Pick("strip", "", "none"))
			case 13:
				at(r.Pick("encoding", "version", "standalone", "line", "unknown"), r.Pick("UTF-8", "1.0", "yes", "no", "", "x", "ISO-8859-1", "utf-8"))
			}
		}
		// duplicate attributes make the script ill-formed, which is fine now and then
		switch r.N(4) {
		case 0:
			b.WriteString("/>")
		default:
			b.WriteString(">")
			s := r.Pick("", " ", "text", " a  b ", "\n\t ", "é", "<![CDATA[x<y]]>", "&amp;", "]]&gt;", "--", "?&gt;", "<sub>x</sub>", "<!--c-->", "&#13;")
			if r.N(50) == 0 {
				s = strings.Repeat("long text ", r.Range(100, 5000))
			}
			b.WriteString(s + "</command>")
		}
		if r.N(30) == 0 {
			b.WriteString(r.Pick("\n", "<!-- x -->", "<foo/>", "text", "<?pi?>", "<![CDATA[ ]]>"))
		}
	}
	b.WriteString("</script>")
	s := b.String()
	if strings.HasPrefix(s, "<other>") {
		s = strings.Replace(s, "</script>", "</other>", 1)
	}
	return s
}

func c25scripts(c *Ctx, i int) {
	r := c.R
	in := ""
	switch r.N(10) {
	case 0:
		in = mutate(r, wildScript(r))
	case 1:
		src, _ := xmlSource(r, XOpt{TokenTypes: true})
		in = runTool("", "testbuilder", src).out
	case 2:
		src, _ := xmlSource(r, XOpt{TokenTypes: true})
		in = mutate(r, runTool("", "testbuilder", src).out)
	case 3:
		in = c25doc(r)
	case 4, 5, 6: // nested commands, valid or a little out of order
		cmds, _ := genScriptLong(r, false, longer(r, 60))
		for k := r.PickInt(0, 1, 1, 2, 4); k > 0 && len(cmds) > 0; k-- {
			p, q := r.N(len(cmds)), r.N(len(cmds))
			switch r.N(5) {
			case 0:
				cmds = append(cmds[:p:p], cmds[p+1:]...)
			case 1:
				cmds[p], cmds[q] = cmds[q], cmds[p]
			case 2:
				cmds = append(cmds[:p:p], append([]cmd{cmds[q]}, cmds[p:]...)...)
			case 3:
				e := cmd{action: "end", kind: r.Pick("all", "doc", "elem", "dtd", "dtd-att-list", "comment", "cdata")}
				cmds = append(cmds[:p:p], append([]cmd{e}, cmds[p:]...)...)
			case 4:
				cmds = cmds[:p]
			}
		}
		in = scriptText(r, cmds, r.Bool())
		c.Event("nested scripts", 1)
	default:
		in = wildScript(r)
	}
	var args []string
	if r.P(25) {
		args = []string{r.Pick("--indent", "-indent", "x")}
	}
	c.Describe(func() string { return fmt.Sprintf("ctester %q\ninput (%d bytes) %s", args, len(in), in) })
	res := runTool("", "ctester"+vSan, in, args...)
	res.healthy(c)
	c.Eval(1)
	c.Event("ctester"+map[bool]string{true: " accepts", false: " refuses"}[res.code == 0], 1)
	c.Distinct("ctester", in, fmt.Sprint(args))
	c.Sample("ctester: %d bytes, exit %d", len(in), res.code)
}

func c25indexer(c *Ctx, i int) {
	r := c.R
	dir, err := os.MkdirTemp("", "verif-ix-")
	if err != nil {
		die("%v", err)
	}
	defer removeTree(dir)
	var list []string
	for n := r.N(6); n > 0; n-- {
		name := fmt.Sprintf("%s%d.xml", r.Pick("f", "x y", "é", "007", "'q"), n)
		if r.N(12) == 0 {
			name = strings.Repeat("n", 200) + fmt.Sprint(n)
		}
		os.WriteFile(filepath.Join(dir, name), []byte(c25doc(r)), 0o644)
		list = append(list, name)
	}
	if r.P(40) {
		list = append(list, r.Pick("missing", "", ".", "..", "/dev/null", strings.Repeat("x", 9000), "a\x00b", "db"))
	}
	if r.P(15) { // libmagic can't write what it compiles
		os.Mkdir(filepath.Join(dir, "magic.mgc"), 0o755)
	}
	stdin := strings.Join(list, "\n")
	if r.P(70) {
		stdin += "\n"
	}
	c.Describe(func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "indexer index db <<< %q\n", clip(stdin))
		for _, f := range list {
			if x, err := os.ReadFile(filepath.Join(dir, f)); err == nil && f != "db" {
				fmt.Fprintf(&b, "%q: %q\n", f, clip(string(x)))
			}
		}
		return b.String()
	})
	res := runTool(dir, "indexer"+vSan, stdin, "index", "db")
	res.healthy(c)
	c.Eval(1)
	c.Event("files indexed", len(list))
	for _, args := range pick(r, [][][]string{
		{{"query", "db"}, {"query", "-a", "db", "elems > 0"}},
		{{"query", "-e", "db", ""}, {"query", "-d", "db", "1=1"}},
		{{"query", "db", "nonsense ("}, {"query", "."}},
		{{"query", "missing"}, {"query"}, {"index"}, {"frob"}, {}},
		{{"query", "-z", "db"}, {"index", "db"}, {"index", "no/such/dir/db"}},
		{{"query", "-e", "-d", "db", "file like '%'", "extra"}, {"query", "-a", "db", "abs(-9223372036854775808) > 0"}},
		{{"query", "-a", "db", strings.Repeat("elems >= 0 AND ", 300) + "1"}},
	}) {
		args := args
		c.Describe(func() string { return fmt.Sprintf("indexer %q in a directory with %q", args, list) })
		res := runTool(dir, "indexer"+vSan, "", args...)
		res.healthy(c)
		c.Eval(1)
		c.Event("other commands", 1)
	}
	c.Distinct("indexer", stdin, fmt.Sprint(i))
}

// bigInputs stress sizes and depths.
func bigInput(r *RNG, k, n int) (string, string) {
	switch k {
	case 0:
		return "deep elements", strings.Repeat("<a>", n) + strings.Repeat("</a>", n)
	case 1:
		return "deep unclosed", strings.Repeat("<a>", n)
	case 2:
		return "long name", "<" + strings.Repeat("n", n) + "/>"
	case 3:
		return "long attribute", "<a b='" + strings.Repeat("v<", 0) + strings.Repeat("v", n) + "'/>"
	case 4:
		var b strings.Builder
		b.WriteString("<a")
		for i := 0; i < n/10; i++ {
			fmt.Fprintf(&b, " n%d='%d'", i, i)
		}
		b.WriteString("/>")
		return "many attributes", b.String()
	case 5:
		return "long text", "<a>" + strings.Repeat("t&amp;", n) + "</a>"
	case 6:
		return "long comment", "<a><!--" + strings.Repeat("c", n) + "--></a>"
	case 7:
		return "long cdata", "<a><![CDATA[" + strings.Repeat("d\n", n) + "]]></a>"
	case 8:
		return "deep content model", "<!DOCTYPE a [<!ELEMENT a " + strings.Repeat("(", n) + "b" + strings.Repeat(")", n) + ">]><a/>"
	case 9:
		return "wide content model", "<!DOCTYPE a [<!ELEMENT a (b" + strings.Repeat("|b", n) + ")>]><a/>"
	case 10: // an entity bomb in an attribute
		var b strings.Builder
		b.WriteString("<!DOCTYPE a [<!ENTITY e0 \"0123456789\">")
		for i := 1; i < 9; i++ {
			fmt.Fprintf(&b, "<!ENTITY e%d \"%s\">", i, strings.Repeat(fmt.Sprintf("&e%d;", i-1), 10))
		}
		fmt.Fprintf(&b, "]><a b='&e%d;'/>", r.Range(5, 8))
		return "entity bomb in an attribute", b.String()
	case 11:
		var b strings.Builder
		b.WriteString("<!DOCTYPE a [")
		for i := 0; i < n/20; i++ {
			fmt.Fprintf(&b, "<!ENTITY e%d '%d\"&#37;'><!ATTLIST a b%d CDATA 'x'>", i, i, i)
		}
		return "many declarations", b.String() + "]><a/>"
	case 12:
		return "many namespaces", func() string {
			var b strings.Builder
			b.WriteString("<p0:a")
			for i := 0; i < n/20; i++ {
				fmt.Fprintf(&b, " xmlns:p%d='u%d' p%d:x='1'", i, i, i)
			}
			return b.String() + "/>"
		}()
	case 13:
		return "entity bomb in content", "<!DOCTYPE a [<!ENTITY a '" + strings.Repeat("x", 1000) + "'>]><a>" + strings.Repeat("&a;", n) + "</a>"
	default:
		return "long declaration", "<?xml version='1.0'" + strings.Repeat(" ", n) + "encoding='utf-8'?><a/>"
	}
}

const bigKinds = 15

// c25sizes: each dimension just below, at and above the sizes a table or
// buffer may have; a few sizes in one run for the tools that go over lists.
func c25sizes(c *Ctx, i int) {
	kinds := []int{0, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14, 15, 16}
	k := kinds[i%len(kinds)]
	pow := i / len(kinds) % 9
	tool := []string{"normaliser", "testbuilder", "ctester", "encfixer"}[i/len(kinds)/9%4]
	for d := -1; d <= 2; d++ {
		n := 4<<pow + d
		switch k {
		case 4:
			n *= 10
		case 11, 12:
			n *= 20
		}
		var kind, in string
		switch k {
		case 15:
			kind = "elements with one more attribute each"
			var b strings.Builder
			b.WriteString("<r>")
			for j := 0; j < 6; j++ {
				b.WriteString("<e")
				for l := 0; l < n-3+j; l++ {
					fmt.Fprintf(&b, " %c%d='%d'", 'a'+l%7, l, l)
				}
				b.WriteString("/>")
			}
			in = b.String() + "</r>"
		case 16:
			kind = "comments, PIs, attributes and text of that length"
			x := strings.Repeat("x", n)
			in = "<?t " + x + "?><!--" + x + "--><r a='" + x + "'>" + x + "<![CDATA[" + x + "]]></r>"
		default:
			kind, in = bigInput(c.R, k, n)
		}
		c.Describe(func() string { return fmt.Sprintf("%s: %s, %d bytes (n=%d)", tool, kind, len(in), n) })
		if tool == "ctester" {
			in = runTool("", "testbuilder", in).out
		}
		runTool("", tool+vSan, in).healthy(c)
		c.Eval(1)
		c.Event("inputs around powers of two", 1)
		c.Distinct(tool, kind, fmt.Sprint(n))
	}
}

func c25big(c *Ctx, i int) {
	r := c.R
	k := i % bigKinds
	n := r.PickInt(500, 5000, 20000)
	if c.Thorough() {
		n = r.PickInt(500, 5000, 20000, 100000)
	}
	if k == 8 && r.Bool() {
		n = 400000
	}
	if k == 4 && n > 50000 {
		n = 50000
	}
	kind, in := bigInput(r, k, n)
	tool := []string{"testbuilder", "normaliser", "indexer", "ctester", "encfixer", "encextractor", "nohigh"}[(i/bigKinds)%7]
	c.Describe(func() string { return fmt.Sprintf("%s: %s, %d bytes (n=%d)", tool, kind, len(in), n) })
	switch tool {
	case "indexer":
		dir, err := os.MkdirTemp("", "verif-ix-")
		if err != nil {
			die("%v", err)
		}
		defer removeTree(dir)
		os.WriteFile(filepath.Join(dir, "f.xml"), []byte(in), 0o644)
		runTool(dir, "indexer"+vSan, "f.xml\n", "index", "db").healthy(c)
	case "ctester":
		in = runTool("", "testbuilder", in).out
		runTool("", "ctester"+vSan, in).healthy(c)
	default:
		runTool("", tool+vSan, in).healthy(c)
	}
	c.Eval(1)
	c.Event("big inputs", 1)
	c.Event("bytes of big inputs", len(in))
	c.Distinct(tool, kind, fmt.Sprint(n))
}

func c25valgrind(c *Ctx, i int) {
	r := c.R
	if _, err := exec.LookPath("valgrind"); err != nil {
		c.Event("valgrind missing", 1)
		return
	}
	var t toolRun
	var in string
	if i%3 == 0 {
		t = toolRun{"ctester", nil}
		in = wildScript(r)
		if r.Bool() {
			src, _ := xmlSource(r, XOpt{TokenTypes: true})
			in = runTool("", "testbuilder", src).out
		}
	} else {
		t = c25tool(r)
		if i%3 == 1 {
			t = toolRun{"testbuilder", nil}
		}
		in = c25doc(r)
	}
	c.Describe(func() string { return fmt.Sprintf("valgrind %s %q\ninput (%d bytes) %q", t.tool, t.args, len(in), in) })
	res := valgrind("", t.tool, in, t.args...)
	res.healthyVG(c)
	c.Eval(1)
	c.Event("runs under valgrind", 1)
	c.Distinct("valgrind", t.tool, fmt.Sprint(t.args), in)
}

func valgrind(dir, tool, stdin string, args ...string) result {
	buildTools()
	return runBin(dir, "valgrind", stdin, append([]string{"-q", "--error-exitcode=98", "--leak-check=no", "--undef-value-errors=yes", filepath.Join(tools.dir, tool)}, args...)...)
}

func (r result) healthyVG(c *Ctx) {
	r.healthy(c)
	if r.code == 98 {
		c.Fail("valgrind: %s", clip(r.err))
	}
}
