package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID: "C26",
		Rule: "generated documents in every legal syntax (quotes, white space, references, CDATA sections, internal subsets with defaults, multi-byte text, sizes past the read buffers) run through the tools built from the working tree; outputs are parsed by the harness's own XML parser and compared with the parsed input, or compared byte for byte with what the parts of the input imply; " +
			"distinct by input",
		Suites: []Suite{
			{Name: "normaliser", Quick: 8000, Thor: 60000, Run: c26normaliser},
			{Name: "long", Quick: 100, Thor: 2000, Run: c26long},
			{Name: "encfixer", Quick: 8000, Thor: 60000, Run: c26encfixer},
			{Name: "encextractor", Quick: 6000, Thor: 40000, Run: c26encextractor},
			{Name: "nohigh", Quick: 3000, Thor: 30000, Run: c26nohigh},
			{Name: "rejects", Quick: 2000, Thor: 15000, Run: c26rejects},
			{Name: "declarations", Quick: 2000, Thor: 15000, Run: c26badDecl},
		},
	})
}

func sortedAttrs(toks []Tok) []Tok {
	l := append([]Tok(nil), toks...)
	for i := range l {
		if l[i].Kind == tkStart {
			a := append([]KV(nil), l[i].Attrs...)
			sort.SliceStable(a, func(x, y int) bool { return a[x].K < a[y].K })
			l[i].Attrs = a
		}
	}
	return l
}

func c26long(c *Ctx, i int) {
	kind, src, _ := longDoc(c.R, i)
	c.Event("long documents: "+kind, 1)
	c26normalise(c, src)
}

func c26normaliser(c *Ctx, i int) {
	src, _ := xmlSource(c.R, XOpt{TokenTypes: i%3 == 0, Long: longer(c.R, 60)})
	c26normalise(c, src)
}

func c26normalise(c *Ctx, src string) {
	c.Describe(func() string { return "document:\n" + src })
	want, err := parseSource(src)
	if err != nil {
		die("the generator made a bad document: %v\n%s", err, src)
	}
	res := runTool("", "normaliser", src)
	res.healthy(c)
	if res.code != 0 || res.err != "" {
		c.Fail("normaliser refuses a well-formed document: %v", res)
	}
	p, got, err := parseSourceP(res.out)
	if err != nil {
		c.Fail("the output of normaliser is not well-formed: %v\noutput:\n%s", err, clip(res.out))
	}
	want = sortedAttrs(want)
	if d := firstDiff(want, got, false); d != "" {
		c.Fail("normaliser changed the document: %s\noutput:\n%s", d, clip(res.out))
	}
	for k := range got {
		if got[k].Kind != tkStart {
			continue
		}
		for j := range got[k].Attrs {
			if got[k].Attrs[j] != want[k].Attrs[j] {
				c.Fail("normaliser: attributes of <%s> are not sorted by name: %v, want %v", got[k].Name, got[k].Attrs, want[k].Attrs)
			}
		}
		c.Event("attributes in order", len(got[k].Attrs))
	}
	if len(p.decRefs) > 0 {
		c.Fail("normaliser left a decimal reference: %q\noutput:\n%s", p.decRefs[0], clip(res.out))
	}
	again := runTool("", "normaliser", res.out)
	if again.code != 0 || again.out != res.out {
		c.Fail("normaliser is not idempotent: first %q, then %v", clip(res.out), again)
	}
	c.Eval(2)
	c.Event("tokens compared", len(got))
	c.Distinct(src)
	c.Sample("%d bytes, %d tokens", len(src), len(got))
}

type declCase struct {
	text     string // the declaration
	kv       []KV
	bufSized bool
}

func genDecl(r *RNG) declCase {
	var d declCase
	var b strings.Builder
	ws := func(min int) {
		n := min
		if r.P(25) {
			n += r.N(3)
		}
		if r.N(60) == 0 {
			n += r.Range(100, 3000)
		}
		for ; n > 0; n-- {
			b.WriteString(r.Pick(" ", " ", " ", "\t", "\n", "\r\n"))
		}
	}
	add := func(k, v string) {
		if r.P(70) {
			b.WriteString(" ")
		} else {
			ws(1)
		}
		b.WriteString(k)
		if r.P(12) {
			ws(0)
		}
		b.WriteString("=")
		if r.P(12) {
			ws(0)
		}
		q := r.Pick(`"`, `'`)
		b.WriteString(q + v + q)
		d.kv = append(d.kv, KV{k, v})
	}
	b.WriteString("<?xml")
	add("version", r.Pick("1.0", "1.1", "1.0"))
	if r.P(75) {
		add("encoding", r.Pick("UTF-8", "utf-8", "Utf-8", "iso-8859-1", "windows-1252", "x", "Shift_JIS", "a.b_c-1", "us-ascii", "EUC-jp"))
	}
	if r.P(40) {
		add("standalone", r.Pick("yes", "no"))
	}
	if r.P(20) {
		ws(0)
	}
	b.WriteString("?>")
	d.text = b.String()
	return d
}

// body makes bytes whose length puts the total near the given buffer size.
func genBody(r *RNG, used, buf int) string {
	n := 0
	switch r.N(5) {
	case 0:
	case 1:
		n = r.N(200)
	case 2:
		n = r.Range(1, 3)*buf - used + r.Range(-3, 3)
	default:
		n = r.N(3 * buf)
	}
	if n < 0 {
		n = 0
	}
	return genBytes(r, n)
}

func genBytes(r *RNG, n int) string {
	b := make([]byte, 0, n)
	mode := r.N(4)
	for len(b) < n {
		switch {
		case mode == 0:
			b = append(b, byte(r.N(256)))
		case r.P(10):
			b = append(b, r.Pick("<?xml version=\"1.0\" encoding=\"utf-8\"?>", "?>", "encoding=\"abc\"", "<!--", "\r\n", "é", "\x00", "?", "=", "\"", "'")...)
		default:
			b = append(b, "abcxyz <>/&;\n"[r.N(13)])
		}
	}
	return string(b[:n])
}

func c26encfixer(c *Ctx, i int) {
	r := c.R
	d := genDecl(r)
	for len(d.text) > 8000 {
		d = genDecl(r)
	}
	body := genBody(r, len(d.text), 8192)
	in := d.text + body
	has := true
	if r.P(15) {
		has = false
		in = r.Pick("", "<?xml", "<?xml ", "<a/>", "<?xml-stylesheet href='x'?>", " ", "<?xmlx version=\"1.0\" encoding=\"utf-8\"?>", "\n<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<", "<?XML version='1.0' encoding='a'?>", "x"+d.text) + body
		if strings.HasPrefix(in, "<?xml") && (len(in) == 5 || strings.ContainsAny(in[5:6], " \t\r\n")) {
			return
		}
	}
	var args []string
	mode := r.N(3)
	forced := r.Pick("UTF-8", "latin1", "Foo-1", "utf-16")
	switch mode {
	case 1:
		args = []string{"-f", forced}
	case 2:
		args = []string{"-d"}
	}
	c.Describe(func() string { return fmt.Sprintf("args %q\ninput (%d bytes) %q", args, len(in), clip(in)) })
	res := runTool("", "encfixer", in, args...)
	res.healthy(c)
	if res.code != 0 {
		c.Fail("encfixer fails: %v", res)
	}
	c.Eval(1)
	c.Distinct(in, fmt.Sprint(args))
	if !has {
		if res.out != in {
			c.Fail("encfixer changed an input without a declaration: %s", byteDiff(in, res.out))
		}
		c.Event("inputs passed through", 1)
		return
	}
	kv, rest, err := parseDecl(res.out)
	if err != nil {
		c.Fail("encfixer: bad declaration: %v in %q", err, clip(res.out))
	}
	var want []KV
	for _, a := range d.kv {
		if a.K == "encoding" {
			switch mode {
			case 0:
				a.V = strings.ToUpper(a.V)
			case 1:
				a.V = forced
			case 2:
				continue
			}
		}
		want = append(want, a)
	}
	if fmt.Sprint(kv) != fmt.Sprint(want) {
		c.Fail("encfixer %q: declaration has %v, want %v", args, kv, want)
	}
	if rest != body {
		c.Fail("encfixer changed what follows the declaration: %s", byteDiff(body, rest))
	}
	c.Event("declarations rewritten", 1)
	c.Event("bytes compared", len(body))
}

func byteDiff(want, got string) string {
	n := 0
	for n < len(want) && n < len(got) && want[n] == got[n] {
		n++
	}
	f := func(s string) string {
		e := n + 40
		if e > len(s) {
			e = len(s)
		}
		return s[n:e]
	}
	return fmt.Sprintf("%d bytes became %d; first difference at %d: %q became %q", len(want), len(got), n, f(want), f(got))
}

func c26encextractor(c *Ctx, i int) {
	r := c.R
	d := genDecl(r)
	for len(d.text) > 3900 {
		d = genDecl(r)
	}
	body := genBody(r, len(d.text), 4096)
	in := d.text + body
	want := ""
	for _, a := range d.kv {
		if a.K == "encoding" {
			want = strings.ToUpper(a.V) + "\n"
		}
	}
	if r.P(15) {
		in = r.Pick("", "<a/>", "<?xmlx version=\"1.0\" encoding=\"utf-8\"?>", "\n<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<", "x"+d.text) + body
		want = ""
		if strings.HasPrefix(in, "<?xml ") {
			return
		}
	}
	c.Describe(func() string { return fmt.Sprintf("input (%d bytes) %q", len(in), clip(in)) })
	res := runTool("", "encextractor", in)
	res.healthy(c)
	if res.out != want || res.code != 0 {
		c.Fail("encextractor prints %q and exits %d, want %q", res.out, res.code, want)
	}
	c.Eval(1)
	c.Event("encodings printed", strings.Count(want, "\n"))
	c.Distinct(in)
}

func c26nohigh(c *Ctx, i int) {
	r := c.R
	n := r.PickInt(0, 1, 2, 8191, 8192, 8193, 16383, 16384, 16385, r.N(30000), r.N(300))
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(r.N(128))
		if r.P(2) {
			b[k] = 127
		}
	}
	want := 0
	if n > 0 && r.P(60) {
		for k := r.PickInt(1, 1, 1, 5); k > 0; k-- {
			p := r.PickInt(0, n-1, r.N(n), r.N(n), n*8192/(n+1))
			if p >= n {
				p = n - 1
			}
			b[p] = byte(r.PickInt(128, 255, r.Range(128, 255)))
			want = 1
		}
	}
	in := string(b)
	c.Describe(func() string { return fmt.Sprintf("%d bytes: %q", n, clip(in)) })
	res := runTool("", "nohigh", in)
	res.healthy(c)
	if (res.code == 0) != (want == 0) {
		c.Fail("nohigh exits %d for %d bytes with high bytes: %v", res.code, n, want == 1)
	}
	c.Eval(1)
	c.Event("inputs judged", 1)
	c.Distinct(in)
}

// c26badDecl: encfixer must not report success on a declaration it can't read.
func c26badDecl(c *Ctx, i int) {
	r := c.R
	d := genDecl(r)
	for len(d.text) > 4000 {
		d = genDecl(r)
	}
	k := r.N(len(d.kv))
	a := d.kv[k]
	at := 0
	for n := 0; n <= k; n++ {
		at += strings.Index(d.text[at:], d.kv[n].K) + len(d.kv[n].K)
	}
	at += strings.Index(d.text[at:], "=") + 1
	v := at + strings.IndexAny(d.text[at:], "\"'") // the opening quote
	e := v + 1 + len(a.V)                          // the closing quote
	var what, text string
	switch r.N(6) {
	case 0:
		what, text = "a value without quotes", d.text[:v]+a.V+d.text[e+1:]
	case 1:
		what, text = "a value without its first quote", d.text[:v]+d.text[v+1:]
	case 2:
		q := string(d.text[v])
		other := map[string]string{"\"": "'", "'": "\""}[q]
		what, text = "different quotes", d.text[:e]+other+strings.ReplaceAll(d.text[e+1:], q, other)
	case 3:
		n := r.Pick("foo", "Version", "encodings", "stand", "v", "ENCODING", "version1", "é")
		what, text = "an unknown attribute", d.text[:e+1]+" "+n+r.Pick("=", " = ")+r.Pick("'x'", "\"yes\"")+d.text[e+1:]
	case 4:
		n := r.Pick("encoding", "version", "standalone", "foo")
		what, text = "an attribute without a value", d.text[:e+1]+" "+n+r.Pick("?>", "=?>", "= ?>")
	case 5:
		what, text = "no end", d.text[:e]
	}
	body := ""
	if what != "no end" {
		body = r.Pick("<a/>", "<a></a>", "", "\n<!-- c --><a/>")
	}
	var args []string
	switch r.N(3) {
	case 1:
		args = []string{"-f", "x"}
	case 2:
		args = []string{"-d"}
	}
	in := text + body
	c.Describe(func() string { return fmt.Sprintf("%s; args %q\ninput %q", what, args, in) })
	res := runTool("", "encfixer", in, args...)
	res.healthy(c)
	if res.code == 0 {
		c.Fail("encfixer succeeds on a declaration with %s: %v", what, res)
	}
	c.Eval(1)
	c.Event("declarations refused: "+what, 1)
	c.Distinct(in, fmt.Sprint(args))
}

// c26rejects: the parsing tools must not report success on a document that is
// cut short or has a tag that does not match.
func c26rejects(c *Ctx, i int) {
	r := c.R
	src, _ := xmlSource(r, XOpt{Budget: r.PickInt(5, 20, 60)})
	end := strings.LastIndexByte(strings.TrimRight(src, " \r\n"), '>')
	// the end of the root element
	last := strings.LastIndex(src, "</")
	if last < 0 {
		return
	}
	if _, err := parseSource(src[:last]); err == nil {
		return // inside a trailing comment or PI
	}
	var in string
	switch r.N(3) {
	case 0:
		in = src[:last]
	case 1:
		in = src[:r.Range(0, last)]
	case 2:
		in = src[:last] + "</zzz" + src[last:end+1]
	}
	if _, err := parseSource(in); err == nil {
		return
	}
	c.Describe(func() string { return "document:\n" + in })
	tool := r.Pick("normaliser", "testbuilder")
	res := runTool("", tool, in)
	res.healthy(c)
	if res.code == 0 {
		c.Fail("%s accepts a document that is not well-formed: %v", tool, res)
	}
	c.Eval(1)
	c.Event("bad documents refused", 1)
	c.Distinct(in)
}

var _ = os.TempDir
