package main

import (
	"fmt"
	"regexp"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding/unicode"
)

func init() {
	register(&Check{
		ID: "C20",
		Rule: "all combinations of the fields of Doc with representative values, the writer's version, encoding and newline, with enforcement on and off, started through Start and StartDoc; a parser for the declaration alone reads the output and a model says what must be in it and whether the encoding must be refused; seeded strings on top, and several documents on one writer; " +
			"distinct by combination",
		Suites: []Suite{
			{Name: "enumerated", Quick: 2 * 7 * 2 * 5 * 3 * 3 * 5 * 4 * 2, Run: c20enum},
			{Name: "random", Quick: 1500000, Thor: 3000000, Run: c20random},
			{Name: "several", Quick: 100000, Thor: 1000000, Run: c20several},
		},
	})
}

type c20case struct {
	NoEnc, NoVer   bool
	FEnc, FVer     *string
	Standalone     int
	Version, Enc   string // of the Writer; Enc "\x01open" means Open
	Newline        *string
	NoEnforce, Ind bool
	Direct         bool
}

var declAttr = regexp.MustCompile(`^[ \t\r\n]+([A-Za-z]+)[ \t\r\n]*=[ \t\r\n]*("[^"<]*"|'[^'<]*')`)

// parseDecl reads an XML declaration; the version may be missing.
func parseDecl(s string) (l []KV, rest string, err error) {
	if !strings.HasPrefix(s, "<?xml") {
		return nil, s, fmt.Errorf("does not start with <?xml")
	}
	s = s[5:]
	for {
		m := declAttr.FindStringSubmatch(s)
		if m == nil {
			break
		}
		p := &xmlParser{s: m[2]}
		v := func() (v string) {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("value %s: %v", m[2], e)
				}
			}()
			return p.attValue()
		}()
		if err != nil {
			return nil, s, err
		}
		l = append(l, KV{m[1], v})
		s = s[len(m[0]):]
	}
	t := strings.TrimLeft(s, " \t\r\n")
	if !strings.HasPrefix(t, "?>") {
		return l, s, fmt.Errorf("no ?> at %q", clip(s))
	}
	if len(l) == 0 && t == s {
		return l, s, fmt.Errorf("no white space after <?xml")
	}
	return l, t[2:], nil
}

func encOK(s string) bool {
	for i := 0; i < len(s); i++ {
		b := s[i]
		al := b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
		if !al && (i == 0 || !(b >= '0' && b <= '9' || b == '.' || b == '_' || b == '-')) {
			return false
		}
	}
	return true
}

func c20judge(c *Ctx, k c20case) {
	c.Describe(func() string { return dump(k) })
	d := xw.Doc{SuppressEncoding: k.NoEnc, SuppressVersion: k.NoVer}
	if c.R.Bool() {
		d.ForcedEncoding, d.ForcedVersion = k.FEnc, k.FVer
		if k.Standalone > 0 {
			b := k.Standalone == 1
			d.Standalone = &b
		}
	} else {
		if k.FEnc != nil {
			d = d.ForceEncoding(*k.FEnc)
		}
		if k.FVer != nil {
			d = d.ForceVersion(*k.FVer)
		}
		if k.Standalone > 0 {
			d = d.WithStandalone(k.Standalone == 1)
		}
	}
	cfg := Cfg{NoEnforce: k.NoEnforce, Newline: k.Newline, Version: k.Version, Buf: c.R.PickInt(0, 1, 16), Late: c.R.P(25)}
	if k.Ind {
		s := " "
		cfg.Indent = &s
	}
	s := &capSink{}
	var w *xw.Writer
	enc := k.Enc
	if enc == "\x01open" {
		enc = "UTF-8"
		w = cfg.opened(xw.Open(s, cfg.options()...))
	} else {
		w = cfg.opened(xw.OpenEncoding(s, enc, unicode.UTF8.NewEncoder(), cfg.options()...))
	}
	var err error
	if k.Direct {
		err = w.StartDoc(d)
	} else {
		err = w.Start(d)
	}

	var want []KV
	if !k.NoVer {
		v := k.Version
		if v == "" {
			v = "1.0"
		}
		if k.FVer != nil {
			v = *k.FVer
		}
		want = append(want, KV{"version", sanitize(v)})
	}
	bad := false
	if k.FEnc != nil {
		enc = *k.FEnc
	}
	if !k.NoEnc && enc != "" {
		bad = !k.NoEnforce && !encOK(enc)
		want = append(want, KV{"encoding", sanitize(enc)})
	}
	if k.Standalone > 0 {
		want = append(want, KV{"standalone", map[bool]string{true: "yes", false: "no"}[k.Standalone == 1]})
	}
	if bad != (err != nil) {
		c.Fail("encoding name %q: refused %v, should be %v: %v", enc, err != nil, bad, err)
	}
	c.Event("declarations judged", 1)
	if bad {
		c.Event("refused encoding names", 1)
		return
	}
	if err := w.WriteElem(xw.Elem{Name: "r"}); err != nil {
		c.Fail("%v", err)
	}
	if err := w.EndAllFlush(); err != nil {
		c.Fail("%v", err)
	}
	got, rest, err := parseDecl(s.String())
	if err != nil {
		c.Fail("the declaration does not parse: %v in %q", err, clip(s.String()))
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		c.Fail("the declaration says %q, configured was %q", got, want)
	}
	nl := "\n"
	if k.Newline != nil {
		nl = *k.Newline
	}
	end := ""
	if k.Ind {
		end = nl
	}
	if rest != nl+"<r/>"+end {
		c.Fail("after the declaration comes %q, should be the newline %q and the element", clip(rest), nl)
	}
}

func c20enum(c *Ctx, i int) {
	k := i
	next := func(n int) int { v := k % n; k /= n; return v }
	opt := func(v int, l ...string) *string {
		if v == 0 {
			return nil
		}
		return &l[v-1]
	}
	var t c20case
	t.NoEnc = next(2) == 1
	t.FEnc = opt(next(7), "", "utf-8", "x", "8bit", "a b", "é")
	t.NoVer = next(2) == 1
	t.FVer = opt(next(5), "", "1.1", "1.0", `a"<&'`)
	t.Standalone = next(3)
	t.Version = []string{"", "1.1", "2.0"}[next(3)]
	t.Enc = []string{"\x01open", "windows-1252", "", "-x", "ISO_8859.1-x"}[next(5)]
	t.Newline = opt(next(4), "", "\r\n", "\n\n")
	t.NoEnforce = next(2) == 1
	t.Ind = c.R.P(30)
	t.Direct = c.R.Bool()
	c20judge(c, t)
	c.Enumerated(1)
	if i == 12345 {
		c.Sample("%s", dump(t))
	}
}

func c20random(c *Ctx, i int) {
	r := c.R
	str := func() *string {
		s := r.Pick("", "utf-8", "UTF-16", "a", "1.0", "1.1")
		switch r.N(4) {
		case 0:
			s = r.anyString()
		case 1:
			s = r.Pick("a", "Z", "é", "1", "_", "") + r.Pick("", "b", "9", ".", "_", "-", "\xff", " ", "\"", "&") + r.Pick("", "c")
		case 2:
			return nil
		}
		return &s
	}
	t := c20case{NoEnc: r.P(20), NoVer: r.P(20), FEnc: str(), FVer: str(), Standalone: r.N(3), NoEnforce: r.P(30), Ind: r.P(30), Direct: r.Bool()}
	if v := str(); v != nil {
		t.Version = *v
	}
	t.Enc = "\x01open"
	if v := str(); v != nil {
		t.Enc = *v
	}
	if r.P(30) {
		// An encoder replaces invalid UTF-8, so the newline is kept valid.
		if t.Newline = str(); t.Newline != nil {
			*t.Newline = strings.ToValidUTF8(*t.Newline, "?")
		}
	}
	c20judge(c, t)
	c.Distinct(dump(t))
}

// c20several: what a declaration says does not depend on earlier ones of the
// same writer, nor on other writers.
func c20several(c *Ctx, i int) {
	r := c.R
	type dc struct {
		d    xw.Doc
		want []KV
		text string

		version, newline string
	}
	var docs []dc
	version, newline := r.Pick("", "1.0", "1.1", "2"), "\n"
	enc := r.Pick("UTF-8", "windows-1252", "x", "")
	for n := r.Range(2, 6); n > 0; n-- {
		var k dc
		if r.P(30) {
			// the writer's version may change between documents
			version = r.Pick("", "1.0", "1.1", "2", "1.2")
		}
		k.version = version
		if r.P(30) {
			newline = r.Pick("", "\n", "\r\n", "\n\n")
		}
		k.newline = newline
		v, e := version, enc
		if v == "" {
			v = "1.0"
		}
		if r.P(40) {
			v = r.Pick("1.0", "1.1", "", "3", "x")
			k.d = k.d.ForceVersion(v)
		}
		if r.P(40) {
			e = r.Pick("UTF-8", "utf-16", "", "y.z")
			k.d = k.d.ForceEncoding(e)
		}
		k.d.SuppressVersion, k.d.SuppressEncoding = r.P(25), r.P(25)
		if !k.d.SuppressVersion {
			k.want = append(k.want, KV{"version", v})
		}
		if !k.d.SuppressEncoding && e != "" {
			k.want = append(k.want, KV{"encoding", e})
		}
		if r.Bool() {
			b := r.Bool()
			k.d = k.d.WithStandalone(b)
			k.want = append(k.want, KV{"standalone", map[bool]string{true: "yes", false: "no"}[b]})
		}
		k.text = fmt.Sprintf("v=%q e=%q %v version %q newline %q", v, e, k.want, version, newline)
		docs = append(docs, k)
	}
	c.Describe(func() string { return fmt.Sprintf("encoding %q, documents %v", enc, docs) })
	s := &capSink{}
	w := xw.OpenEncoding(s, enc, unicode.UTF8.NewEncoder(), Cfg{Version: docs[0].version, Buf: r.PickInt(0, 1, 16)}.options()...)
	var flow []string
	for k, d := range docs {
		start := s.Len()
		w.Version, w.NewlineString = d.version, d.newline
		err := w.Start(d.d)
		if err == nil && r.Bool() {
			err = w.WriteElem(xw.Elem{Name: "r"})
		}
		if err == nil {
			if r.Bool() {
				err = w.EndDoc()
			} else {
				err = w.EndAll()
			}
		}
		if err == nil {
			err = w.Flush()
		}
		if err != nil {
			c.Fail("document %d: %v", k, err)
		}
		got, rest, err := parseDecl(s.String()[start:])
		if err != nil {
			c.Fail("declaration %d does not parse: %v in %q", k, err, clip(s.String()[start:]))
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", d.want) {
			c.Fail("declaration %d says %q, configured was %q", k, got, d.want)
		}
		if rest != d.newline && rest != d.newline+"<r/>" {
			c.Fail("after declaration %d comes %q, the newline is %q", k, clip(rest), d.newline)
		}
		c.Event("declarations after others", 1)
		flow = append(flow, d.text)
	}
	c.Distinct(append([]string{enc}, flow...)...)
}
