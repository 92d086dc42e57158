package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Check{
		ID:    "C04",
		Level: "exploration",
		Exh:   true,
		Rule: "every code point (surrogates in their byte form included) as the first, a later and the last character for all four validators, both strictness settings; every string of up to two bytes and every three-byte string that starts an encoding, " +
			"all against predicates transcribed from the XML recommendation, with the byte position parsed from the error; longer strings are sampled; non-trivial: not empty; distinct by construction",
		Assume: []string{"the positions are read from the words 'position N' of the error message"},
		Suites: []Suite{
			{Name: "codepoints", Quick: 0x110000 / 256, Run: c04codepoints},
			{Name: "bytes", Quick: 256, Run: c04bytes},
			{Name: "strings", Quick: 400000, Thor: 5000000, Run: c04strings},
			{Name: "table", Quick: 1, Run: c04table},
		},
	})
}

// validator is an exported function and the predicate it should decide.
type validator struct {
	name string
	f    func(string) error
	ok   func(r rune, first bool) bool
}

var validators = []validator{
	{"CheckName", xw.CheckName, func(r rune, first bool) bool {
		if first {
			return isNameStart(r)
		}
		return isNameChar(r)
	}},
	{"CheckChars strict", func(s string) error { return xw.CheckChars(s, true) }, func(r rune, first bool) bool {
		return isXMLChar(r) && !isDiscouraged(r)
	}},
	{"CheckChars", func(s string) error { return xw.CheckChars(s, false) }, func(r rune, first bool) bool {
		return isXMLChar(r)
	}},
	{"CheckPubID", xw.CheckPubID, func(r rune, first bool) bool { return r < 128 && isPubidChar(byte(r)) }},
	{"CheckEncoding", xw.CheckEncoding, func(r rune, first bool) bool {
		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || !first && (r >= '0' && r <= '9' || r == '.' || r == '_' || r == '-')
	}},
}

// offending returns the position of the first offending character, or -1.
// okSupp accepts what the known finding rejects too, to look past it.
func (v *validator) offending(s string, noSupp bool) int {
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 || !v.ok(r, i == 0) || noSupp && r > 0xFFFF {
			return i
		}
		i += w
	}
	return -1
}

var posRE = regexp.MustCompile(`position (-?\d+)`)

func errPos(err error) int {
	m := posRE.FindStringSubmatch(err.Error())
	if m == nil {
		return -2
	}
	n, _ := strconv.Atoi(m[1])
	return n
}

func c04one(c *Ctx, s string) {
	for k := range validators {
		v := &validators[k]
		want := v.offending(s, false)
		err := v.f(s)
		if k == 0 && err != nil && supplementary(s) {
			// the known finding: valid characters above U+FFFF
			if alt := v.offending(s, true); alt != want && errPos(err) == alt && c.Known("name-supplementary") {
				c.Event("supplementary name characters rejected (known finding)", 1)
				continue
			}
		}
		switch {
		case want < 0 && err != nil:
			c.Fail("%s(%q) = %v, but it is valid", v.name, clip(s), err)
		case want >= 0 && err == nil:
			c.Fail("%s(%q) accepts it, but position %d is not allowed", v.name, clip(s), want)
		case want >= 0 && errPos(err) != want:
			c.Fail("%s(%q) = %v, but the first offending character is at position %d", v.name, clip(s), err, want)
		}
		if want < 0 {
			c.Event("accepted", 1)
		} else {
			c.Event("rejected", 1)
		}
	}
	c.Eval(len(validators))
}

func c04codepoints(c *Ctx, i int) {
	n := 0
	for r := rune(i * 256); r < rune(i*256+256); r++ {
		s := wtf8(r)
		for _, t := range []string{s, "a" + s, s + "a", "abc" + s + "-1", "aé" + s, "a" + s + "\x00"} {
			c04one(c, t)
			n++
		}
	}
	c.Enumerated(n)
	if i%1000 == 3 {
		c.Sample("U+%04X..U+%04X in 6 positions, all validators", i*256, i*256+255)
	}
}

func c04bytes(c *Ctx, i int) {
	a := string([]byte{byte(i)})
	c04one(c, a)
	n := 1
	for b := 0; b < 256; b++ {
		ab := a + string([]byte{byte(b)})
		c04one(c, ab)
		c04one(c, "a"+ab)
		c04one(c, ab+"a")
		n += 3
		if i >= 0xE0 && b >= 0x70 && b < 0xD0 {
			for d := 0x70; d < 0xD0; d++ {
				c04one(c, ab+string([]byte{byte(d)}))
				c04one(c, "x"+ab+string([]byte{byte(d), 'y'}))
				n += 2
			}
		}
	}
	c.Enumerated(n)
}

func c04strings(c *Ctx, i int) {
	var s string
	switch i % 5 {
	case 0:
		s = c.R.anyString()
	case 1:
		s = c.R.ncname(false)
		if c.R.Bool() {
			s = c.R.anyName()
		}
	case 2:
		g := &G{R: c.R}
		s = g.pubID()
		if c.R.P(50) {
			s += pick(c.R, hostile)
		}
	case 3:
		s = strings.Repeat(c.R.Pick("A", "utf-8", "iso_8859-1", "x.", "é", "𝔘", "\U00020000"), c.R.Range(1, 30)) + pick(c.R, hostile) + c.R.Pick("", "\xff", "x")
	case 4:
		s = legalChars(c.R.anyString(), c.R.Bool()) + c.R.Pick("", "", "\x01", "\xed\xa0\x80", "\ufdd0", "\U0010ffff", "\ufffe")
	}
	c.Describe(func() string { return fmt.Sprintf("%q", s) })
	c04one(c, s)
	if s != "" {
		c.Distinct(s)
	}
	if i%9999 == 1 {
		c.Sample("%q", s)
	}
	if i == 0 {
		c04one(c, "")
	}
}

// c04table regenerates the name table in a scratch copy.
func c04table(c *Ctx, i int) {
	gen := filepath.Join(repoDir, "gentables.go")
	tab := filepath.Join(repoDir, "tables_gen.go")
	if _, err := os.Stat(gen); err != nil {
		c.Event("no generator", 1)
		return
	}
	dir, err := os.MkdirTemp("", "verif-gen-")
	if err != nil {
		die("%v", err)
	}
	defer removeTree(dir)
	b, err := os.ReadFile(gen)
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "gentables.go"), b, 0o644); err != nil {
		die("%v", err)
	}
	cmd := exec.Command("go", "run", "gentables.go")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GO111MODULE=off", "GOFLAGS=", "GOTOOLCHAIN=local")
	if out, err := cmd.CombinedOutput(); err != nil {
		c.Fail("the table generator fails: %v\n%s", err, clip(string(out)))
	}
	want, err := tableEntries(filepath.Join(dir, "tables_gen.go"))
	if err != nil {
		c.Fail("the table generator does not write a table: %v", err)
	}
	got, err := tableEntries(tab)
	if err != nil {
		c.Event("no committed table", 1)
		return
	}
	if len(want) < 100 {
		c.Fail("the generated table has %d entries", len(want))
	}
	var diff []string
	for k, v := range want {
		if got[k] != v {
			diff = append(diff, fmt.Sprintf("%s: generated %s, committed %q", k, v, got[k]))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			diff = append(diff, fmt.Sprintf("%s: not generated, committed %s", k, v))
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		c.Fail("regenerating the name table does not reproduce the committed one: %d differences, %s", len(diff), strings.Join(diff[:1], ""))
	}
	c.Event("table entries compared", len(want))
	c.Enumerated(1)
}

// tableEntries reads the key: value pairs of all composite literals of a file.
func tableEntries(path string) (map[string]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		vs, ok := n.(*ast.ValueSpec)
		if !ok {
			return true
		}
		for _, v := range vs.Values {
			cl, ok := v.(*ast.CompositeLit)
			if !ok {
				continue
			}
			for _, e := range cl.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					continue
				}
				k, ok1 := kv.Key.(*ast.BasicLit)
				v, ok2 := kv.Value.(*ast.BasicLit)
				if ok1 && ok2 {
					m[vs.Names[0].Name+"["+norm(k.Value)+"]"] = norm(v.Value)
				}
			}
		}
		return true
	})
	return m, nil
}

func norm(s string) string {
	if n, err := strconv.ParseInt(s, 0, 64); err == nil {
		return strconv.FormatInt(n, 10)
	}
	return s
}
