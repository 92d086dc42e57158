package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/text/encoding/charmap"
)

func init() {
	register(&Check{
		ID: "C28",
		Rule: "run.sh, copied with the tools built from the working tree, is given lists of generated files: documents in UTF-8, ASCII and single-byte encodings, documents that are not well-formed, files of other types, missing ones; some hold a marker at which a wrapper around testbuilder, gotester or ctester fails or changes what it writes; the reports and totals are compared with what the kinds of the files and the faults imply; " +
			"non-trivial: at least two kinds of files; distinct by list",
		Assume: []string{"the answers of file(1), iconv and xmllint are taken as they are", "go and make, which run.sh calls first, are real in one suite and do nothing in the others, where the tools are there already"},
		Suites: []Suite{
			{Name: "lists", Quick: 300, Thor: 4000, Run: c28lists},
			{Name: "big", Quick: 4, Thor: 12, Run: c28big},
			{Name: "build", Quick: 2, Thor: 4, Run: c28build},
		},
	})
}

// c28fault is a fault injected into one of the tools at a marker.
type c28fault struct {
	marker string
	tools  []string
	sh     string // what the wrapper does with its standard output
}

var c28faults = []c28fault{
	{"zzgotext", []string{"gotester"}, `"$real" "$@" <"$in" | sed s/zzgotext/zzgotexs/`},
	{"zzgoelem", []string{"gotester"}, `"$real" "$@" <"$in" | sed 's:zzgoelem:zzgoelem<zz/>:'`},
	{"zzgofail", []string{"gotester"}, `"$real" "$@" <"$in"; exit 1`},
	{"zzgonone", []string{"gotester"}, `exit 1`},
	{"zzgoempty", []string{"gotester"}, `exit 0`},
	{"zzgocut", []string{"gotester"}, `"$real" "$@" <"$in" | head -c 40`},
	{"zzctext", []string{"ctester"}, `"$real" "$@" <"$in" | sed s/zzctext/zzctexs/`},
	{"zzcelem", []string{"ctester"}, `"$real" "$@" <"$in" | sed 's:zzcelem:zzcelem<!--zz-->:'`},
	{"zzcfail", []string{"ctester"}, `"$real" "$@" <"$in"; exit 1`},
	{"zzcnone", []string{"ctester"}, `exit 3`},
	{"zzcempty", []string{"ctester"}, `exit 0`},
	{"zzboth", []string{"gotester", "ctester"}, `"$real" "$@" <"$in" | sed s/zzboth/zzboht/`},
	{"zztbfail", []string{"testbuilder"}, `"$real" "$@" <"$in"; exit 1`},
	{"zztbtext", []string{"testbuilder"}, `"$real" "$@" <"$in" | sed s/zztbtext/zztbtxet/`},
	{"zztbnone", []string{"testbuilder"}, `exit 2`},
}

var (
	c28once sync.Once
	c28base string // tools wrapped, go and make replaced
)

// c28copy makes a copy of the tester's directory; run.sh writes to the
// scratch directory where it would write to /tmp.
func c28copy(dir string) {
	for _, f := range []string{"run.sh", "tools.sh"} {
		b, err := os.ReadFile(filepath.Join(repoDir, "tester", f))
		if err != nil {
			die("%v", err)
		}
		s := strings.ReplaceAll(string(b), " /tmp/", " "+dir+"/tmp/")
		s = strings.ReplaceAll(s, ">/tmp/", ">"+dir+"/tmp/")
		must(os.WriteFile(filepath.Join(dir, f), []byte(s), 0o755))
	}
	for _, f := range []string{"tmp", "ctester", "gotester"} {
		must(os.MkdirAll(filepath.Join(dir, f), 0o755))
	}
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func c28tools() {
	buildTools()
	c28once.Do(func() {
		dir := filepath.Join(tools.dir, "runsh")
		must(os.MkdirAll(dir, 0o755))
		c28base = dir
		for _, t := range []string{"normaliser", "encfixer", "encextractor", "indexer", "testbuilder", "ctester", "gotester"} {
			real := filepath.Join(tools.dir, t)
			s := "#!/bin/bash\n"
			var fs []c28fault
			for _, f := range c28faults {
				for _, n := range f.tools {
					if n == t {
						fs = append(fs, f)
					}
				}
			}
			if len(fs) == 0 {
				s += fmt.Sprintf("exec %q \"$@\"\n", real)
			} else {
				s += fmt.Sprintf("set -o pipefail\nreal=%q\nin=$(mktemp) || exit 9\ntrap 'rm -f \"$in\"' EXIT\ncat >\"$in\"\n", real)
				for _, f := range fs {
					s += fmt.Sprintf("if grep -q %s \"$in\"; then\n%s\nexit\nfi\n", f.marker, f.sh)
				}
				s += "\"$real\" \"$@\" <\"$in\"\n"
			}
			must(os.WriteFile(filepath.Join(dir, t), []byte(s), 0o755))
		}
		for _, t := range []string{"go", "make"} {
			must(os.WriteFile(filepath.Join(dir, t), []byte("#!/bin/sh\nexit 0\n"), 0o755))
		}
	})
}

// c28file is one entry of a list, with what run.sh must say about it.
type c28file struct {
	name, data, kind string
	missing, counted bool
	reports          []string // "SKIP reason" or "FAIL reason"; none: passed
	conv             string
}

var c28xmlWords = []string{"hello", "x", "a b", "  two  ", "é", "ÿ", "1 &lt; 2", "&amp;", "&#233;", "\"q\"", "'", "--", "]]", "&#x41;", "\n", "\n  y", "?"}

// c28doc is a document whose pieces the whole pipeline keeps.
func c28doc(r *RNG, ascii bool, marker string) string {
	var b strings.Builder
	left := r.PickInt(1, 3, 10, 30)
	text := func() string {
		s := ""
		for n := r.Range(1, 4); n > 0; n-- {
			w := pick(r, c28xmlWords)
			if ascii && (w == "é" || w == "ÿ") {
				w = "e"
			}
			s += w
		}
		return s
	}
	name := func() string { return r.Pick("a", "b", "foo", "x-1", "_y", "A.b", "Z9") }
	var elem func(d int)
	elem = func(d int) {
		left--
		n := name()
		b.WriteString("<" + n)
		for k := r.N(4); k > 0; k-- {
			fmt.Fprintf(&b, "%s%s%d=\"%s\"", r.Pick(" ", "  ", "\n"), name(), k, strings.NewReplacer("\"", "&quot;", "\n", " ").Replace(text()))
		}
		if left <= 0 && r.Bool() {
			b.WriteString("/>")
			return
		}
		b.WriteString(">")
		for k := r.N(5); k > 0; k-- {
			switch r.N(9) {
			case 0:
				b.WriteString("<!--" + strings.NewReplacer("--", "-+", "&", "+").Replace(text()) + "x-->")
			case 1:
				b.WriteString("<?" + name() + " x" + text() + "?>")
			case 2:
				b.WriteString("<![CDATA[" + strings.ReplaceAll(text(), "]]", "] ]") + "<&]]>")
			case 3, 4:
				b.WriteString("w" + text())
			default:
				if left > 0 && d < 20 {
					elem(d + 1)
				}
			}
		}
		b.WriteString("</" + n + ">")
	}
	b.WriteString("<root>")
	if marker != "" {
		b.WriteString("<m>" + marker + "</m>")
	}
	for k := r.N(4); k > 0; k-- {
		elem(1)
	}
	b.WriteString("</root>")
	return b.String()
}

func c28gen(r *RNG, n int) *c28file {
	f := &c28file{name: r.Pick("f", "a b", "x.xml", "é", "$HOME", "a'b", "-n") + strconv.Itoa(n) + r.Pick("", ".xml")}
	latin := func(s string) string {
		s, err := charmap.ISO8859_1.NewEncoder().String(s)
		must(err)
		return s
	}
	decl := func(enc string) string {
		q := r.Pick(`"`, `'`)
		return "<?xml version=" + q + "1.0" + q + " encoding=" + q + enc + q + r.Pick("?>", " ?>", "?>\n")
	}
	switch k := r.N(20); {
	case k < 4:
		f.kind = "utf-8"
		f.data = decl(r.Pick("UTF-8", "utf-8", "Utf-8")) + c28doc(r, false, "")
	case k < 6:
		f.kind = "plain"
		f.data = r.Pick("<?xml version='1.0'?>", "<?xml version=\"1.0\"?>\n", "", "", "<!--<html>-->", "<!-- c -->\n") + c28doc(r, r.Bool(), "")
	case k < 8:
		f.kind = "single-byte"
		enc := r.Pick("ISO-8859-1", "iso-8859-1", "windows-1252")
		f.data = latin(decl(enc) + c28doc(r, false, ""))
		f.conv = strings.ToUpper(enc)
	case k == 8:
		f.kind, f.missing = "missing", true
		f.reports = []string{"SKIP file does not exist"}
	case k == 9:
		f.kind = "other type"
		f.data = r.Pick("\x7fELF\x02\x01\x01", "\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR", "", "%PDF-1.4\n", "GIF89a\x01\x00\x01\x00", "PK\x03\x04\x14\x00\x00\x00")
	case k == 10 && r.Bool():
		f.kind = "not convertible"
		enc := r.Pick("us-ascii", "UTF-16LE", "x-none", "EUC-JP", "utf-7")
		f.data = strings.Replace(decl(enc)+c28doc(r, true, ""), "</root>", "\xe9\xff\xff</root>", 1)
		f.conv = strings.ToUpper(enc)
		f.reports = []string{"FAIL iconv failed"}
	case k < 12:
		f.kind = "not well-formed"
		d := decl("UTF-8") + c28doc(r, true, "")
		f.data = r.Pick(strings.TrimSuffix(d, ">"), strings.Replace(d, "<root>", "<root>&nosuch;", 1), d+"<b/>", strings.Replace(d, "</root>", "</toor>", 1), strings.Replace(d, "<root>", "<root><a b=\"1\" b=\"2\"/>", 1))
		f.reports = []string{"SKIP invalid xml"}
	default:
		x := pick(r, c28faults)
		f.kind = "fault " + x.marker
		f.data = decl("UTF-8") + c28doc(r, true, x.marker)
		const orig, lib = "FAIL orig does not compare to gowriter", "FAIL libxml does not compare to gowriter"
		switch x.marker {
		case "zzgotext", "zzgoelem":
			f.reports = []string{orig, lib}
		case "zzctext", "zzcelem":
			f.reports = []string{lib}
		case "zzboth", "zztbtext":
			f.reports = []string{orig}
		case "zztbfail", "zztbnone":
			f.reports = []string{"FAIL testbuilder failed"}
		case "zzcfail", "zzcnone", "zzcempty":
			f.reports = []string{"FAIL ctester failed"}
		default:
			f.reports = []string{"FAIL gotester failed"}
		}
	}
	return f
}

var c28report = regexp.MustCompile(`^\x1b\[9[0-9]m([A-Z]+)\x1b\[0m\t(.*)$`)

// c28run runs run.sh and compares its reports with those expected.
func c28run(c *Ctx, dir string, files []*c28file, args ...string) {
	cmd := exec.Command("timeout", append([]string{"-k", "5", "400", "bash", filepath.Join(dir, "run.sh")}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+filepath.Join(dir, "tmp"), "LC_ALL=C.UTF-8", "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off")
	var serr strings.Builder
	cmd.Stderr = &serr
	b, err := cmd.Output()
	out := string(b)
	fail := func(f string, a ...interface{}) {
		c.Fail("run.sh: %s\noutput:\n%s\nstderr:\n%s", fmt.Sprintf(f, a...), clip(out), clip(serr.String()))
	}
	if err != nil {
		fail("%v", err)
	}
	i := strings.Index(out, "\ndone!\n")
	if i < 0 {
		fail("no summary")
	}
	var got []string
	for _, l := range strings.Split(out[:i], "\n") {
		if m := c28report.FindStringSubmatch(l); m != nil {
			got = append(got, m[1]+"\t"+m[2])
		}
	}
	var want []string
	n, pass, nf, ns := 0, 0, 0, 0
	for _, f := range files {
		if !f.missing {
			n++
		}
		if f.conv != "" {
			want = append(want, "CONV\t"+f.conv+"\tUTF-8\t"+f.name)
		}
		for _, w := range f.reports {
			want = append(want, w[:4]+"\t"+strconv.Itoa(n)+"\t"+f.name+"\t"+w[5:])
			if w[:4] == "FAIL" {
				nf++
			} else {
				ns++
			}
		}
		if len(f.reports) == 0 {
			pass++
		}
	}
	for k := 0; k < len(got) || k < len(want); k++ {
		g, w := "nothing", "nothing"
		if k < len(got) {
			g = got[k]
		}
		if k < len(want) {
			w = want[k]
		}
		if g != w {
			fail("report %d is %q, want %q", k, g, w)
		}
	}
	sum := fmt.Sprintf("\ndone!\npass:\t%d\nfail:\t%d\nskip:\t%d\n", pass, nf, ns)
	if out[i:] != sum {
		fail("the summary is %q, want %q", out[i:], sum)
	}
	c.Eval(len(files))
	c.Event("files passed", pass)
	c.Event("failures reported", nf)
	c.Event("files skipped", ns)
}

// c28judge asks file(1) what run.sh will be told, and completes the expected
// reports; false when the answer says nothing certain.
func c28judge(path string, f *c28file) bool {
	if f.missing {
		return true
	}
	b, err := exec.Command("file", "-b", "--mime", path).Output()
	must(err)
	mime := strings.TrimSpace(string(b))
	ok := false
	for _, p := range []string{"text/xml;", "application/xml;", "text/plain;", "text/html;"} {
		ok = ok || strings.HasPrefix(mime, p)
	}
	if !ok {
		f.reports = []string{"SKIP mime type not text/xml, application/xml, text/html or text/plain; found '" + mime + "'"}
		f.conv = ""
		return true
	}
	if f.kind == "other type" {
		return false
	}
	if f.kind == "not convertible" {
		in, err := os.Open(path)
		must(err)
		defer in.Close()
		cmd := exec.Command("iconv", "-f", f.conv, "-t", "UTF-8")
		cmd.Stdin = in
		return cmd.Run() != nil
	}
	if f.kind == "plain" {
		cs := mime[strings.LastIndex(mime, "=")+1:]
		switch cs {
		case "us-ascii":
			f.conv = cs
		case "utf-8":
		default:
			return false
		}
	}
	return true
}

func c28scratch(c *Ctx) string {
	dir, err := os.MkdirTemp("", "verif-run-")
	must(err)
	dir, err = filepath.EvalSymlinks(dir)
	must(err)
	c28copy(dir)
	return dir
}

func c28lists(c *Ctx, i int) {
	r := c.R
	c28tools()
	dir := c28scratch(c)
	defer removeTree(dir)
	for _, t := range []string{"normaliser", "encfixer", "encextractor", "indexer", "testbuilder", "ctester", "go", "make"} {
		must(os.Symlink(filepath.Join(c28base, t), filepath.Join(dir, "ctester", t)))
	}
	must(os.Symlink(filepath.Join(c28base, "gotester"), filepath.Join(dir, "gotester", "gotester")))
	var files []*c28file
	kinds := map[string]bool{}
	sig := ""
	for n, k := 0, r.Range(1, 9); n < k; n++ {
		f := c28gen(r, n)
		if !f.missing {
			must(os.WriteFile(filepath.Join(dir, f.name), []byte(f.data), 0o644))
		}
		if !c28judge(filepath.Join(dir, f.name), f) {
			os.Remove(filepath.Join(dir, f.name))
			continue
		}
		if strings.HasPrefix(f.name, "-") { // not an option of file(1)
			if !f.missing {
				must(os.Rename(filepath.Join(dir, f.name), filepath.Join(dir, "tmp", f.name)))
			}
			f.name = "tmp/" + f.name
		}
		files = append(files, f)
		kinds[f.kind] = true
		sig += f.kind + "\x00" + f.name + "\x00" + f.data + "\x00"
	}
	if len(files) == 0 {
		return
	}
	c.Describe(func() string {
		s := "files of the list:\n"
		for _, f := range files {
			s += fmt.Sprintf("%q %s: %q\n", f.name, f.kind, clip(f.data))
		}
		return s
	})
	var args []string
	switch way := r.N(6); {
	case way == 0 && len(files) > 1: // -f before the list
		args = []string{"-f", files[0].name, "-l", "list"}
		must(os.WriteFile(filepath.Join(dir, "list"), []byte(c28names(files[1:])+"\n"), 0o644))
	case way == 1:
		files = files[:1]
		args = []string{"-f", files[0].name}
	case way == 2: // through the indexer
		var l []*c28file
		seen := map[string]bool{}
		for _, f := range files {
			if f.missing || f.kind == "other type" || f.kind == "not well-formed" || seen[f.data] || len(f.reports) > 0 && f.reports[0][:4] == "SKIP" {
				continue
			}
			seen[f.data] = true
			l = append(l, f)
		}
		if files = l; len(l) == 0 {
			return
		}
		res := runTool(dir, "indexer", c28names(l)+"\n", "index", "db")
		if res.code != 0 {
			c.Fail("%v", res)
		}
		rows, err := sqliteRows(dir, "db", "SELECT count(*) AS n FROM xml WHERE status = 0")
		if err != nil || len(rows) != 1 || !same(rows[0]["n"], len(l)) {
			return // what the indexer makes of files is C27's
		}
		// files are listed in the order of the query
		q := runTool(dir, "indexer", "", "query", "db", "bytes >= 0")
		pos := map[string]int{}
		for k, n := range strings.Split(strings.TrimSuffix(q.out, "\n"), "\n") {
			pos[n] = k
		}
		l2 := make([]*c28file, len(l))
		for _, f := range l {
			p, ok := pos[f.name]
			if !ok || p >= len(l2) {
				return
			}
			l2[p] = f
		}
		files = l2
		args = []string{"-d", "db", "-q", "bytes >= 0"}
	default:
		args = []string{"-l", "list"}
		must(os.WriteFile(filepath.Join(dir, "list"), []byte(c28names(files)+r.Pick("\n", "\n", "")), 0o644))
	}
	c.Event("runs with "+args[0], 1)
	c28run(c, dir, files, args...)
	c.Sample("%q: %d files, kinds %v", args, len(files), kinds)
	if len(kinds) > 1 {
		c.Distinct(sig)
	}
}

func c28names(files []*c28file) string {
	var l []string
	for _, f := range files {
		l = append(l, f.name)
	}
	return strings.Join(l, "\n")
}

// c28big is a document for which run.sh uses pipes.
func c28big(c *Ctx, i int) {
	r := c.R
	c28tools()
	dir := c28scratch(c)
	defer removeTree(dir)
	for _, t := range []string{"normaliser", "encfixer", "encextractor", "indexer", "testbuilder", "ctester", "go", "make"} {
		must(os.Symlink(filepath.Join(c28base, t), filepath.Join(dir, "ctester", t)))
	}
	must(os.Symlink(filepath.Join(c28base, "gotester"), filepath.Join(dir, "gotester", "gotester")))
	m := []string{"", "zzgotext", "zzcfail", "zztbfail"}[i%4]
	d := "<?xml version=\"1.0\" encoding=\"UTF-8\"?><root><m>x" + m + "</m>" + strings.Repeat("<a b=\"1\">"+strings.Repeat("long text ", 3000)+"</a>", 340+r.N(5)) + "</root>"
	f := &c28file{name: "big.xml", kind: "big", data: d}
	switch m {
	case "zzgotext":
		f.reports = []string{"FAIL orig does not compare to gowriter", "FAIL libxml does not compare to gowriter"}
	case "zzcfail", "zztbfail":
		f.reports = []string{"FAIL ctester failed"}
	}
	small := &c28file{name: "small.xml", kind: "small", data: "<?xml version=\"1.0\" encoding=\"UTF-8\"?><a>x</a>"}
	must(os.WriteFile(filepath.Join(dir, f.name), []byte(d), 0o644))
	must(os.WriteFile(filepath.Join(dir, small.name), []byte(small.data), 0o644))
	must(os.WriteFile(filepath.Join(dir, "list"), []byte("big.xml\nsmall.xml\n"), 0o644))
	c.Describe(func() string { return fmt.Sprintf("a document of %d bytes, marker %q", len(d), m) })
	c28run(c, dir, []*c28file{f, small}, "-l", "list")
	c.Distinct(m)
}

// c28build has run.sh build the tools itself.
func c28build(c *Ctx, i int) {
	r := c.R
	root, err := os.MkdirTemp("", "verif-run-")
	must(err)
	root, err = filepath.EvalSymlinks(root)
	must(err)
	defer removeTree(root)
	dir := filepath.Join(root, "tester")
	must(os.MkdirAll(dir, 0o755))
	c28copy(dir)
	sh := fmt.Sprintf(`cd %q && cp go.mod go.sum %q && for f in *.go; do case $f in *_test.go) ;; *) cp "$f" %q;; esac; done && cp tester/gotester/*.go %q && cp tester/ctester/*.c tester/ctester/*.h tester/ctester/Makefile %q`,
		repoDir, root, root, filepath.Join(dir, "gotester"), filepath.Join(dir, "ctester"))
	if b, err := exec.Command("sh", "-c", sh).CombinedOutput(); err != nil {
		die("%v: %s", err, b)
	}
	var files []*c28file
	for n := 0; len(files) < 6; n++ {
		f := c28gen(r, n)
		if f.missing || strings.HasPrefix(f.kind, "fault") || strings.HasPrefix(f.name, "-") {
			continue
		}
		must(os.WriteFile(filepath.Join(dir, f.name), []byte(f.data), 0o644))
		if c28judge(filepath.Join(dir, f.name), f) {
			files = append(files, f)
		}
	}
	must(os.WriteFile(filepath.Join(dir, "list"), []byte(c28names(files)+"\n"), 0o644))
	c28run(c, dir, files, "-l", "list")
	c.Distinct("build", strconv.Itoa(i))
}
