package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID: "C27",
		Rule: "lists of generated documents (sizes around the read buffer and the hash's blocks, duplicates, damaged copies, UTF-16, odd and numeric names, missing files) indexed into a fresh database; every row is read back with sqlite3 and compared with what the generator put into the file, crypto/sha256 and the file's size; queries with every flag and clauses over the columns are compared with the same clause evaluated by the harness over the expected rows; " +
			"distinct by file contents and by query",
		Suites: []Suite{
			{Name: "index", Quick: 2500, Thor: 15000, Run: c27index},
		},
	})
}

type ixFile struct {
	name, data string
	c          XCounts
	raw        string // the encoding as declared, when the declaration is ASCII
	bad        bool
}

// row is what the database should hold about f.
func (f *ixFile) row() map[string]interface{} {
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(f.data)))
	m := map[string]interface{}{"file": f.name, "hash": h, "bytes": len(f.data)}
	if f.bad {
		return m
	}
	str := func(s string) interface{} {
		if s == "" {
			return nil
		}
		return s
	}
	c := f.c
	for k, v := range map[string]interface{}{
		"status": 0, "msg": nil, "encoding": str(c.Encoding), "raw_encoding": str(f.raw), "version": str(c.Version),
		"elems": c.Elems, "nselems": c.NSElems, "attrs": c.Attrs, "nsattrs": c.NSAttrs,
		"comments": c.Comments, "comment_bytes": c.CommentBytes, "comment_max": c.CommentMax,
		"cdatas": c.CDatas, "pis": c.PIs, "dtds_public": c.DTDsPublic, "dtds_system": c.DTDsSystem,
		"dtd_elems": c.DTDElems, "dtd_attlists": c.AttDefs, "dtd_entities": c.Entities, "notations": c.Notations,
		"entity_refs": c.Refs, "entity_refs_dec": c.RefsDec, "entity_refs_hex": c.RefsHex, "max_depth": c.MaxDepth,
	} {
		m[k] = v
	}
	return m
}

func genIxFile(r *RNG, n int) *ixFile {
	f := &ixFile{}
	f.name = fmt.Sprintf("%s%d%s", r.Pick("f", "x y", "é", "0", "00", "'q'", "a%20", "-x", "日", "1e", "/**/"), n, r.Pick(".xml", "", ".0", " .xml"))
	f.name = strings.ReplaceAll(f.name, "/", "_")
	f.data, f.c = xmlSource(r, XOpt{OddColons: true, NoAttDefaults: true, TokenTypes: true, Budget: r.PickInt(1, 2, 5, 20, 60), Long: longer(r, 40)})
	if r.P(40) { // bring the size to a chosen value
		want := r.PickInt(8192, 8193, 8191, 16384, 16383, 24576, 55, 56, 57, 63, 64, 65, 119, 120, 128, 512+r.N(200))
		for want < len(f.data) {
			want += 64 * r.Range(1, 140)
		}
		if r.Bool() && want-len(f.data) > 7 {
			k := want - len(f.data) - 7
			f.data += "<!--" + strings.Repeat("c", k) + "-->"
			f.c.Comments++
			f.c.CommentBytes += k
			if k > f.c.CommentMax {
				f.c.CommentMax = k
			}
		} else {
			f.data += strings.Repeat("\n", want-len(f.data))
		}
	}
	f.raw = f.c.Encoding
	switch {
	case r.N(14) == 0:
		f.data = "\xef\xbb\xbf" + f.data
		f.raw = ""
	case r.N(14) == 0:
		if f.c.Encoding == "" {
			f.data = utf16Bytes(f.data, r.Bool())
			f.raw = ""
		}
	case r.N(8) == 0: // damaged, often late
		f.bad = true
		last := strings.LastIndex(f.data, "</")
		k := strings.LastIndex(f.data, "-->")
		if last < 0 || k > last && r.Bool() {
			f.data += "<"
		} else {
			d := f.data[:last] + r.Pick("</mismatch>", "&nosuch", "<") + f.data[last:]
			if _, err := parseXML(d); err == nil { // it was inside a comment or PI
				d = f.data + "<"
			}
			f.data = d
		}
		f.data += strings.Repeat("x", r.PickInt(0, 1, 100, 8192, 20000))
	}
	return f
}

func sqliteRows(dir, db, q string) ([]map[string]interface{}, error) {
	cmd := exec.Command("sqlite3", "-json", db, q)
	cmd.Dir = dir
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("sqlite3: %v", err)
	}
	if len(strings.TrimSpace(string(out))) == 0 {
		return nil, nil
	}
	var l []map[string]interface{}
	if err := json.Unmarshal(out, &l); err != nil {
		return nil, fmt.Errorf("sqlite3 output: %v", err)
	}
	return l, nil
}

// mimeTypes returns what file(1) says about the files.
func mimeTypes(dir string, l []*ixFile) []string {
	args := []string{"-b", "--mime-type", "--"}
	for _, f := range l {
		args = append(args, f.name)
	}
	cmd := exec.Command("file", args...)
	cmd.Dir = dir
	out, err := cmd.Output()
	m := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	if err != nil || len(m) != len(l) {
		return nil
	}
	return m
}

func same(a, b interface{}) bool {
	n := func(x interface{}) string {
		if f, ok := x.(float64); ok && f == float64(int64(f)) {
			return fmt.Sprintf("int %d", int64(f))
		}
		if i, ok := x.(int); ok {
			return fmt.Sprintf("int %d", i)
		}
		return fmt.Sprintf("%T %v", x, x)
	}
	return n(a) == n(b)
}

func c27index(c *Ctx, i int) {
	r := c.R
	dir, err := os.MkdirTemp("", "verif-ix-")
	if err != nil {
		die("%v", err)
	}
	defer removeTree(dir)
	files := map[string]*ixFile{}
	var list []string
	var order []*ixFile
	count := r.Range(1, 9)
	if r.N(60) == 0 {
		count = r.PickInt(30, 60, 130)
	}
	for n := 0; n < count; n++ {
		f := genIxFile(r, n)
		if len(order) > 0 && r.P(20) { // the same contents again
			o := order[r.N(len(order))]
			nm := f.name
			x := *o
			f = &x
			f.name = nm
		}
		if len(order) > 0 && r.P(6) { // a damaged file which begins as another one
			o := order[r.N(len(order))]
			if o.bad {
				nm := f.name
				x := *o
				f = &x
				f.name = nm
				f.data += "y"
			}
		}
		if err := os.WriteFile(filepath.Join(dir, f.name), []byte(f.data), 0o644); err != nil {
			die("%v", err)
		}
		files[f.name] = f
		order = append(order, f)
		list = append(list, f.name)
		c.Distinct(f.data)
	}
	// libmagic takes some documents for something else, which the indexer skips
	for n, m := range mimeTypes(dir, order) {
		f := order[n]
		if m == "text/plain" || m == "application/xml" || m == "text/xml" || m == "" {
			continue
		}
		f.data, f.raw, f.c, f.bad = "<a/>\n", "", XCounts{Elems: 1, MaxDepth: 1}, false
		if err := os.WriteFile(filepath.Join(dir, f.name), []byte(f.data), 0o644); err != nil {
			die("%v", err)
		}
	}
	for _, f := range order {
		if f.c.Encoding != "" {
			c.Event("files with an encoding declaration", 1)
		}
		if f.c.DTD {
			c.Event("files with a DTD", 1)
		}
	}
	// a file may be listed twice; files that don't exist are skipped
	if r.P(25) {
		list = append(list, pick(r, list))
	}
	missing := 0
	if count > 9 || r.N(50) == 0 {
		missing = r.N(60)
	}
	for ; missing > 0 || r.P(25); missing-- {
		p := r.N(len(list) + 1)
		list = append(list[:p:p], append([]string{r.Pick("missing", "no such file.xml", "nodir/x", ".")}, list[p:]...)...)
	}
	stdin := strings.Join(list, "\n")
	if r.P(70) {
		stdin += "\n"
	}
	db := r.Pick("db", "x.sqlite", "the db")
	c.Describe(func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "indexer index %q <<< %q\n", db, stdin)
		for _, f := range order {
			fmt.Fprintf(&b, "%q (%d bytes, bad %v): %q\n", f.name, len(f.data), f.bad, clip(f.data))
		}
		return b.String()
	})
	res := runTool(dir, "indexer", stdin, "index", db)
	res.healthy(c)
	if res.code != 0 {
		c.Fail("indexer index fails: %v", res)
	}
	rows, err := sqliteRows(dir, db, "select * from xml")
	if err != nil {
		c.Fail("the database can't be read: %v; %v", err, res)
	}
	byName := map[string]map[string]interface{}{}
	for _, row := range rows {
		nm, ok := row["file"].(string)
		if !ok {
			c.Fail("the name of a file is not text: %v", row["file"])
		}
		if byName[nm] != nil {
			c.Fail("two rows for %q", nm)
		}
		if files[nm] == nil {
			c.Fail("a row for %q, which was not listed or doesn't exist", nm)
		}
		byName[nm] = row
	}
	for _, f := range order {
		row := byName[f.name]
		if row == nil {
			c.Fail("no row for %q; %v", f.name, res)
		}
		want := f.row()
		keys := make([]string, 0, len(want))
		for k := range want {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if !same(want[k], row[k]) {
				c.Fail("row of %q: %s is %v (%T), want %v; file: %q", f.name, k, row[k], row[k], want[k], clip(f.data))
			}
		}
		if f.bad {
			if same(row["status"], 0) || row["msg"] == nil {
				c.Fail("%q can't be parsed, but its status is %v (%v)", f.name, row["status"], row["msg"])
			}
			c.Event("unparsable files indexed", 1)
		}
		c.Event("columns compared", len(want))
	}
	c.Event("files indexed", len(order))
	c.Eval(1)

	before, _ := os.ReadFile(filepath.Join(dir, db))
	for k := r.Range(2, 4); k > 0; k-- {
		c27query(c, dir, db, order)
	}
	// an existing database is not overwritten, and bad commands fail
	for _, args := range pick(r, [][][]string{
		{{"index", db}},
		{{"query", db, "nonsense ("}, {"query", db, "nosuchcolumn = 1"}},
		{{"query", "missing.db"}, {"query"}, {"index"}, {"frob"}, {}},
		{{"query", db, "elems >= 0 AND abs(-9223372036854775807 - 1) > 0"}},
		{{"query", "-z", db}, {"query", db, "1=1", "extra"}},
		{{"query", "notadb"}},
	}) {
		if args != nil && len(args) > 1 && args[1] == "notadb" {
			os.WriteFile(filepath.Join(dir, "notadb"), []byte(strings.Repeat("not a database", 100)), 0o644)
		}
		in := "f\n"
		okRows := false // a query over no rows can't fail while running
		if len(args) == 3 && strings.Contains(args[2], "abs(") {
			for _, f := range order {
				okRows = okRows || !f.bad
			}
			if !okRows {
				continue
			}
		}
		res := runTool(dir, "indexer", in, args...)
		res.healthy(c)
		if res.code == 0 {
			c.Fail("indexer %q exits 0: %v", args, res)
		}
		c.Eval(1)
		c.Event("commands refused", 1)
	}
	after, _ := os.ReadFile(filepath.Join(dir, db))
	if string(before) != string(after) {
		c.Fail("the database changed after it was indexed")
	}
}

type clause struct {
	sql  string
	pred func(m map[string]interface{}, bad bool) bool
}

func genClause(r *RNG, order []*ixFile) clause {
	cols := []string{"elems", "nselems", "attrs", "nsattrs", "comments", "comment_bytes", "comment_max", "cdatas", "pis", "dtds_public", "dtds_system", "dtd_elems", "dtd_attlists", "dtd_entities", "entity_refs", "entity_refs_dec", "entity_refs_hex", "notations", "max_depth"}
	val := func(m map[string]interface{}, k string) int { v, _ := m[k].(int); return v }
	cmp := func(col string, v int) clause {
		switch r.N(4) {
		case 0:
			return clause{fmt.Sprintf("%s > %d", col, v), func(m map[string]interface{}, _ bool) bool { return val(m, col) > v }}
		case 1:
			return clause{fmt.Sprintf("%s <= %d", col, v), func(m map[string]interface{}, _ bool) bool { return val(m, col) <= v }}
		case 2:
			return clause{fmt.Sprintf("%s = %d", col, v), func(m map[string]interface{}, _ bool) bool { return val(m, col) == v }}
		}
		return clause{fmt.Sprintf("%s != %d", col, v), func(m map[string]interface{}, _ bool) bool { return val(m, col) != v }}
	}
	var c clause
	f := pick(r, order)
	switch r.N(7) {
	case 0:
		nm := f.name
		c = clause{"file = '" + strings.ReplaceAll(nm, "'", "''") + "'", func(m map[string]interface{}, _ bool) bool { return m["file"] == nm }}
	case 1:
		h := f.row()["hash"]
		c = clause{fmt.Sprintf("hash = '%s'", h), func(m map[string]interface{}, _ bool) bool { return m["hash"] == h }}
	case 2:
		c = cmp("bytes", len(f.data))
	case 3:
		c = clause{r.Pick("1=1", "", "1", "'a' != 'b'"), func(map[string]interface{}, bool) bool { return true }}
	case 4:
		if c.sql = "status = 0"; r.Bool() {
			c = clause{"status != 0", func(_ map[string]interface{}, bad bool) bool { return bad }}
		} else {
			c = clause{"status = 0", func(_ map[string]interface{}, bad bool) bool { return !bad }}
		}
	default:
		// the counts of damaged files are not claimed
		x := cmp(pick(r, cols), r.N(6))
		c = clause{"status = 0 AND " + x.sql, func(m map[string]interface{}, bad bool) bool { return !bad && x.pred(m, bad) }}
	}
	if c.sql != "" && r.P(35) {
		d := genClause(r, order)
		if d.sql != "" {
			if r.Bool() {
				return clause{c.sql + " OR " + d.sql, func(m map[string]interface{}, b bool) bool { return c.pred(m, b) || d.pred(m, b) }}
			}
			return clause{"(" + c.sql + ") AND (" + d.sql + ")", func(m map[string]interface{}, b bool) bool { return c.pred(m, b) && d.pred(m, b) }}
		}
	}
	return c
}

func c27query(c *Ctx, dir, db string, order []*ixFile) {
	r := c.R
	cl := genClause(r, order)
	errs, dupes := false, false
	var args []string
	for _, f := range pick(r, [][]string{{}, {}, {"-a"}, {"-e"}, {"-d"}, {"-e", "-d"}, {"-ed"}}) {
		args = append(args, f)
		errs = errs || strings.ContainsAny(f, "ae")
		dupes = dupes || strings.ContainsAny(f, "ad")
	}
	args = append(append([]string{"query"}, args...), db)
	if cl.sql != "" || r.Bool() {
		args = append(args, cl.sql)
	}
	res := runTool(dir, "indexer", "", args...)
	res.healthy(c)
	if res.code != 0 {
		c.Fail("indexer %q fails: %v", args, res)
	}
	got := strings.Split(strings.TrimSuffix(res.out, "\n"), "\n")
	if res.out == "" {
		got = nil
	}
	groups := map[string]map[string]bool{} // hash -> files
	total := 0
	for _, f := range order {
		m := f.row()
		if f.bad && !errs || !cl.pred(m, f.bad) {
			continue
		}
		h := m["hash"].(string)
		if groups[h] == nil {
			groups[h] = map[string]bool{}
		}
		groups[h][f.name] = true
		total++
	}
	of := map[string]string{}
	for h, g := range groups {
		for n := range g {
			of[n] = h
		}
	}
	seenF, seenH := map[string]bool{}, map[string]bool{}
	for _, n := range got {
		h, ok := of[n]
		if !ok {
			c.Fail("indexer %q prints %q, which does not match: output %q", args, n, res.out)
		}
		if seenF[n] || !dupes && seenH[h] {
			c.Fail("indexer %q prints %q again (or its contents): output %q", args, n, res.out)
		}
		seenF[n], seenH[h] = true, true
	}
	want := len(groups)
	if dupes {
		want = total
	}
	if len(got) != want {
		c.Fail("indexer %q prints %d files, want %d: output %q, matching %v", args, len(got), want, res.out, of)
	}
	c.Eval(1)
	c.Event("queries", 1)
	c.Event("rows returned", len(got))
	c.Distinct("query", fmt.Sprint(args), res.out)
}
