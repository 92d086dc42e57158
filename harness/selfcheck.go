package main

// "calibrate N FILE" writes documents and damaged documents with the verdict
// and tokens of this harness's parser; calibrate.py compares them with expat.

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"os"
	"strconv"
)

func init() {
	extraCommands["rules"] = func(a []string) { // for tools/mkdesign.py
		out := map[string]interface{}{}
		for id, c := range checks {
			var s []string
			for _, su := range c.Suites {
				s = append(s, su.Name+" "+strconv.Itoa(su.Quick))
			}
			out[id] = map[string]interface{}{"rule": c.Rule, "assume": c.Assume, "suites": s}
		}
		json.NewEncoder(os.Stdout).Encode(out)
	}
	extraCommands["calibrate"] = func(a []string) {
		n, _ := strconv.Atoi(a[0])
		f, err := os.Create(a[1])
		if err != nil {
			die("%v", err)
		}
		defer f.Close()
		b := bufio.NewWriter(f)
		defer b.Flush()
		for i := 0; i < n; i++ {
			r := &RNG{s: hash64("calibrate", strconv.Itoa(i))}
			g := newG(r)
			g.ASCII = true
			g.Budget = r.Range(1, 12)
			out, err, _ := runOps(compile(r, g.document(), true), Cfg{})
			if err != nil {
				die("%v", err)
			}
			if len(out) > 3000 {
				continue
			}
			bs := []byte(out)
			if i%3 != 0 {
				for k := r.Range(1, 3); k > 0 && len(bs) > 0; k-- {
					p := r.N(len(bs))
					switch r.N(4) {
					case 0:
						bs = append(bs[:p:p], bs[p+1:]...)
					case 1:
						bs = append(append(bs[:p:p], pick(r, hostile)...), bs[p:]...)
					case 2:
						bs[p] = "<>&\"'-]?! =/;#x%[("[r.N(18)]
					case 3:
						q := r.N(len(bs))
						bs[p], bs[q] = bs[q], bs[p]
					}
				}
			}
			toks, perr := parseXML(string(bs))
			m := map[string]interface{}{"doc": base64.StdEncoding.EncodeToString(bs), "ok": perr == nil}
			if perr != nil {
				m["err"] = perr.Error()
			} else {
				m["toks"] = toks
			}
			j, _ := json.Marshal(m)
			b.Write(append(j, '\n'))
		}
	}
}
