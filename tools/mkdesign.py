#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, the checks' own rules (h rules), the
findings file and the planted bugs. Run by hand; no check needs it."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
rules = json.loads(subprocess.check_output("go run . rules", shell=True, cwd=here + "/harness", env=env, text=True))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(here + "/MANIFEST.json"))["checks"]}
cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
table = ""
for p in props:
    r = rules[p["id"]]
    w = r["rule"] + ". Cases: " + ", ".join(r["suites"]) + "."
    if r["assume"]:
        w += " Assumes: " + "; ".join(r["assume"]) + "."
    table += "| %s | %s | %s | %s |\n" % (p["id"], cell(w), cell(man[p["id"]]["technique"] + ". " + man[p["id"]]["level_note"]), cell(p["why_tests_cant"]))
k = json.load(open(here + "/known_findings.json"))
known = "".join("* %s `%s`: %s. Example: `%s`\n" % (x["property"], x["signature"], x["what"], x["example"]) for x in k["known"])
fixed = "".join("* " + x[len("fixed: property="):] + "\n" for x in k["fixed"])
seeds = "| Planted bug | Needs | Breaks | Caught by |\n|---|---|---|---|\n"
try:
    missed = json.load(open(here + "/tools/missed.json"))
except FileNotFoundError:
    missed = {}
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/%s/meta.json" % d))
    seeds += "| %s%s | %s | %s | %s |\n" % (d, "\\*" if d in missed else "", cell(m["needs"]), cell(m["what_it_breaks"]), m["property"])
misses = "".join("* `%s`: %s\n" % x for x in sorted(missed.items()))
t = open(here + "/tools/design.in.md").read()
for a, b in (("TABLE", table), ("KNOWN", known), ("FIXED", fixed), ("SEEDS", seeds), ("MISSES", misses)):
    t = t.replace("@@%s@@" % a, b.rstrip("\n"))
open(here + "/DESIGN.md", "w").write(t)
