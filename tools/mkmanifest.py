"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUZZ = "Seeded workloads sample the input space: nothing is claimed beyond the executions counted in the evidence. "
NOTES = {
 "C01": ("runtime monitor: offline checker (own strict XML parser + tree model) over recorded output of generated programs", FUZZ + "Trusts this harness's parser (cross-checked against expat during development) and its tree model."),
 "C02": ("runtime monitor: round-trip oracle over recorded output, exhaustive over single code points and short strings", FUZZ + "Single code points and bytes are enumerated completely in the listed contexts."),
 "C03": ("runtime monitor: independent grammar as oracle for the verdict of each call, exhaustive over splits", FUZZ + "Trusts the grammar predicates written in the harness from the XML 1.0 recommendation."),
 "C04": ("runtime monitor: independent production predicates against the exported validators, all code points enumerated", "Every code point in first and later position is enumerated; longer and invalid strings are sampled. Trusts the productions as written in the harness."),
 "C05": ("runtime monitor: placement table as oracle plus differential runs with and without the misplaced calls", FUZZ + "All pairs of parent state and call are enumerated; histories around them are sampled."),
 "C06": ("runtime monitor: online stack model over random walks of the API, output parsed offline", FUZZ + "Trusts the stack model in harness/walk.go."),
 "C07": ("runtime monitor: metamorphic comparison of recorded outputs of equivalent programs", FUZZ + "The equivalences are those the property states."),
 "C08": ("fault injection into the sink at every write and byte position, with an output-prefix monitor", "Fault positions are enumerated for each program; the programs are sampled. Sinks that report a short write without an error are excluded for encoded writers."),
 "C09": ("runtime monitor: instrumented sink and heap measurements under buffer-size and flush schedules", FUZZ + "Memory is judged by live-heap growth with a wide margin."),
 "C10": ("runtime monitor: decode-and-compare oracle over recorded output for each encoding", FUZZ + "Trusts the decoders of golang.org/x/text, with which the same module encodes."),
 "C11": ("runtime monitor: token-level whitespace-difference checker and layout model over recorded output", FUZZ + "Trusts this harness's parser."),
 "C12": ("runtime monitor: online checker of a trace specification on the hooked Indenter interface", FUZZ + "The expected trace comes from the tree model in the harness."),
 "C13": ("runtime monitor: metamorphic comparison of recorded output with and without Raw", FUZZ),
 "C14": ("Go race detector under concurrent workloads, plus output and input-integrity monitors", FUZZ + "The race detector reports only races on executed paths."),
 "C15": ("random call storms under panic, termination, output and memory monitors, with failing sinks and indenters", FUZZ),
 "C16": ("runtime monitor: reference model run in lockstep with ErrCollector", FUZZ + "Call histories up to length four over a small alphabet are enumerated."),
 "C17": ("runtime monitor: read-back oracle, 8- and 16-bit types enumerated", "8- and 16-bit types are enumerated completely; wider types are sampled with boundary values and bit patterns."),
 "C18": ("runtime monitor: namespace-aware resolver over recorded output", FUZZ + "Trusts this harness's parser and resolver."),
 "C19": ("allocation monitor (runtime.MemStats deltas) around generated steady-state workloads", FUZZ),
 "C20": ("runtime monitor: independent model of the XML declaration, option combinations enumerated", "Option combinations over representative values are enumerated completely."),
 "C21": ("runtime monitor: declaration parser as oracle, field combinations enumerated", FUZZ + "Presence combinations of fields are enumerated with representative values."),
 "C22": ("runtime monitor: enumeration of kinds and states, error texts checked against the placement table", "Kinds in a wide range around the defined ones and all placement pairs are enumerated."),
 "C23": ("runtime monitor: tool pipeline run on generated documents, content compared by an offline checker", FUZZ + "Trusts the parser of the harness, which was cross-checked against expat."),
 "C24": ("differential monitor: both runners on generated scripts, outputs compared by an offline checker", FUZZ + "Trusts libxml2 and the parser of the harness."),
 "C25": ("AddressSanitizer and UndefinedBehaviorSanitizer builds, and valgrind, under hostile inputs", FUZZ + "Sanitizers report only errors on executed paths."),
 "C26": ("runtime monitor: reference filters in the harness compared with recorded tool output", FUZZ),
 "C27": ("runtime monitor: independent facts compared with the rows the indexer wrote", FUZZ),
 "C28": ("fault injection into the tools run.sh drives, with a monitor of its reports", FUZZ + "Trusts file(1), iconv and xmllint."),
 "C31": ("runtime monitor: scripts replayed call by call on the API, outputs compared byte for byte", FUZZ + "Trusts the translation of commands to calls in harness/c31.go."),
 "C32": ("runtime monitor: metamorphic comparison of recorded tool output over spellings and changes of generated documents", FUZZ + "Trusts xmllint and the parser of the harness."),
 "C30": ("runtime monitor: metamorphic comparison of recorded output under substitution of hostile strings and misplacement", FUZZ + "The escapes are those of the writer itself, which C02 judges."),
 "C29": ("runtime monitor: recording testing.TB and captured output against the documented condition", FUZZ),
}
NA = {}
LEVEL = {"C08": "fault_enumeration"}
done = os.popen("cd %s/harness && grep -ho 'ID: *\"C[0-9]*\"' *.go | grep -o 'C[0-9]*'" % here).read().split()
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": [], "not_applicable": [],
     "notes": "One Go harness (harness/) is rebuilt against /repo's working tree by every check; see DESIGN.md."}
for p in props:
    if p in done:
        t, n = NOTES[p]
        m["checks"].append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
                            "technique": t, "level": LEVEL.get(p, "exploration"), "level_note": n.strip()})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(here + "/MANIFEST.json", "a").write("\n")
