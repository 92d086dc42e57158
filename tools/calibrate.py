"""Compares the harness's XML parser with expat on generated and damaged documents.
Development aid: harness calibrate N FILE && python3 calibrate.py FILE"""
import sys, json, base64
from xml.parsers import expat

def parse(doc):
    toks = []
    p = expat.ParserCreate()
    p.ordered_attributes = True
    p.buffer_text = True
    st = {"cd": None}
    def text(d):
        if st["cd"] is not None:
            st["cd"] += d
        elif toks and toks[-1][0] == "text":
            toks[-1] = ("text", toks[-1][1] + d)
        else:
            toks.append(("text", d))
    p.StartElementHandler = lambda n, a: toks.append(("start", n, tuple(zip(a[::2], a[1::2]))))
    p.EndElementHandler = lambda n: toks.append(("end", n))
    p.CharacterDataHandler = text
    def cs(): st["cd"] = ""
    def ce():
        toks.append(("cdata", st["cd"])); st["cd"] = None
    p.StartCdataSectionHandler = cs
    p.EndCdataSectionHandler = ce
    p.CommentHandler = lambda d: toks.append(("comment", d))
    p.ProcessingInstructionHandler = lambda t, d: toks.append(("pi", t, d))
    p.StartDoctypeDeclHandler = lambda n, s, pu, h: toks.append(("doctype", n, (s or "").replace("\r\n", "\n").replace("\r", "\n"), h))
    p.EndDoctypeDeclHandler = lambda: toks.append(("/doctype",))
    p.specified_attributes = True
    try:
        p.Parse(doc, True)
    except LookupError as e:
        return None, "unknown encoding"
    except expat.ExpatError as e:
        return None, str(e)
    return toks, None

n = bad = okn = 0
for line in open(sys.argv[1]):
    m = json.loads(line)
    doc = base64.b64decode(m["doc"])
    t, err = parse(doc)
    n += 1
    if (t is not None) != m["ok"]:
        if err and ("undefined entity" in err or "unknown encoding" in err or "encoding specified" in err): continue
        if b"us-ascii" in doc or "bad version" in m.get("err", ""): continue
        bad += 1
        if bad < 15: print("VERDICT", m["ok"], m.get("err"), "expat:", err, doc[:600]); print()
        continue
    if t is None: continue
    okn += 1
    mine = []
    hasatt = False
    for k in m["toks"]:
        if k["Kind"] == "start": mine.append(("start", k["Name"], tuple((a["K"], a["V"]) for a in k["Attrs"] or [])))
        elif k["Kind"] == "end": mine.append(("end", k["Name"]))
        elif k["Kind"] in ("text", "cdata", "comment"): mine.append((k["Kind"], k["Data"]))
        elif k["Kind"] == "pi": mine.append(("pi", k["Name"], k["Data"]))
        elif k["Kind"] == "doctype": mine.append(("doctype", k["Name"], k["Sys"].replace("\r", "\n"), int("[" in k["Has"])))
        elif k["Kind"] == "/doctype": mine.append(("/doctype",))
        elif k["Kind"] == "!attlist": hasatt = True
    if mine != t and not hasatt:
        bad += 1
        if bad < 15: print("TOKENS", doc[:500]); print(mine); print(t); print()
print(n, "documents", okn, "well-formed", bad, "disagreements")
