#!/usr/bin/env python3
"""Writes checks.json (what each check runs and its bounds) and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
VALS = ("All 51 generated structs and unions. Per type: (a) presence of every optional field of the outermost struct symbolic at once, nested optional "
        "fields all present / all absent; (b) for each optional field pattern (all present, all absent, every other) each leaf of the value in turn "
        "unconstrained: integers all of their width, enum codes all 2^32, booleans, union alternative, presence, list lengths {0,1,2,14,15,16,127,128}, "
        "byte arrays and strings of length {0,1,2,3,4,127,128,300} (all bytes symbolic up to 4, first and last of the longer ones); "
        "meanwhile every other integer is any one-byte varint other than zero, every other string or byte array one arbitrary (ASCII) byte, "
        "every other list has 1, 0 or 2 elements. ")
OUT_VALS = ("Simultaneous extremes of several leaves, strings longer than 300 bytes (other than those named) or with several symbolic bytes beyond four, "
            "list lengths not listed, lists of more than two distinct elements (elements from the third on are concrete).")
VALS_TEXT = VALS
C = {}
def check(pid, harnesses, bounds, outside, note, **kw):
    C[pid] = dict(harnesses=harnesses, bounds=bounds, outside=outside, note=note, **kw)

exec(open(V + "/tools/checks_table.py").read())

NOTES = {}
checks = []
for p in props:
    c = C.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the crate's LLVM IR with Z3 deciding branches and assertions; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": NOTES.setdefault(p["id"], c.pop("note")) + " Bounded: " + c["bounds"] + " Outside the claim: " + c["outside"] +
        " Trusted: rustc's IR generation, the symbolic executor in engine/ (sampled paths are re-run natively and must agree; sampled queries are "
        "put to cvc5 and a newer Z3), Z3, the harness and its schema table.",
    })
json.dump(C, open(V + "/checks.json", "w"), indent=1)
NA = {}
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in C],
    "notes": "One engine (engine/), one harness crate with a feature per property (harness/), one driver (check.py). No hooks in /repo are needed.",
}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)

# the sections of DESIGN.md that follow from the table
def between(s, name, text):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n" + text + s[j:]
d = open(V + "/DESIGN.md").read()
t = "V: " + VALS_TEXT.strip() + "\n\n"
for p in props:
    c = C.get(p["id"])
    if c:
        t += "### %s %s\n%s Harnesses: %s.\n\nBounds: %s\n\nOutside: %s\n\n" % (
            p["id"], p["title"], NOTES[p["id"]], ", ".join(c["harnesses"]), c["bounds"].replace(VALS_TEXT, "V. "), c["outside"])
d = between(d, "properties", t)
t = "| planted bug | needs | checked by: outcome |\n|---|---|---|\n"
res = {}
if os.path.exists(V + "/tools/planted.txt"):
    for l in open(V + "/tools/planted.txt"):
        w = l.split()
        if len(w) > 2:
            res.setdefault(w[0], {})[w[1]] = w[2]
S = V + "/seeded"
for b in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open("%s/%s/meta.json" % (S, b)))
    r = res.get(b, {})
    t += "| %s (%s) | %s | %s |\n" % (b, m["property"], m["needs"], ", ".join("%s %s" % (c, {"1": "caught", "0": "missed", "2": "no answer"}[x]) for c, x in sorted(r.items())) or "not run")
d = between(d, "planted", t)
open(V + "/DESIGN.md", "w").write(d)
