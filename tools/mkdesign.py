#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.head.md, tools/design.notes.py, tools/design.tail.md and the catch table (by hand)"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(f):
    try: return open(os.path.join(V, f)).read()
    except OSError: return ""
exec(rd("tools/design.notes.py"))
import sys; sys.path.insert(0, os.path.join(V, "tools")); import parts
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
def consts(f):
    t = rd("spec/" + f); t = re.split(r"^(?:INIT|SPECIFICATION)", t, flags=re.M)[0]
    return " ".join(re.sub(r"CONSTANTS?", "", t).split())
def checked(f): return " ".join(" ".join(re.findall(r"^(?:INVARIANTS?|PROPERT(?:Y|IES))(.*)$", rd("spec/" + f), re.M)).split())
out = [rd("tools/design.head.md").rstrip(), ""]
for p in props:
    how, lim = N.get(p["id"], ("", ""))
    for q in parts.PARTS.get(p["id"], []):
        s = q.spec; m = q.mc or s
        out.append("**%s %s** (`spec/%s.tla`, `drv/%s.cpp`). %s" % (p["id"], p["title"], s, q.driver, how))
        b = consts("MC_%s.cfg" % m); t = consts("MC_%s.thorough.cfg" % m); c = checked("MC_%s.cfg" % m)
        if c: out[-1] += " Checked on the model: %s." % c
        if b: out[-1] += " Bounds: %s%s." % (b, "; thorough: " + t if t else "")
        if lim: out[-1] += " Domain: " + lim
        out.append("")
out.append(rd("tools/design.tail.md").rstrip())
cat = {}
res = json.loads(rd("tools/seed_results.json") or "{}")
out += ["", "## Planted bugs", "Each is in `seeded/<id>/`; 'caught' means the quick check of its property exits 1 with its VIOLATION line.", "", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), res.get(i, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
