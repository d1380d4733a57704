#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json.
   (run by hand after editing; the checks do not use it)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, spec, observe=None, state=None, claimed=True, note=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append((d, spec, claimed, note))

import sys
sys.path.insert(0, os.path.join(V, "tools"))
import parts
exec(open(os.path.join(V, "tools", "props.def.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, *_ in P: f.write(json.dumps(d) + "\n")
    checks = []
    na = list(NA)
    for d, spec, claimed, note in P:
        i = d["id"]
        if not claimed or i not in parts.PARTS:
            na.append(dict(property=i, reason=note or "check not built yet")); continue
        checks.append(dict(property=i,
            quick_cmd="python3 tools/check.py %s" % i,
            thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
            technique="TLA+ spec %s model-checked with TLC; TLC-generated and random histories replayed into the real code and the recorded traces checked against the spec by TLC" % spec,
            level="model_checking",
            level_note=note or ("Exhaustive on the spec within the stated small bounds; the real code is compared with the spec event by event on every transition "
                "of the bounded state graph plus seeded random histories beyond the bounds. Trusted: TLC, the thin driver that calls the public API, g++/ASan.")))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
        notes="Everything is offline and rebuilt from /repo's working tree on each run. No hooks in /repo: the drivers use the public API only.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
