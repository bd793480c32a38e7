#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")

from vplib import core  # noqa: E402
units, meta = core.load_units()
checks = []
na = [{"property": k, "reason": v} for k, v in NA.items()]
ids = [d["id"] for d in P]
for i in ids:
    if i in NA:
        continue
    mine = [u for u in units if i in u.props]
    if not mine:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    nproof = [u for u in mine if "proof" in u.modes]
    nb = [u for u in mine if "proof" not in u.modes]
    pf = {f for u in nproof for f in u.funcs}
    extra = [u for u in nb if set(u.funcs) <= pf]      # cross-checks of functions that are proved
    nb = [u for u in nb if u not in extra]
    level = "proof" if not nb else "other"
    note = "%d of %d units proved for all inputs by CBMC code contracts/loop contracts on /repo's source" % (
        len(nproof), len(mine) - len(extra))
    if extra:
        note += "; cross-checked natively on random inputs (not counted): " + ", ".join(u.name for u in extra)
    if nb:
        note += "; bounded stand-ins (never counted as proved): " + ", ".join(
            "%s [%s]" % (u.name, u.kv.get("bound", "random inputs on the real code")) for u in nb)
    trust = []
    for u in mine:
        for t in meta[u.hfile]["trust"]:
            if t not in trust:
                trust.append(t)
    note += ". Trusted: CBMC 6.11; " + "; ".join(trust) + "."
    checks.append({"property": i,
                   "quick_cmd": "python3 run.py check %s --tier quick" % i,
                   "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "contract-based deductive verification (CBMC function and loop contracts on the "
                                "extracted real source); counterexamples replayed natively",
                   "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks", len(na), "n/a")
