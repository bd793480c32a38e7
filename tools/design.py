"""Writes the generated half of DESIGN.md (properties, defects, planted bugs) below the marker line."""
import glob, json, os, re, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, ".")
sys.dont_write_bytecode = True
from vplib import core
MARK = "<!-- generated by tools/design.py -->"
units, meta = core.load_units()
man = json.load(open("MANIFEST.json"))
lev = {}
for c in man.get("checks", man.get("properties", [])):
    lev[c.get("property", c.get("property_id", c.get("id")))] = c
out = [MARK, "", "## Properties", ""]
trust = {}
for f in glob.glob("harness/h_*.c"):
    trust[os.path.basename(f)] = re.findall(r"^//VP trust: (.*)$", open(f).read(), re.M)
for line in open("properties.jsonl"):
    p = json.loads(line)
    us = [u for u in units if p["id"] in u.props]
    title = p.get("title", "")
    out.append("### %s %s" % (p["id"], title))
    if not us:
        na = [x for x in man["not_applicable"] if p["id"] in x.values()]
        out += ["", "Not applicable: " + (na[0].get("reason", "") if na else ""), ""]
        continue
    pr = [u for u in us if "proof" in u.modes]
    nb = [u for u in us if "proof" not in u.modes]
    pf = sorted({f for u in pr for f in u.funcs})
    rest = sorted({f for u in nb for f in u.funcs} - set(pf))
    out.append("")
    if pr:
        out.append("Proved function by function, no bound (units %s): %s." % (
            ", ".join(u.name for u in pr), ", ".join("`%s`" % f for f in pf)))
    if nb:
        out.append("Executable check of the same statement (generated inputs, for replayable counterexamples; not counted as proof): units %s%s." % (
            ", ".join(u.name for u in nb), "; **only** checked this way: " + ", ".join("`%s`" % f for f in rest) if rest else ""))
    t = []
    for u in us:
        for x in trust.get(os.path.basename(u.hfile), []):
            if x not in t:
                t.append(x)
    if t and len(us) < 40:
        out.append("Assumed: " + "; ".join(t) + ".")
    elif t:
        out.append("Assumed: the assumptions of the properties these units belong to.")
    out.append("")
out += ["## Defects found and repaired", ""]
for l in open("KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("- %s (%s): %s" % m.groups())
out += ["", "## Planted bugs", "",
        "Every one is caught by the check of its property (`tools/eval_seeds.py`).", "",
        "| bug | property | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    out.append("| %s | %s | %s |" % (f.split("/")[1], m["property"], str(m["what_it_breaks"]).replace("\n", " ").replace("|", "\\|")))
s = open("DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n"
open("DESIGN.md", "w").write(s + "\n".join(out) + "\n")
