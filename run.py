#!/usr/bin/env python3
"""run.py check <property> [--tier quick|thorough] | unit <name> [mode] | setup | list"""
import json
import os
import sys
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vplib import core  # noqa: E402

EVID = os.path.join(core.VERIF, "evidence")


def known_findings(prop):
    """Lines 'finding: property=<id> unit=<unit> match=<regex> what=<text>' of KNOWN_FINDINGS.txt."""
    import re
    res = []
    p = os.path.join(core.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) unit=(\S+) match=/(.*)/ what=(.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return res


def decide(u, meta, tier):
    """All modes for one unit -> dict(verdict=proved|bounded|explored|violation|noinput|error)."""
    out = {"unit": u.name, "log": [], "runs": []}
    pr = br = None
    seed_noinput = None
    if "proof" in u.modes:
        pr = core.prove(u, meta, tier)
        out["runs"].append(pr)
        if pr["status"] == "proved":
            out["verdict"] = "proved"
            if tier != "thorough":
                return out
        else:
            out["log"].append("proof: %s: %s" % (pr["status"], pr.get("why", "")[:4000]))
            if pr["status"] == "failed":
                seed_noinput = pr
    if out.get("verdict") is None and core.native_enabled(u):
        # quick native search first: a failing input decides at once
        only_native = "proof" not in u.modes and "bounded" not in u.modes
        fz = core.fuzz(u, 14 if only_native else 8, 10**7)
        out["runs"].append({"unit": u.name, "mode": "native", "status": fz["status"],
                            "cases": fz.get("ran", 0), "secs": fz.get("secs", 0)})
        if fz["status"] == "failed":
            out["verdict"] = "violation"
            out["found"] = {"vector": fz["vector"], "rc": fz["rc2"], "output": fz["output"],
                            "obligation": (pr or {}).get("why", "") or "native search: see output"}
            return out
        if only_native and fz["status"] == "ok" and fz["ran"] > 0:
            out["verdict"] = "explored"
    if "bounded" in u.modes:
        br = core.bounded(u, meta, tier)
        out["runs"].append(br)
        out["log"].append("bounded: %s %s" % (br["status"], br.get("why", "")[:2000]))
        if br["status"] in ("failed", "unwound"):
            f = core.find_input(u, br, out["log"]) if core.native_enabled(u) else None
            if f:
                out["verdict"] = "violation"
                out["found"] = f
                return out
            if br["status"] == "failed":
                seed_noinput = seed_noinput or br
        elif br["status"] == "ok" and out.get("verdict") != "proved":
            out["verdict"] = "bounded"
    if core.native_enabled(u):
        quick_need = out.get("verdict") is None or seed_noinput
        if tier == "thorough" or quick_need or u.kv.get("fuzz") == "1":
            secs = 60 if tier == "thorough" else (20 if quick_need else 4)
            fz = core.fuzz(u, secs, 10**7, core.SEED + 1000)
            out["runs"].append({"unit": u.name, "mode": "native", "status": fz["status"],
                                "cases": fz.get("ran", 0), "secs": fz.get("secs", 0)})
            if fz["status"] == "failed":
                out["verdict"] = "violation"
                out["found"] = {"vector": fz["vector"], "rc": fz["rc2"], "output": fz["output"],
                                "obligation": "native search: see output"}
                return out
            if fz["status"] == "ok" and fz["ran"] > 0 and out.get("verdict") is None:
                out["verdict"] = "explored"
            if fz["status"] == "error":
                out["log"].append("native: " + fz.get("why", "")[:1500])
    if seed_noinput:
        out["verdict"] = "noinput"
        out["failed"] = seed_noinput.get("failed", [])
        return out
    if out.get("verdict") is None:
        out["verdict"] = "error"
    return out


def write_replay(prop, u, res):
    d = os.path.join(core.BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s_%s" % (prop, u.name))
    vecp = None
    if "found" in res:
        vecp = base + ".vec"
        with open(vecp, "w") as f:
            f.write("\n".join(str(v) for v in res["found"]["vector"]) + "\n")
    with open(base + ".txt", "w") as f:
        f.write("property %s, unit %s, functions %s\n" % (prop, u.name, ",".join(u.funcs)))
        f.write("harness %s entry %s\n" % (u.hfile, u.entry))
        if vecp:
            f.write("failed obligation: %s\n" % res["found"]["obligation"])
            f.write("input vector: %s\nreplay: python3 /verif/run.py replay %s %s\n" % (vecp, u.name, vecp))
            f.write("outcome on the real code: rc=%s\n%s\n" % (res["found"]["rc"], res["found"]["output"]))
        else:
            f.write("failed obligations (no failing input found):\n" + "\n".join(res.get("failed", [])) + "\n")
        f.write("\nlog:\n" + "\n".join(res["log"]) + "\n")
        for r in res["runs"]:
            for c in r.get("cmds", []):
                f.write("cmd: %s\n" % c)
    return base + ".txt"


def check(prop, tier):
    t0 = time.time()
    units, meta = core.load_units()
    mine = [u for u in units if prop in u.props and (u.tier == "quick" or tier == "thorough")]
    if not mine:
        print("no units for", prop)
        return 2
    try:
        core.prepare()
    except Exception as e:
        print("ERROR:", e)
        return 2
    workers = int(os.environ.get("VP_JOBS", "8"))
    mine.sort(key=lambda u: -float(u.kv.get("cost", "5")))
    with ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(lambda u: safe_decide(u, meta, tier), mine))
    viol = 0
    noinput = 0
    rc = 0
    known = known_findings(prop)
    ev_units = []
    trusted = []
    obl = dis = bobl = bdis = cases = reach = 0
    for u, res in zip(mine, results):
        v = res["verdict"]
        text = ""
        if v in ("violation", "noinput"):
            text = json.dumps(res.get("found", {})) + json.dumps(res.get("failed", []))
            hit = [k for k in known if k[0] == u.name and k[1].search(text)]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
                v = "known-finding"
            else:
                path = write_replay(prop, u, res)
                viol += 1
                tail = "" if v == "violation" else " no-failing-input-found"
                print("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
                rc = 1
        elif v == "error":
            print("ERROR unit %s: %s" % (u.name, "\n".join(res["log"])[-1500:]))
            if rc == 0:
                rc = 2
        for line in meta[u.hfile]["trust"]:
            if line not in trusted:
                trusted.append(line)
        e = {"unit": u.name, "verdict": v, "functions": u.funcs, "runs": []}
        for r in res["runs"]:
            e["runs"].append({k: r[k] for k in ("mode", "status", "obligations", "discharged", "kinds",
                                                "reach", "reached", "bound", "backend", "cases", "why")
                              if k in r and r[k] not in (None, "")} | {"secs": round(r.get("secs", 0), 2)})
            if r["mode"] == "proof" and r.get("status") == "proved":
                obl += r["obligations"]
                dis += r["discharged"]
                reach += r["reached"]
            elif r["mode"] == "proof":
                obl += r.get("obligations", 0)
                dis += r.get("discharged", 0)
            elif r["mode"] == "bounded":
                bobl += r.get("obligations", 0)
                bdis += r.get("discharged", 0)
            elif r["mode"] == "native":
                cases += r.get("cases", 0)
        ev_units.append(e)
        print("%-28s %-10s %s" % (u.name, v, " ".join(
            "%s:%s(%.1fs)" % (r["mode"], r["status"], r.get("secs", 0)) for r in res["runs"])))
        if v in ("bounded", "explored") and "proof" in u.modes:
            print("   note: " + "\n".join(res["log"])[:600])
    proved = sorted({f for u, r in zip(mine, results) if r["verdict"] == "proved" for f in u.funcs})
    bnd = sorted({f for u, r in zip(mine, results) if r["verdict"] != "proved" for f in u.funcs} - set(proved))
    # native-only units are a cross-check of functions proved elsewhere (or else count as not proved)
    allproved = all(r["verdict"] == "proved" or ("proof" not in u.modes and set(u.funcs) <= set(proved))
                    for u, r in zip(mine, results))
    level = "proof" if allproved else "other"
    os.makedirs(EVID, exist_ok=True)
    expl = ("%d of %d units proved for all inputs (loop contracts, no bound); units decided by a bounded "
            "check of the same contract or by native search only: %s." %
            (sum(r["verdict"] == "proved" for r in results), len(results),
             ", ".join(u.name + " [" + ("random inputs on the real code" if r["verdict"] == "explored" else
                                        u.kv.get("bound", "") or "unwind " + u.kv.get("unwind", "6")) + "]"
                       for u, r in zip(mine, results) if r["verdict"] != "proved") or "none"))
    ev = {
        "property": prop, "tier": tier, "seed": core.SEED, "level": level,
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "python3 run.py check %s --tier %s (goto-cc; goto-instrument --dfcc "
                           "--apply-loop-contracts --enforce-contract/--replace-call-with-contract; cbmc)" % (prop, tier),
            "trusted_base": ["CBMC 6.11 (goto-cc, goto-instrument, SAT back ends)"] + trusted,
            "bounded_obligations": bobl, "bounded_discharged": bdis, "native_cases": cases,
            "reachability_points_confirmed": reach,
            "functions_under_contract": proved, "functions_bounded_only": bnd,
            "explanation": expl, "units": ev_units,
            "solver_seconds": round(sum(r.get("secs", 0) for x in results for r in x["runs"]), 1),
        },
        "assumptions": trusted,
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s in %.1fs; proof obligations %d/%d, bounded %d/%d" %
          (prop, "ok" if rc == 0 else "rc=%d" % rc, time.time() - t0, dis, obl, bdis, bobl))
    return rc


def safe_decide(u, meta, tier):
    try:
        return decide(u, meta, tier)
    except Exception as e:  # tool trouble is an error of the check, never a verdict
        import traceback
        return {"unit": u.name, "verdict": "error", "log": [traceback.format_exc()], "runs": []}


def main(a):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a[0] == "check":
        return check(a[1], tier)
    if a[0] == "setup":
        core.prepare()
        print("ok")
        return 0
    units, meta = core.load_units()
    if a[0] == "list":
        for u in units:
            print(u.name, u.props, u.modes, u.funcs)
        return 0
    core.prepare()
    u = [x for x in units if x.name == a[1]][0]
    if a[0] == "replay":
        exe, err = core.build_native(u)
        if exe is None:
            print(err)
            return 2
        rc, out, err, s = core.run([exe, "replay", a[2]], 40, mem_gb=0, env=core.NENV)
        print(out + err)
        print("rc", rc)
        return 1 if core.native_failed(rc) else 0
    if a[0] == "unit":
        modes = a[2].split(",") if len(a) > 2 else u.modes
        for m in modes:
            if m == "proof":
                r = core.prove(u, meta, tier)
            elif m == "bounded":
                r = core.bounded(u, meta, tier)
                if r["status"] in ("failed", "unwound"):
                    log = []
                    print("FOUND:", json.dumps(core.find_input(u, r, log))[:6000])
                    print("\n".join(log)[-6000:])
            elif m == "fuzz":
                r = core.fuzz(u, float(a[3]) if len(a) > 3 else 10, 10**7)
            r = {k: v for k, v in r.items() if k not in ("candidates", "flags", "gb")}
            if r["status"] in ("ok", "proved"):
                r.pop("cmds", None)
            print(json.dumps(r, indent=1)[:7000])
        return 0
    if a[0] == "all":
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
