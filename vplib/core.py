"""Runs the contract checks: extraction, CBMC proof, bounded fallback, native replay."""
import glob
import json
import os
import re
import resource
import shlex
import shutil
import signal
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from . import annot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

BASE_CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
               "--signed-overflow-check", "--div-by-zero-check", "--undefined-shift-check",
               "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions"]
DEFS = ["-D_GNU_SOURCE", "-DRCUTILS_BUILDING_DLL"]

PROCS = set()
LOCK = threading.Lock()


def run(cmd, timeout, mem_gb=10, cwd=None, env=None, stdout_path=None):
    """(rc, stdout, stderr, seconds); rc None on timeout."""
    t0 = time.time()

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))

    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=pre, stdin=subprocess.DEVNULL)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t0


# ---------------------------------------------------------------- units

class Unit:
    def __init__(self, hfile, kv):
        self.hfile = hfile
        self.kv = kv
        self.name = kv["unit"]
        self.props = kv["prop"].split(",")
        self.entry = kv.get("entry", "h_" + self.name)
        self.modes = kv.get("modes", "proof,bounded").split(",")
        self.funcs = [f for f in kv.get("funcs", "").split(",") if f]
        self.tier = kv.get("tier", "quick")


def load_units():
    units = []
    meta = {}
    for path in sorted(glob.glob(os.path.join(HARN, "h_*.c"))):
        text = open(path).read()
        trust = []
        for line in re.sub(r"\\\n//", " ", text).split("\n"):
            if line.startswith("//VP unit="):
                kv = dict(x.split("=", 1) for x in shlex.split(line[5:]))
                units.append(Unit(path, kv))
            elif line.startswith("//VP trust:"):
                trust.append(line[len("//VP trust:"):].strip())
        meta[path] = {"trust": trust, "text": text}
    return units, meta


# ---------------------------------------------------------------- preparation

GEN_OK = False


def prepare():
    """Generated header and annotated copies of every source file."""
    os.makedirs(BUILD, exist_ok=True)
    gen = os.path.join(BUILD, "gen", "rcutils")
    os.makedirs(gen, exist_ok=True)
    hdr = os.path.join(gen, "logging_macros.h")
    code = ("import em; em.invoke(['-o', %r, '-D', 'rcutils_module_path=\"%s\"', "
            "'%s/resource/logging_macros.h.em'])" % (hdr, REPO, REPO))
    rc, out, err, _ = run([sys.executable, "-B", "-c", code], 60)
    if rc != 0:
        raise RuntimeError("logging_macros.h.em does not expand: " + err[-2000:])
    # The same header with VP_ST_<name> after the declaration of each static variable a macro keeps its state in;
    # a harness defines what that does (it gives the variable an arbitrary value), nothing else is changed.
    text = open(hdr).read()
    text = re.sub(r"(?m)^(\s*static\s+\w+\s+(__rcutils_\w+)\s*=[^;{}]*;)", r"\1 VP_ST_\2", text)
    with open(os.path.join(BUILD, "gen", "logging_macros_hooked.h"), "w") as f:
        f.write(text)


def unit_dir(u):
    d = os.path.join(BUILD, "u", u.name)
    os.makedirs(d, exist_ok=True)
    return d


def macros_of(u, meta):
    names = set()
    todo = [u.hfile]
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        t = open(f).read()
        names |= set(re.findall(r"#\s*define\s+(VP_(?:LOOP|BODY|REC)_\w+)", t))
        for inc in re.findall(r'#\s*include\s+"([^"]+)"', t):
            todo.append(os.path.join(HARN, inc))
    return names


def includes(u, annotated):
    inc = ["-I" + HARN]
    if annotated:
        inc.append("-I" + annotated)
    return inc + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src", "testing"), "-I" + os.path.join(REPO, "include"),
                  "-I" + os.path.join(BUILD, "gen")]


def extract(u, meta):
    """Annotated copies of the sources this harness includes -> dir, wanted, done."""
    d = os.path.join(unit_dir(u), "src")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    want = macros_of(u, meta)
    done = set()
    for f in glob.glob(os.path.join(REPO, "src", "*.[ch]")) + glob.glob(os.path.join(REPO, "src", "testing", "*.c")):
        text = open(f, errors="replace").read()
        new, ok = annot.annotate(text, f, want)
        done |= ok
        with open(os.path.join(d, os.path.basename(f)), "w") as o:
            o.write(new)
    used = u.kv.get("loops")
    if used is not None:
        need = {"VP_LOOP_" + x for x in used.split(",") if x}
    else:
        need = set()
    return d, sorted(need - done)


# ---------------------------------------------------------------- cbmc

ANNOT_PAT = re.compile(r"(invariant (before entry|after step|.*step)|decreases|variant|"
                       r"loop_invariant|loop_decreases|loop_step|loop_assigns|"
                       r"loop contract|unwinding)", re.I)


def classify(r):
    d = r.get("description", "")
    n = r.get("property", "")
    if "VP_REACH" in d:
        return "reach"
    if "unwinding assertion" in d or ".unwind." in n or "recursion unwinding" in d:
        return "unwind"
    if "no body for" in d:
        return "nobody"
    if ".loop_invariant" in n or "invariant" in d.lower():
        return "invariant"
    if ".loop_decreases" in n or ".loop_step" in n or "variant" in d.lower():
        return "decreases"
    if ".loop_assigns" in n or "loop assigns" in d.lower():
        return "loopframe"
    if ".assigns" in n or "is assignable" in d or "is freeable" in d:
        return "frame"
    if ".precondition" in n:
        return "requires"
    if ".postcondition" in n:
        return "ensures"
    if d.startswith("VP:"):
        return "post"
    return "safety"


class Result:
    pass


def compile_goto(u, mode, annotated, extra):
    d = unit_dir(u)
    gb = os.path.join(d, mode + ".gb")
    cmd = ["goto-cc", "-DVP_" + mode.upper()] + DEFS + shlex.split(u.kv.get("defs", "")) + extra + \
        includes(u, annotated) + ["--function", u.entry if mode == "proof" else u.kv.get("nentry", u.entry), u.hfile, "-o", gb]
    rc, out, err, s = run(cmd, 120)
    if rc != 0:
        return None, cmd, (out + err)[-4000:]
    return gb, cmd, ""


LINE = re.compile(r"^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR|NOT_REACHABLE)$")
HEAD = re.compile(r"^(\S+) function (\S+)$")


def solver_flags(s):
    if not s:
        return []
    if s == "cvc5int":
        return ["--cvc5"]
    if s == "z3new":
        return ["--z3"]
    if s in ("cvc5", "z3"):
        return ["--" + s]
    return ["--sat-solver", s]


def solver_env(s):
    d = os.path.join(VERIF, "solvers", s)
    if os.path.isdir(d):
        return dict(os.environ, PATH=d + ":" + os.environ.get("PATH", "/usr/bin:/bin"))
    return None


def cbmc(gb, flags, timeout, trace=False, mem=12, solver=""):
    """Plain text output gives the verdicts (json output of 6.11 aborts on some sliced formulas);
    json is used only for the trace of one property, without slicing."""
    if trace:
        flags = [f for f in flags if f != "--slice-formula"]
    cmd = ["cbmc", gb] + flags + (["--json-ui", "--verbosity", "4", "--trace"] if trace else
                                  ["--verbosity", "8"])
    rc, out, err, s = run(cmd, timeout, mem_gb=mem, env=solver_env(solver))
    res = Result()
    res.cmd = cmd
    res.secs = s
    res.rc = rc
    res.props = None
    res.messages = []
    res.raw = (out[-3000:] + err[-1000:])
    if rc is None:
        res.raw = "timeout after %ss" % timeout
        return res
    if trace:
        try:
            data = json.loads(out)
        except ValueError:
            return res
        for item in data:
            if isinstance(item, dict) and "result" in item:
                res.props = item["result"]
        return res
    if rc not in (0, 10) or not re.search(r"^\*\* \d+ of (\d+) failed", out, re.M):
        return res
    fil = fun = "?"
    props = []
    for line in out.split("\n"):
        m = LINE.match(line)
        if m:
            props.append({"property": m.group(1), "description": m.group(3), "status": m.group(4),
                          "sourceLocation": {"file": fil, "function": fun, "line": m.group(2) or "?"}})
            continue
        m = HEAD.match(line)
        if m:
            fil, fun = m.groups()
    n = int(re.search(r"^\*\* \d+ of (\d+) failed", out, re.M).group(1))
    if n != len(props):
        res.raw = "could not parse all %d results (%d)" % (n, len(props))
        return res
    m = re.search(r"^\*\*\*\* WARNING: no body for function (\S+)", out, re.M)
    res.messages = re.findall(r"WARNING: (no body for function \S+)", out)
    res.props = props
    return res


SPLIT = re.compile(r"\.(loop_invariant_step|loop_decreases|precondition|postcondition)\b")


def split_run(gb, flags, to, solver, arith, split=False, chunk=0):
    """Obligations marked [arith] go to the solver `arith`, one by one; the rest to `solver`.  With
    split, all contract obligations (not only the marked ones) do."""
    cmd = ["cbmc", gb] + [f for f in flags if f != "--slice-formula"] + \
        ["--show-properties", "--json-ui", "--verbosity", "4"]
    rc, out, err, _ = run(cmd, 60)
    names, marked = [], []
    try:
        for item in json.loads(out):
            for p in item.get("properties", []) if isinstance(item, dict) else []:
                one = "[arith]" in p.get("description", "")
                if split:
                    one = one or SPLIT.search(p["name"]) or p.get("description", "").startswith("VP:")
                (marked if one else names).append(p["name"])
    except ValueError:
        marked = []
    if not marked:
        return cbmc(gb, flags, to, solver=solver)
    sf = solver_flags(solver)
    base = flags[:]
    for f in sf:
        base.remove(f)
    jobs = [(n, arith) for n in marked]
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(cbmc, gb, base + solver_flags(a) + ["--property", n], to, False, 12, a)
              for n, a in jobs]
        size = chunk or max(len(names), 1)
        f0 = []
        for k in range(0, len(names), size):
            plist = []
            for n in names[k:k + size]:
                plist += ["--property", n]
            f0.append((set(names[k:k + size]), ex.submit(cbmc, gb, base + sf + plist, to, False, 12, solver)))
        rs = [f.result() for f in fs]
        r0 = None
        for part, f in f0:
            r = f.result()
            if r0 is None:
                r0 = r
                if chunk and r0.props is not None:
                    # obligations of the other groups are reported there
                    r0.props = [p for p in r0.props if p["property"] not in set(names) - part]
            else:
                r0.secs += r.secs
                if r.props is None:
                    r0.props, r0.raw = None, r.raw
                elif r0.props is not None:
                    have = {p["property"] for p in r0.props}
                    r0.props += [p for p in r.props if p["property"] in part and p["property"] not in have]
            if r0.props is None:
                return r0
    r0.secs += sum(r.secs for r in rs)
    for r in rs:
        if r.props is None:
            r0.props = None
            r0.raw = r.raw
            return r0
        if r0.props is not None:
            want = [p for p in r.props if p["property"] in marked]
            have = {p["property"] for p in r0.props}
            r0.props += [p for p in want if p["property"] not in have]
    return r0


def prop_line(r):
    loc = r.get("sourceLocation", {})
    return "%s [%s:%s %s] %s: %s" % (r.get("property"), loc.get("file", "?"), loc.get("line", "?"),
                                     loc.get("function", "?"), r.get("description"), r.get("status"))


def summarise(props):
    s = {"total": 0, "ok": 0, "reach": 0, "reached": 0, "kinds": {}, "failed": []}
    for r in props:
        k = classify(r)
        if k == "reach":
            s["reach"] += 1
            if r["status"] == "FAILURE":
                s["reached"] += 1
            continue
        s["total"] += 1
        s["kinds"][k] = s["kinds"].get(k, 0) + 1
        if r["status"] == "SUCCESS":
            s["ok"] += 1
        else:
            s["failed"].append((k, r))
    return s


def instrument(u, gb, R):
    """Turns contracts and loop contracts into obligations; None (and R filled in) when that fails."""
    dfcc = u.kv.get("dfcc", "1" if (u.kv.get("enforce") or u.kv.get("replace") or
                                    u.kv.get("loops")) else "0")
    if dfcc == "1":
        out = gb[:-3] + ".i.gb"
        cmd = ["goto-instrument", "--dfcc", u.entry]
        if u.kv.get("loops"):
            cmd.append("--apply-loop-contracts")
        for e in u.kv.get("enforce", "").split(","):
            if e:
                cmd += ["--enforce-contract", e]
        for e in u.kv.get("replace", "").split(","):
            if e:
                cmd += ["--replace-call-with-contract", e]
        # dfcc would make every static object nondeterministic; the harness starts from the C initial
        # state (and chooses arbitrary states itself), so all of them are excluded from that.
        rc, o, e, s = run(["goto-instrument", "--show-goto-functions", gb], 60)
        m = re.search(r"^__CPROVER_initialize .*?END_FUNCTION", o, re.S | re.M)
        text = m.group(0) if m else ""
        names = re.findall(r"ASSIGN ([\w$]+)(?:\[\S+)? :=", text)
        # local statics are only recognised with their file name
        names += ["%s:%s" % x for x in re.findall(r"// \d+ file (\S+) line \d+[^\n]*\n\s*ASSIGN (\w+::[\w:$]+)", text)]
        for nme in sorted(set(names)):
            if not nme.startswith("__CPROVER"):
                cmd += ["--nondet-static-exclude", nme]
        cmd += shlex.split(u.kv.get("giflags", "")) + [gb, out]
        rc, o, e, s = run(cmd, 180)
        R["cmds"].append(" ".join(cmd))
        R["secs"] += s
        if rc != 0:
            R.update(status="undecided", why="goto-instrument: " + (o + e)[-3000:])
            return None
        gb = out
    return gb


def prove(u, meta, tier, solver=None):
    """The deciding step.  Returns dict(status=proved|failed|undecided, ...)."""
    R = {"unit": u.name, "mode": "proof", "secs": 0.0, "functions": u.funcs}
    ann, missing = extract(u, meta)
    if missing:
        R.update(status="undecided", why="loop contracts do not attach: " + ",".join(missing))
        return R
    gb, cmd, err = compile_goto(u, "proof", ann, [])
    if gb is None:
        R.update(status="undecided", why="contract text does not compile with this source: " + err)
        return R
    R["cmds"] = [" ".join(cmd)]
    gb = instrument(u, gb, R)
    if gb is None:
        return R
    flags = BASE_CHECKS + ["--unwind", u.kv.get("punwind", "2"), "--slice-formula"]
    s = solver or u.kv.get("solver", "")
    flags += solver_flags(s)
    flags += shlex.split(u.kv.get("pflags", ""))
    to = int(u.kv.get("ptimeout", "150"))
    if tier == "thorough":
        to = max(to * 3, 600)
    arith = u.kv.get("arith")
    if arith:
        res = split_run(gb, flags, to, s, arith, u.kv.get("split") == "1", int(u.kv.get("chunk", "0")))
    else:
        res = cbmc(gb, flags, to, solver=s)
    R["secs"] += res.secs
    R["cmds"].append(" ".join(res.cmd))
    R["backend"] = "cbmc 6.11 / " + (s or "minisat2")
    if res.props is None:
        R.update(status="undecided", why="cbmc: " + res.raw)
        return R
    S = summarise(res.props)
    R.update(obligations=S["total"], discharged=S["ok"], kinds=S["kinds"], reach=S["reach"],
             reached=S["reached"])
    R["nobody"] = sorted(set(res.messages))
    if S["failed"]:
        R["failed"] = [prop_line(r) for k, r in S["failed"]]
        kinds = {k for k, r in S["failed"]}
        R["failed_kinds"] = sorted(kinds)
        unk = all(r["status"] not in ("FAILURE",) for k, r in S["failed"])
        if unk or "unwind" in kinds or "loopframe" in kinds or "nobody" in kinds:
            R.update(status="undecided",
                     why="annotations do not cover this source: " + "; ".join(R["failed"][:6]))
        else:
            R.update(status="failed", why="; ".join(R["failed"][:6]))
            R["gb"] = gb
            R["flags"] = flags
            R["first"] = S["failed"][0][1]["property"]
        return R
    if S["total"] == 0:
        R.update(status="undecided", why="no obligations generated")
        return R
    if S["reached"] < S["reach"]:
        R.update(status="undecided", why="vacuous: %d of %d reachability points reached" %
                 (S["reached"], S["reach"]))
        return R
    R["status"] = "proved"
    return R


def vector_of(trace):
    vec = []
    for st in trace:
        if st.get("stepType") == "assignment" and not st.get("hidden") and st.get("lhs", "").split("!")[0].split("::")[-1] == "vp_nd_val":
            v = st.get("value", {})
            b = v.get("binary")
            if b is not None:
                vec.append(int(b, 2))
            else:
                m = re.match(r"(\d+)", str(v.get("data", "0")))
                vec.append(int(m.group(1)) if m else 0)
    # declaration + nondet assignment both show up as one step each in some versions
    return vec


def build_native(u):
    d = unit_dir(u)
    exe = os.path.join(d, "native")
    cmd = ["gcc", "-std=gnu11", "-g", "-O1", "-w", "-fsanitize=address,undefined",
           "-fno-sanitize=pointer-overflow,nonnull-attribute,null,alignment",
           "-fno-sanitize-recover=undefined", "-DVP_NATIVE", "-DVP_ENTRY=" + u.kv.get("nentry", u.entry)] + DEFS + \
        shlex.split(u.kv.get("defs", "")) + includes(u, None) + \
        [os.path.join(HARN, "vp_native.c"), u.hfile, "-o", exe, "-lm", "-ldl", "-lpthread"]
    rc, out, err, s = run(cmd, 180, mem_gb=0)
    if rc != 0:
        return None, err[-3000:]
    return exe, ""


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:"
            "handle_segv=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1")


def native_failed(rc):
    return rc is None or (rc not in (0, 77, 98))


def replay_vec(exe, vec, path, scratch):
    with open(path, "w") as f:
        f.write("\n".join(str(v) for v in vec) + "\n")
    rc, out, err, s = run([exe, "replay", path], 40, mem_gb=0, env=NENV, cwd=scratch)
    return rc, out + err


def bounded(u, meta, tier, solver=None):
    R = {"unit": u.name, "mode": "bounded", "secs": 0.0, "functions": u.funcs}
    extra = []
    unwind = int(u.kv.get("unwind", "6"))
    if tier == "thorough":
        unwind = int(u.kv.get("tunwind", str(unwind)))
        extra = shlex.split(u.kv.get("tdefs", ""))
    extra = extra + shlex.split(u.kv.get("bdefs", ""))
    gb, cmd, err = compile_goto(u, "bounded", None, extra)
    if gb is None:
        R.update(status="error", why="does not compile: " + err)
        return R
    R["cmds"] = [" ".join(cmd)]
    s = solver or u.kv.get("bsolver", "cadical")
    to = int(u.kv.get("btimeout", "200"))
    if tier == "thorough":
        to = max(3 * to, 600)
    props = None
    for mult in (1, 2):
        flags = BASE_CHECKS + ["--unwind", str(unwind * mult), "--slice-formula"]
        flags += solver_flags(s)
        flags += shlex.split(u.kv.get("bflags", ""))
        res = cbmc(gb, flags, to)
        R["secs"] += res.secs
        R["cmds"].append(" ".join(res.cmd))
        R["bound"] = "loops unrolled %d times; %s" % (unwind * mult, u.kv.get("bound", ""))
        R["backend"] = "cbmc 6.11 / " + s
        if res.props is None:
            if mult == 1:
                R.update(status="undecided", why="cbmc: " + res.raw)
                return R
            break
        props = res.props
        S = summarise(props)
        if [1 for k, r in S["failed"] if k == "unwind"] and \
                not [1 for k, r in S["failed"] if k != "unwind"] and mult == 1:
            continue
        break
    R.update(obligations=S["total"], discharged=S["ok"], kinds=S["kinds"], reach=S["reach"],
             reached=S["reached"])
    if S["failed"]:
        R["failed"] = [prop_line(r) for k, r in S["failed"]]
        sem = [r for k, r in S["failed"] if k not in ("unwind", "nobody") and r["status"] == "FAILURE"]
        nob = [r for k, r in S["failed"] if k == "nobody"]
        if nob:
            R.update(status="undecided", why=prop_line(nob[0]))
            return R
        unw = [r for k, r in S["failed"] if k == "unwind"]
        R["candidates"] = [(gb, flags, to, r["property"], prop_line(r)) for r in (sem + unw)]
        R["semantic"] = bool(sem)
        R.update(status="failed" if sem else "unwound", why="; ".join(R["failed"][:6]))
        return R
    if S["reached"] < S["reach"]:
        R.update(status="vacuous", why="%d of %d reachability points reached" %
                 (S["reached"], S["reach"]))
        return R
    R["status"] = "ok"
    return R


def find_input(u, R, log):
    """Replay the verifier's counterexamples on the real code."""
    exe, err = build_native(u)
    if exe is None:
        log.append("native build failed: " + err)
        return None
    d = unit_dir(u)
    scratch = os.path.join(d, "scratch")
    os.makedirs(scratch, exist_ok=True)
    for n, (gb, flags, to, prop, line) in enumerate(R.get("candidates", [])[:5]):
        res = cbmc(gb, flags + ["--property", prop], min(to, 120), trace=True)
        for r in res.props or []:
            if r.get("trace"):
                vec = vector_of(r["trace"])
                p = os.path.join(d, "vec%d.txt" % n)
                rc, out = replay_vec(exe, vec, p, scratch)
                log.append("counterexample of %s replayed: rc=%s\n%s" % (line, rc, out[-3000:]))
                if native_failed(rc):
                    return {"vector": vec, "rc": rc, "output": out[-6000:], "obligation": line}
    return None


def fuzz(u, seconds, cases, seed=None):
    exe, err = build_native(u)
    if exe is None:
        return {"status": "error", "why": err}
    d = unit_dir(u)
    scratch = os.path.join(d, "scratch")
    os.makedirs(scratch, exist_ok=True)
    vec = os.path.join(d, "fuzzvec.txt")
    rc, out, err, s = run([exe, "fuzz", str(SEED if seed is None else seed), str(cases), str(seconds), vec],
                          seconds + 60, mem_gb=0, env=NENV, cwd=scratch)
    m = re.search(r"ran=(\d+)", out)
    R = {"status": "ok", "ran": int(m.group(1)) if m else 0, "secs": s, "rc": rc}
    if rc == 99 and "FUZZ-FAIL" in out:
        try:
            v = [int(x) for x in open(vec).read().split()]
        except OSError:
            v = []
        rc2, out2 = replay_vec(exe, v, os.path.join(d, "fuzzreplay.txt"), scratch)
        if native_failed(rc2):
            R.update(status="failed", vector=v, output=out2[-6000:], rc2=rc2)
        else:
            R.update(status="failed", vector=v, output=(out + err)[-6000:], rc2=rc)
    elif rc != 0:
        R.update(status="error", why=(out + err)[-2000:])
    return R


def native_enabled(u):
    return u.kv.get("native", "1") == "1"
