#!/usr/bin/env python3
"""Make and confirm planted bugs.  mkseed.py SPEC.py [id...]

SPEC.py calls seed(id, prop, file, old, new, needs, breaks, demo).  Every seed is confirmed in a scratch copy
(/tmp/sr): the demo exits 0 on the unchanged tree and nonzero with the patch, the patch builds, and the stable
tests pass.  Only then /verif/seeded/<id>/ is written."""
import json, os, subprocess, sys, shutil
W = "/tmp/sr"
OUT = "/verif/seeded"
UTIL = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "rcutils/allocator.h"
/* allocator that fails the request number fail_at (counted from 1, 0: never) and counts live blocks */
static long a_n, a_fail_at, a_live;
static int a_fail(void) {return a_fail_at && ++a_n == a_fail_at;}
static void * ua(size_t n, void * s) {(void)s; if (a_fail()) {return NULL;} a_live++; return malloc(n);}
static void * uz(size_t n, size_t m, void * s)
{(void)s; if (a_fail()) {return NULL;} a_live++; return calloc(n, m);}
static void * ur(void * p, size_t n, void * s)
{(void)s; if (a_fail()) {return NULL;} if (!p) {a_live++;} return realloc(p, n);}
static void ud(void * p, void * s) {(void)s; if (p) {a_live--; free(p);}}
static inline rcutils_allocator_t ualloc(void)
{
  rcutils_allocator_t a = rcutils_get_zero_initialized_allocator();
  a.allocate = ua; a.zero_allocate = uz; a.reallocate = ur; a.deallocate = ud; return a;
}
#define CHECK(c) do {if (!(c)) {printf("demo failed: %s (line %d)\n", #c, __LINE__); exit(1);}} while (0)
'''
SH = '''#!/bin/bash
# cwd: the repository, built
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
# with the address sanitizer and the working tree's own sources, so that misuse of memory shows
SRC=$(find src -name '*.c' ! -name '*win32*')
gcc -std=gnu11 -g -w -D_GNU_SOURCE -DRCUTILS_ENABLE_FAULT_INJECTION %s -fsanitize=address,undefined \\
  -fno-sanitize-recover=undefined -I include -I _build/include -I src -I "$D" "$D/demo.c" $SRC -o "$T/demo" \\
  -ldl -lpthread %s || exit 9
cd "$T" || exit 9
export ASAN_OPTIONS=detect_leaks=0
timeout 250 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests():
    r = sh("ninja -C _build", cwd=W)
    if r.returncode: return "build: " + r.stdout[-800:]
    if not BASE: return None
    shutil.rmtree(W + "/_build/vp_results", ignore_errors=True); os.mkdir(W + "/_build/vp_results")
    sh("env -u LD_LIBRARY_PATH ctest --test-dir _build -j8 --timeout 100", cwd=W)
    sh("/usr/bin/python3 /opt/vp/results.py /tmp/sr_out.json 'lines:%s/_build/vp_results/*.txt'" % W, cwd=W)
    o = json.load(open("/tmp/sr_out.json"))
    miss = [t for t in BASE if t not in set(o["passed"])]
    return "tests fail: " + str(miss[:6]) if miss else None
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
only = sys.argv[2:]
def seed(id, prop, file, old, new, needs, breaks, demo, cflags="", libs=""):
    if only and id not in only: return
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git checkout -q -- .", cwd=W)
    files = file if isinstance(file, list) else [(file, old, new)]
    for f, o, n in files:
        s = open(W + "/" + f).read()
        if s.count(o) != 1: print(id, "OLD TEXT count", s.count(o), f); return
        open(W + "/" + f, "w").write(s.replace(o, n))
    diff = sh("git diff", cwd=W).stdout
    # removed lines must be of the original commit
    sh("git checkout -q -- .", cwd=W)
    d = "/tmp/seed_" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/util.h", "w").write(UTIL); open(d + "/demo.c", "w").write('#include "util.h"\n' + demo)
    open(d + "/demo.sh", "w").write(SH % (cflags, libs)); os.chmod(d + "/demo.sh", 0o755)
    e = tests() if not hasattr(seed, "clean") else (sh("ninja -C _build", cwd=W), None)[1]
    seed.clean = 1
    if e: print(id, "UNCHANGED TREE", e); return
    r = sh("bash %s/demo.sh" % d, cwd=W)
    if r.returncode: print(id, "demo fails on clean tree", r.returncode, (r.stdout + r.stderr)[-1500:]); return
    open(d + "/patch.diff", "w").write(diff)
    r = sh("git apply %s/patch.diff" % d, cwd=W)
    if r.returncode: print(id, "apply", r.stderr); return
    e = tests()
    if e: print(id, "WITH PATCH", e); sh("git checkout -q -- .", cwd=W); return
    r = sh("bash %s/demo.sh" % d, cwd=W)
    sh("git checkout -q -- .", cwd=W)
    if r.returncode in (0, 9): print(id, "demo passes with patch / no compile", r.returncode, r.stderr[-500:]); return
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(OUT + "/" + id, ignore_errors=True); shutil.copytree(d, OUT + "/" + id); shutil.rmtree(d)
    print(id, "kept:", (r.stdout + r.stderr).strip().splitlines()[0][:150]); sys.stdout.flush()
exec(open(sys.argv[1]).read())
