#!/usr/bin/env python3
"""Development aid: confirm planted bugs in scratch copies and file them under seeded/.
usage: plant.py DEFS.py [id...]   DEFS.py defines BUGS = [dict(id, prop, edits=[(file, old, new[, n])], demo, needs, breaks[, asan][, flags])]
Never run by a check."""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "DateTimeTests.IsDaylightSavingTimeTest"
REPO, BASE, W = "/repo", "0455340", "/tmp/pl"
def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = "timeout"
        return R
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -O0 %s -IDotNetLibrary/include -IPlatformSupport -IDotNetLibrarySupport "$D/demo.cpp" $(find DotNetLibrary PlatformSupport DotNetLibrarySupport -name '*.cpp') -o "$T/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0 timeout 60 "$T/demo"
'''
PRE = '''#include <DotnetTypes.h>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
using namespace DotnetLibrary;
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); bad = 1; } } while (0)
static std::wstring S(String* s) { return std::wstring(s->get_Buffer(), s->get_Length()); }
template <class F> static int raises(F f) { try { f(); } catch (Exception*) { return 1; } return 0; }
'''
def one(b, base_cpp_objs=None):
    d = "%s/%s" % (W, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh(["git", "clone", "-q", REPO, d])
    out = os.path.join(VERIF, "seeded", b["id"])
    try:
        for e in b["edits"]:
            p = os.path.join(d, e[0]); raw = open(p, "rb").read(); crlf = b"\r\n" in raw
            t = raw.decode("utf-8").replace("\r\n", "\n")
            n = e[3] if len(e) > 3 else 0
            k = t.count(e[1])
            if k == 0 or (k > 1 and len(e) < 4): return b["id"], "EDIT: %d matches of %r" % (k, e[1])
            i = -1
            for _ in range(n + 1): i = t.index(e[1], i + 1)
            t = t[:i] + e[2] + t[i + len(e[1]):]
            open(p, "wb").write((t.replace("\n", "\r\n") if crlf else t).encode())
        diff = sh(["git", "diff", "--no-color"], d).stdout
        # byte exact
        diffb = subprocess.run(["git", "diff", "--binary", "--no-color"], cwd=d, stdout=subprocess.PIPE).stdout
        old = set(sh(["git", "rev-list", BASE], REPO).stdout.split())
        u0 = sh(["git", "diff", "-U0", "--no-color"], d).stdout
        f = None; removed = 0
        for l in u0.splitlines():
            if l.startswith("--- "): f = l[6:].strip()
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                a, c = int(m.group(1)), int(m.group(2) or 1)
                for ln in range(a, a + c):
                    h = sh(["git", "blame", "-l", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], REPO).stdout.split()[0]
                    full = sh(["git", "rev-parse", h.lstrip("^")], REPO).stdout.strip()
                    if full not in old: return b["id"], "LINE %s:%d is from my commit %s" % (f, ln, h)
                    removed += 1
        if not removed: return b["id"], "no original line changed"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(diffb)
        open(out + "/demo.cpp", "w").write(PRE + b["demo"].strip("\n") + "\n")
        open(out + "/demo.sh", "w").write(DEMO % (("-g -fsanitize=address -fno-omit-frame-pointer" if b.get("asan") else "") + b.get("flags", "")))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        # tests in the scratch copy
        bd = d + "/_b"
        r = sh("cmake -S %s -B %s -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/cmake/skip-integration.cmake && ninja -C %s -j2" % (d, bd, bd))
        if r.returncode: return b["id"], "BUILD\n" + r.stdout[-1500:]
        r = sh("TZ=UTC0 %s/DotNetLibraryTests --gtest_filter=-%s; TZ=EST5EDT,M3.2.0,M11.1.0 %s/DotNetLibraryTests --gtest_filter=%s" % (bd, DST, bd, DST), d, timeout=120)
        failed = set(re.findall(r"\[  FAILED  \] (\S+\.\S+)", r.stdout))
        if failed or r.stdout.count(" ran. (") != 2 or r.returncode: return b["id"], "TESTS catch it: " + "; ".join(sorted(failed)[:4])
        r1 = sh(["bash", out + "/demo.sh"], REPO)
        r2 = sh(["bash", out + "/demo.sh"], d)
        if r1.returncode: return b["id"], "DEMO fails on unchanged: %d %s" % (r1.returncode, r1.stdout[-600:])
        if not r2.returncode: return b["id"], "DEMO passes on patched"
        msg = "ok"
        for prop in [b["prop"]] + b.get("also", []):
            env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
            r = sh(["python3", os.path.join(VERIF, "run_check.py"), prop], VERIF, env)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            msg += " | %s %s %s" % (prop, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, (r.stdout.strip().splitlines() or [""])[-1][:160] if r.returncode not in (0, 1) else "")
        return b["id"], msg
    finally:
        shutil.rmtree(d, ignore_errors=True)
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
bs = [b for b in ns["BUGS"] if not want or b["id"] in want]
with cf.ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, bs):
        if not m.startswith("ok"): shutil.rmtree(os.path.join(VERIF, "seeded", i), ignore_errors=True)
        print("%-28s %s" % (i, m), flush=True)
