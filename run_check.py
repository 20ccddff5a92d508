#!/usr/bin/env python3
"""Builds one property's harness against /repo's working tree and runs it.

usage: run_check.py <property id>      (VERIF_SEED, VERIF_TIER from the environment)
       run_check.py --replay <file>    re-runs the section a replay file names

exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
"""
import array, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
JOBS = os.cpu_count() or 4
INCLUDES = ["DotNetLibrary/include", "PlatformSupport", "DotNetLibrarySupport"]
SOURCE_DIRS = ["PlatformSupport", "DotNetLibrary", "DotNetLibrarySupport"]
CXX = "clang++"
BASE = ["-std=c++11", "-g1", "-O1", "-fno-omit-frame-pointer", "-w", "-ftrivial-auto-var-init=pattern"]
SAN = ["-fsanitize=address,undefined,float-divide-by-zero,float-cast-overflow", "-fno-sanitize=vptr,float-divide-by-zero",
       "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]
STALL_CPU = 40.0      # CPU seconds spent inside one case before it counts as a hang
STALL_WALL = 240.0    # wall seconds without progress and without CPU use: inconclusive
BUDGET = 820.0        # wall seconds for one check; what is not explored by then is left out and the evidence says so
GRACE = 60.0          # once a violation is certain the rest of the exploration gets this long: a broken tree may be very slow


class HarnessError(Exception):
    pass


def config(prop):
    cfg = json.load(open(os.path.join(HERE, "checks.json")))
    for c in cfg:
        if c["id"] == prop:
            return c
    raise HarnessError("unknown property " + prop)


def threads(cfg):
    return cfg.get("sanitizer") == "thread"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def headers_digest():
    parts = []
    for d in INCLUDES:
        for f in sorted(glob.glob(os.path.join(REPO, d, "**", "*.h*"), recursive=True)):
            parts += [os.path.relpath(f, REPO), read(f)]
    return digest(parts)


def compile_objs(sources, flags, extra_key):
    """sources: list of (path, includes). Objects are cached by the content of everything they depend on."""
    os.makedirs(BUILD, exist_ok=True)
    hd = headers_digest()

    def one(src):
        key = digest([hd, read(src), " ".join(flags), extra_key, os.path.basename(src)])
        obj = os.path.join(BUILD, os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.%s.tmp" % (os.getpid(), hashlib.md5(src.encode()).hexdigest()[:6])
            cmd = [CXX] + flags + ["-I" + os.path.join(REPO, d) for d in INCLUDES] + ["-I" + os.path.join(HERE, "harness")]
            r = sh(cmd + ["-c", src, "-o", tmp])
            if r.returncode != 0:
                raise HarnessError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
            os.rename(tmp, obj)
        os.utime(obj)
        return obj

    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, sources))


def build(cfg):
    repo_src = []
    for d in SOURCE_DIRS:
        repo_src += sorted(glob.glob(os.path.join(REPO, d, "**", "*.cpp"), recursive=True))
    if len(repo_src) < 5:
        raise HarnessError("library sources not found under " + REPO)
    flags = BASE + (TSAN if threads(cfg) else SAN) + cfg.get("flags", [])
    hkey = digest([read(f) for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.h")))])
    own = [os.path.join(HERE, "harness", "main.cpp")] + [os.path.join(HERE, "harness", s) for s in cfg["sources"]]
    objs = compile_objs(own, flags, hkey) + compile_objs(repo_src, flags, "")
    exe = os.path.join(BUILD, cfg["id"] + "." + digest(objs + cfg.get("link", [])))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([CXX] + flags + objs + ["-o", tmp, "-lm", "-ldl", "-lpthread"] + cfg.get("link", []))
        if r.returncode != 0:
            raise HarnessError("link failed:\n" + r.stdout[-4000:])
        os.rename(tmp, exe)
    os.utime(exe)
    return exe


def prune():
    """Keep the object cache small."""
    try:
        fs = sorted((os.path.getmtime(f), f) for f in glob.glob(os.path.join(BUILD, "*")))
    except OSError:
        return
    for _, f in fs[:-400]:
        try:
            os.remove(f)
        except OSError:
            pass


def env_for(cfg, reuse=False):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=66:detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=1:handle_abort=1:handle_sigfpe=1:handle_sigill=1:quarantine_size_mb=32:"
                         "new_delete_type_mismatch=0:hard_rss_limit_mb=3500")
    if reuse:  # freed memory and stack frames are used again at once, as without a sanitizer: whatever is remembered by address meets another object there
        e["ASAN_OPTIONS"] += ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:history_size=4:second_deadlock_stack=1"
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC0"
    e["VF_SCALE"] = str(cfg.get("scale", 1))
    e.update(cfg.get("env", {}))
    return e


def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return None


def raw_desc(b):
    if b[:1] == b"\x01":
        v = array.array("q", b[16:40])
        return "%s(%d, %d, %d)" % (b[40:240].split(b"\0")[0].decode("ascii", "replace"), v[0], v[1], v[2])
    return b.split(b"\0")[0].decode("utf-8", "replace")


def page_of(prefix):
    try:
        b = read(prefix + ".page")
    except OSError:
        return 0, ""
    if len(b) < 16:
        return 0, ""
    return int.from_bytes(b[:8], "little"), raw_desc(b[8:])


class Alarm:
    """When the first violation was seen that no finding explains."""
    def __init__(self, prop, start):
        self.deadline = start + BUDGET
        self.findings = [f for f in load_findings() if f["property"] == prop]
        self.since = None

    def known(self, key, case):
        for f in self.findings:
            if f["key"] == key and f["case"].search(case):
                return f
        return None

    def see(self, key, case):
        if self.since is None and not self.known(key, case):
            self.since = time.time()

    def over(self):
        now = time.time()
        return now > self.deadline or (self.since is not None and now - self.since > GRACE)


def run_task(exe, cfg, task, seed, tier, tmp, alarm=None):
    """-> dict(kind=done|died|hang|stuck|cut, ...)"""
    sec, shard, shards, reuse = task
    prefix = os.path.join(tmp, "%s.%d.%d" % (sec, shard, reuse))
    for suffix in (".page", ".out", ".hash"):
        if os.path.exists(prefix + suffix):
            os.remove(prefix + suffix)
    log = open(prefix + ".log", "wb")
    cmd = [exe, sec, str(shard), str(shards), str(seed), tier, prefix]
    p = subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env_for(cfg, reuse), cwd=tmp)
    last, last_cpu, last_wall = -1, 0.0, time.time()
    verdict, looked = None, 0
    pause = 0.01
    while p.poll() is None:
        time.sleep(pause)
        pause = min(0.5, pause * 1.3)
        prog, _ = page_of(prefix)
        cpu = cpu_of(p.pid) or last_cpu
        if prog != last:
            last, last_cpu, last_wall = prog, cpu, time.time()
        elif cpu - last_cpu > STALL_CPU:
            verdict = "hang"
        elif time.time() - last_wall > STALL_WALL:
            verdict = "stuck"
        if alarm and not verdict:
            try:
                size = os.path.getsize(prefix + ".out")
            except OSError:
                size = 0
            if size != looked:
                looked = size
                for f in violation_lines(prefix):
                    alarm.see(f[0], f[1])
            if alarm.over():
                verdict = "cut"
        if verdict:
            p.kill()
            p.wait()
            break
    log.close()
    text = read(prefix + ".log")[-20000:].decode("utf-8", "replace")
    res = {"task": task, "log": text, "rc": p.returncode, "desc": page_of(prefix)[1], "progress": page_of(prefix)[0],
           "violations": [], "events": {}, "samples": [], "evals": 0, "bulk": 0, "fails": 0, "prefix": prefix}
    done = False
    if os.path.exists(prefix + ".out"):
        for line in open(prefix + ".out", errors="replace"):
            f = line.rstrip("\n").split("\t")
            if f[0] == "V" and len(f) >= 4:
                res["violations"].append((f[1], f[2], f[3]))
            elif f[0] == "S":
                done = True
                res["evals"], res["bulk"], res["fails"] = int(f[1]), int(f[2]), int(f[3])
            elif f[0] == "E":
                res["events"][f[1]] = int(f[2])
            elif f[0] == "X":
                res["samples"].append(f[1])
    res["kind"] = verdict or ("done" if done and p.returncode == 0 else "died")
    return res


def violation_lines(prefix):
    out = []
    for line in open(prefix + ".out", errors="replace"):
        f = line.rstrip("\n").split("\t")
        if f[0] == "V" and len(f) >= 4:
            out.append(f[1:4])
    return out


def run_believed(exe, cfg, task, seed, tier, tmp, alarm):
    """A hang or an unexplained death is run once more before it is believed."""
    if alarm.over():
        return None
    r = run_task(exe, cfg, task, seed, tier, tmp, alarm)
    explained = "ERROR:" in r["log"] or "WARNING: ThreadSanitizer" in r["log"] or "runtime error" in r["log"]
    if r["kind"] in ("hang", "stuck") or (r["kind"] == "died" and not explained):
        again = run_task(exe, cfg, task, seed, tier, tmp, alarm)
        if again["kind"] == "stuck":
            again["trouble"] = "no progress in %s (wall clock), inconclusive: %s" % (task[0], again["desc"])
        if again["kind"] == "died" and r["kind"] == "died" and again["rc"] == 2:
            again["trouble"] = "harness error in %s: %s" % (task[0], again["log"][-2000:])
        r = again
    for k, c, _ in bad_ends(r):
        alarm.see(k, c)
    return r


def bad_ends(r):
    items = list(r["violations"])
    if "trouble" in r:
        return items
    if r["kind"] == "hang":
        items.append(("hang", r["desc"], "one case used more than %d CPU seconds (twice)" % STALL_CPU))
    elif r["kind"] == "died":
        items.append((death_key(r), r["desc"], r["log"][-3000:]))
    return items


def death_key(res):
    t = res["log"]
    m = re.search(r"runtime error: (.*)", t)
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:90]
        return "undefined-behaviour: " + what
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", t)
    if m:
        return "memory-error: " + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", t)
    if m:
        return "thread-error: " + m.group(1).strip()
    if "terminate called" in t or "uncaught" in t:
        return "uncaught exception"
    if "rss limit" in t:
        return "memory exhausted"
    return "died with status %s" % res["rc"]


def load_findings():
    """known-findings.txt: lines 'finding: property=<id> key=<key> case=<regex> :: <text>' and 'fixed: ...' (ignored)."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(.*?) case=(.*?) :: (.*)$", line.strip())
            if m:
                out.append({"property": m.group(1), "key": m.group(2), "case": re.compile(m.group(3)), "text": m.group(4), "line": line.strip()})
    return out


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        cfg = config(rp["property"])
        exe = build(cfg)
        tmp = tempfile.mkdtemp(prefix="vreplay.")
        try:
            r = run_task(exe, cfg, (rp["section"], rp["shard"], rp["shards"], rp.get("reuse", False)), rp["seed"], rp["tier"], tmp)
            print(r["kind"], r["desc"])
            for v in r["violations"]:
                print("  %s | case: %s | %s" % v)
            print(r["log"])
            return 1 if r["kind"] != "done" or r["violations"] else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if len(sys.argv) == 2 and sys.argv[1] == "--build-all":
        for c in json.load(open(os.path.join(HERE, "checks.json"))):
            build(c)
        return 0
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    cfg = config(prop)
    exe = build(cfg)
    prune()
    t_build = time.time() - t0
    lst = sh([exe, "--list", tier], env=env_for(cfg))
    if lst.returncode != 0:
        raise HarnessError("--list failed: " + lst.stdout[-2000:])
    tasks = []
    for line in lst.stdout.split("\n"):
        f = line.split()
        if len(f) == 2:
            # every other process runs with memory reused at once; a section of one process runs both ways
            tasks += [(f[0], i, int(f[1]), i % 2 == 1 and not threads(cfg)) for i in range(int(f[1]))]
            if int(f[1]) == 1 and not threads(cfg):
                tasks.append((f[0], 0, 1, True))
    if not tasks:
        raise HarnessError("no sections")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for old in glob.glob(os.path.join(evdir, "replay-%s-*.json" % prop)):
        os.remove(old)
    tmp = tempfile.mkdtemp(prefix="vcheck.")
    try:
        alarm = Alarm(prop, t0)
        with ThreadPoolExecutor(JOBS) as ex:
            results = [r for r in ex.map(lambda t: run_believed(exe, cfg, t, seed, tier, tmp, alarm), tasks) if r]
        if alarm.since is None:
            for r in results:
                if "trouble" in r:
                    raise HarnessError(r["trouble"])
        # gather
        viols = []
        seen_keys = set()
        for r in results:
            sec = r["task"][0]
            items = bad_ends(r)
            for k, c, d in items:
                viols.append({"key": k, "case": c, "detail": d, "section": sec, "shard": r["task"][1], "shards": r["task"][2], "reuse": r["task"][3]})
        known, fresh = set(), []
        for v in viols:
            hit = alarm.known(v["key"], v["case"])
            if hit:
                known.add(hit["line"])
            else:
                fresh.append(v)
        hashes = set()
        evals = bulk = fails = 0
        events, samples = {}, []
        for r in results:
            evals += r["evals"]
            if r["task"][2] > 1 or not r["task"][3]:  # the second run of the same cases is no new case
                bulk += r["bulk"]
            fails += r["fails"]
            for k, n in r["events"].items():
                events[k] = events.get(k, 0) + n
            if r["samples"] and len(samples) < 40:
                samples += [r["task"][0] + ": " + s for s in r["samples"][:4 if r["task"][1] == 0 else 0]]
            if os.path.exists(r["prefix"] + ".hash"):
                a = array.array("Q")
                b = read(r["prefix"] + ".hash")
                a.frombytes(b[:len(b) // 8 * 8])
                hashes.update(a)
        if not fresh:
            if evals == 0:
                raise HarnessError("nothing was explored in the time there is")
            for r in results:
                if r["kind"] == "done" and r["evals"] == 0 and r["fails"] == 0:
                    raise HarnessError("section %s shard %d observed nothing" % r["task"][:2])
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes) + bulk, "rule": cfg["rule"], "samples": samples,
                           "sections": len(set(t[0] for t in tasks)), "processes": len(tasks), "processes_with_memory_reused_at_once": sum(1 for t in tasks if t[3]), "events": events,
                           "enumerated_cases": bulk, "exhaustive": False},
              "assumptions": cfg.get("assumptions", []) + ["clang 18 ThreadSanitizer reports the unsynchronised accesses it can see among those the schedules made" if threads(cfg) else "clang 18 AddressSanitizer and UndefinedBehaviorSanitizer report the memory errors they can see; stack variables are pattern-initialised so reads of uninitialised locals give wrong results"],
              "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
        ev["coverage"]["build_s"] = round(t_build, 2)
        ev["coverage"]["processes_cut_short"] = len(tasks) - sum(1 for r in results if r["kind"] in ("done", "died", "hang"))
        ev["coverage"]["known_findings_seen"] = len(known)
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for line in sorted(known):
            m = re.match(r"finding: property=(\S+) key=.*? :: (.*)$", line)
            print("KNOWN-FINDING: property=%s %s" % (prop, m.group(2)))
        if fresh:
            n = 0
            for v in fresh:
                if v["key"] in seen_keys:
                    continue
                seen_keys.add(v["key"])
                if n >= 20:
                    break
                path = os.path.join(evdir, "replay-%s-%d.json" % (prop, n))
                n += 1
                rec = dict(v)
                rec.update({"property": prop, "seed": seed, "tier": tier,
                            "how": "python3 run_check.py --replay <this file>; the failing input is in 'case'"})
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   %s | case: %s | %s" % (v["key"], v["case"][:300], v["detail"][:600] if len(v["detail"]) < 700 else v["detail"][:700]))
            return 1
        print("%s: held on %d cases (%d distinct) in %d sections, %.1fs" % (prop, evals, len(hashes) + bulk, len(set(t[0] for t in tasks)), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
