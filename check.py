#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  check.py ID                      quick or thorough by VERIF_TIER (default quick)
  check.py ID --replay FILE        re-runs exactly the failing case(s) of a replay file
  check.py --setup                 builds everything the checks need
  check.py ID --cases N / -v       development aids

exit 0 held, 1 violated (VIOLATION line printed), 2 no verdict.
"""
import argparse, fcntl, glob, hashlib, json, os, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, CONFIGS   # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
JOBS = 8
TIME_BUDGET = {"quick": 420, "thorough": 780}   # seconds
BASE = ["-D__forceinline=inline", "-include", "cstring", "-I", os.path.join(REPO, "include"),
        "-I", os.path.join(HERE, "harness"), "-g", "-std=gnu++17"]


class NoVerdict(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_files():
    src = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    inc = sorted(glob.glob(os.path.join(REPO, "include", "**", "*.h"), recursive=True)
                 + glob.glob(os.path.join(REPO, "src", "**", "*.h"), recursive=True))
    if not src or not inc:
        raise NoVerdict("no library sources found under %s" % REPO)
    return src, inc


def tree_hash():
    src, inc = lib_files()
    parts = []
    for p in src + inc:
        parts += [os.path.relpath(p, REPO), read(p)]
    return sha(*parts)


def run_compile(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoVerdict("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(keep_mb=2500):
    """Old build products are only a cache: drop the oldest when they grow."""
    ents = []
    for p in glob.glob(os.path.join(BUILD, "*-*")):
        size = 0
        if os.path.isdir(p):
            for q in os.listdir(p):
                try:
                    size += os.path.getsize(os.path.join(p, q))
                except OSError:
                    pass
        else:
            size = os.path.getsize(p)
        ents.append((os.path.getmtime(p), size, p))
    ents.sort(reverse=True)
    total = 0
    for mt, size, p in ents:
        total += size
        if total > keep_mb * 1e6 and time.time() - mt > 1800:
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)


def build_lib(config, pool):
    cfg = CONFIGS[config]
    src, inc = lib_files()
    key = sha(config, " ".join(cfg["flags"]), cfg["cxx"], " ".join(BASE), tree_hash())
    d = os.path.join(BUILD, "lib-%s-%s" % (config, key))
    ok = os.path.join(d, "ok")
    with Lock(os.path.join(BUILD, "lock-lib-%s" % config)):
        if os.path.exists(ok):
            os.utime(d)
            return d, key
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        jobs = []
        for i, s in enumerate(src):
            o = os.path.join(d, "%03d.o" % i)
            jobs.append(pool.submit(run_compile, [cfg["cxx"]] + cfg["flags"] + cfg.get("lib_flags", []) + BASE
                                    + ["-Wno-everything" if "clang" in cfg["cxx"] else "-w", "-c", s, "-o", o]))
        for j in jobs:
            j.result()
        run_compile(["ar", "rcs", os.path.join(d, "lib.a")] + sorted(glob.glob(os.path.join(d, "*.o"))))
        for o in glob.glob(os.path.join(d, "*.o")):
            os.remove(o)
        open(ok, "w").close()
    return d, key


def build_harness(run, pool):
    config = run["config"]
    cfg = CONFIGS[config]
    libdir, libkey = build_lib(config, pool)
    hs = [os.path.join(HERE, "harness", x) for x in (run["src"], "main.cpp") if x]
    deps = hs + sorted(glob.glob(os.path.join(HERE, "harness", "*.h")))
    extra = run.get("flags", [])
    link = run.get("link", [])
    key = sha(libkey, " ".join(extra + link), *[read(p) for p in deps])
    exe = os.path.join(BUILD, "bin-%s-%s-%s" % (run["src"].replace(".cpp", ""), config, key))
    with Lock(os.path.join(BUILD, "lock-bin-%s-%s" % (run["src"], config))):
        if not os.path.exists(exe):
            run_compile([cfg["cxx"]] + cfg["flags"] + cfg.get("link_flags", []) + BASE + extra
                        + ["-w", "-o", exe + ".tmp"] + hs + [os.path.join(libdir, "lib.a"), "-lpthread"] + link)
            os.rename(exe + ".tmp", exe)
        else:
            os.utime(exe)
    return exe


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:handle_abort=0:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=1:hard_rss_limit_mb=3500",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "MSAN_OPTIONS": "exitcode=77:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=77",
}


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Budget:
    """wall-clock budget shared by the shards of one check: each shard that starts is given an even share of
    what is left, so that a slow machine explores less instead of running out of time"""

    def __init__(self, total, shards, workers):
        self.end, self.left, self.workers = time.time() + total, shards, workers

    def share(self):
        layers = max(1, -(-self.left // self.workers))
        self.left -= 1
        return max(10, int((self.end - time.time()) / layers))


def exec_range(exe, run, seed, tier, start, count, stride, work, tag, timeout, stop=None):
    """one process; returns dict(status, data, cur, text)"""
    out = os.path.join(work, tag + ".json")
    cur = os.path.join(work, tag + ".cur")
    err = os.path.join(work, tag + ".err")
    for p in (out, cur):
        if os.path.exists(p):
            os.remove(p)
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(run.get("env", {}))
    cmd = [exe, "--seed", str(seed), "--from", str(start), "--count", str(count), "--stride", str(stride),
           "--out", out, "--cur", cur]
    if tier == "thorough":
        cmd.append("--thorough")
    if stop:
        cmd += ["--stop", str(stop)]
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, preexec_fn=limits, cwd=work)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    text = read(err)[-6000:].decode("utf8", "replace")
    last = None
    try:
        last = int(read(cur).split()[0])
    except Exception:
        pass
    data = None
    if rc in (0, 3):
        try:
            data = json.loads(read(out))
        except Exception:
            rc = "badoutput"
    return {"rc": rc, "data": data, "cur": last, "text": text}


def crash_summary(rc, text):
    for l in text.splitlines():
        if "Assertion" in l:
            i = l.find("Assertion")
            return "abort:" + l[i:i + 160]
    for l in text.splitlines():
        if "SUMMARY:" in l:
            s = l.split("SUMMARY:")[1].strip()
            # keep the kind and the function, drop paths and lines
            return "sanitizer:" + s.split("/")[0].strip() + " " + s.split(" in ")[-1][:80]
    for l in text.splitlines():
        if "runtime error:" in l:
            return "sanitizer:UBSan " + l.split("runtime error:")[1].strip()[:120]
    if isinstance(rc, int) and rc < 0:
        return "signal:%s" % signal.Signals(-rc).name
    return "exit:%s" % rc


class Shard:
    """runs a strided range, restarting after crashes, attributing them to cases"""

    def __init__(self, exe, run, seed, tier, start, count, stride, work, tag, case_timeout, budget):
        self.__dict__.update(locals())
        self.datas, self.viols, self.notes = [], [], []
        self.lost = self.unreached = 0

    def take(self, data):
        if self.run.get("crash_only"):   # this run lends its workload; only sanitizers, asserts and hangs judge
            return
        for v in data["violations"]:
            self.viols.append((v["key"], v["msg"], [v["case"], 1, 1]))

    def go(self):
        start, left, restarts = self.start, self.count, 0
        stop = self.budget.share()
        self.timeout = stop + 60
        while left > 0:
            r = exec_range(self.exe, self.run, self.seed, self.tier, start, left, self.stride, self.work,
                           self.tag + ".%d" % restarts, self.timeout, stop)
            if r["data"] is not None:
                self.datas.append(r["data"])
                self.unreached += left - r["data"]["executed"]
                self.take(r["data"])
                return self
            if r["cur"] is None:
                if "unexpected memory mapping" in r["text"] and restarts < 5:
                    restarts += 1
                    continue
                raise NoVerdict("harness did not start (%s): %s" % (r["rc"], r["text"][-1500:]))
            at = r["cur"]
            done = (at - start) // self.stride
            one = None
            if r["rc"] == "timeout":
                # inconclusive unless the single case, alone, exceeds a generous bound
                one = exec_range(self.exe, self.run, self.seed, self.tier, at, 1, 1, self.work,
                                 self.tag + ".one", self.case_timeout)
                if one["rc"] == "timeout":
                    self.viols.append(("hang", "case %d did not return within %d s" % (at, self.case_timeout), [at, 1, 1]))
                    return self
                self.notes.append("shard timed out at case %d; the case alone ended normally" % at)
                self.lost += left - done
                return self
            if r["rc"] == -signal.SIGKILL:
                self.notes.append("process ended from outside at case %d" % at)
                self.lost += left - done
                return self
            one = exec_range(self.exe, self.run, self.seed, self.tier, at, 1, 1, self.work,
                             self.tag + ".one", self.case_timeout)
            if one["data"] is None and one["rc"] not in ("timeout", -signal.SIGKILL):
                self.viols.append((crash_summary(one["rc"], one["text"]), one["text"][-3000:], [at, 1, 1]))
            else:
                again = exec_range(self.exe, self.run, self.seed, self.tier, start, done + 1, self.stride,
                                   self.work, self.tag + ".again", self.timeout)
                if again["data"] is None and again["rc"] not in ("timeout", -signal.SIGKILL):
                    self.viols.append((crash_summary(again["rc"], again["text"]), again["text"][-3000:],
                                       [start, done + 1, self.stride]))
                else:
                    self.notes.append("unreproduced crash at case %d: %s" % (at, r["text"][-300:]))
            # harvest the cases before the crash
            if done > 0:
                pre = exec_range(self.exe, self.run, self.seed, self.tier, start, done, self.stride, self.work,
                                 self.tag + ".pre", self.timeout)
                if pre["data"] is not None:
                    self.datas.append(pre["data"])
                    self.take(pre["data"])
            start = at + self.stride
            left -= done + 1
            restarts += 1
            if restarts > 6:
                self.lost += left
                self.notes.append("gave up after %d crashes" % restarts)
                return self
        return self


def load_known():
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith("known: "):
                continue
            f = dict(x.split("=", 1) for x in l[7:].split(" ", 2)[:2])
            res.append((f["property"], f["key"], l[7:]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.makedirs(BUILD, exist_ok=True)
    pool = ThreadPoolExecutor(JOBS)

    if a.setup:
        prune()
        outer = ThreadPoolExecutor(4)
        for c in CONFIGS:
            build_lib(c, pool)
        todo = {}
        for p in PROPS.values():
            for r in p["runs"]:
                todo[(r["src"], r["config"], " ".join(r.get("flags", [])))] = r
        for f in [outer.submit(build_harness, r, pool) for r in todo.values()]:
            f.result()
        print("built %d harnesses in %d configurations" % (len(todo), len(CONFIGS)))
        return 0

    if a.id not in PROPS:
        print("unknown property %r" % a.id)
        return 2
    spec = PROPS[a.id]
    t0 = time.time()
    prune()

    if a.replay:
        rep = json.load(open(a.replay))
        bad = False
        for run in spec["runs"]:
            if run["name"] not in rep["runs"]:
                continue
            exe = build_harness(run, pool)
            work = os.path.join(BUILD, "work-%s-replay" % a.id)
            os.makedirs(work, exist_ok=True)
            c = rep["cases"]
            r = exec_range(exe, run, rep["seed"], rep["tier"], c[0], c[1], c[2], work, "r-" + run["name"], 900)
            print("run %s: rc=%s" % (run["name"], r["rc"]))
            if r["data"] is None:
                print(r["text"])
                bad = True
            else:
                for v in r["data"]["violations"]:
                    if run.get("crash_only"):
                        continue
                    print("case %d: %s: %s" % (v["case"], v["key"], v["msg"]))
                    bad = True
                if spec.get("compare"):
                    print("traces", r["data"]["traces"])
        return 1 if bad else 0

    outer = ThreadPoolExecutor(4)
    exes = list(outer.map(lambda r: build_harness(r, pool), spec["runs"]))
    build_s = time.time() - t0
    work = os.path.join(BUILD, "work-%s-%d" % (a.id, os.getpid()))
    os.makedirs(work, exist_ok=True)

    violations = []   # (key, msg, cases, run names)
    counters, sigs, samples, notes = {}, set(), [], []
    evaluations, lost, unreached, planned = 0, 0, 0, 0
    per_run = {}
    traces = {}
    shards = []
    for run, exe in zip(spec["runs"], exes):
        n = run["thorough" if tier == "thorough" else "quick"]
        if a.cases is not None:
            n = a.cases
        first = run.get("first", 0)
        procs = min(run.get("procs", JOBS), n) if n else 0
        planned += n
        for k in range(procs):
            cnt = n // procs + (1 if k < n % procs else 0)
            shards.append(Shard(exe, run, seed, tier, first + k, cnt, procs, work, "%s-%d" % (run["name"], k),
                                run.get("case_timeout", 45), None))
    workers = JOBS if not spec.get("exclusive") else 1
    budget = Budget(TIME_BUDGET[tier] - min(build_s, 200), len(shards), workers)
    for s in shards:
        s.budget = budget
    spool = ThreadPoolExecutor(workers)
    try:
        done = list(spool.map(lambda s: s.go(), shards))
    finally:
        pass
    for s in done:
        name = s.run["name"]
        lost += s.lost
        unreached += s.unreached
        notes += s.notes
        pr = per_run.setdefault(name, {"config": s.run["config"], "cases": 0})
        for d in s.datas:
            evaluations += d["executed"]
            pr["cases"] += d["executed"]
            for k, v in d["counters"].items():
                if k.startswith("max_"):
                    counters[k] = max(counters.get(k, 0), v)
                else:
                    counters[k] = counters.get(k, 0) + v
            sigs.update(d["sigs"])
            if len(samples) < 6:
                samples += d["samples"][:1]
            traces.setdefault(name, {}).update(d["traces"])
        for key, msg, cases in s.viols:
            violations.append((key, "[%s] %s" % (name, msg), cases, [name]))

    # identical cases must give identical results in every build / environment
    if spec.get("compare"):
        # only builds by the same compiler: argument evaluation order differs between compilers
        alone = {r["name"] for r in spec["runs"] if CONFIGS[r["config"]]["cxx"] != CONFIGS[spec["runs"][0]["config"]]["cxx"]}
        names = [n for n in traces if n not in alone]
        compared = 0
        if names:
            ref = names[0]
            for other in names[1:]:
                for idx, h in traces[other].items():
                    if idx in traces[ref]:
                        compared += 1
                        if traces[ref][idx] != h:
                            violations.append(("trace-differs", "case %s gives different results in %s and %s" %
                                               (idx, ref, other), [int(idx), 1, 1], [ref, other]))
        counters["traces_compared"] = compared

    shutil.rmtree(work, ignore_errors=True)

    known = load_known()
    reported, known_hit = [], {}
    for v in violations:
        k = next((x for x in known if x[0] == a.id and x[1] == v[0]), None)
        if k:
            known_hit[k[2]] = v
        else:
            reported.append(v)

    os.makedirs(EVIDENCE, exist_ok=True)
    cov = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(sigs),
        "rule": spec["rule"],
        "samples": samples,
        "observed": dict(sorted(counters.items())),
        "runs": per_run,
        "library_tree": tree_hash(),
    }
    if unreached:
        notes.append("%d of %d planned cases were not reached within the time budget" % (unreached, planned))
    if notes:
        cov["notes"] = notes[:20]
    ev = {"property": a.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(reported)}
    with open(os.path.join(EVIDENCE, a.id + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(os.path.join(EVIDENCE, a.id + ".json.tmp"), os.path.join(EVIDENCE, a.id + ".json"))

    print("%s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" %
          (a.id, evaluations, len(sigs), time.time() - t0, build_s))
    if a.v:
        print(json.dumps(cov["observed"], indent=1))
    for l in known_hit:
        print("KNOWN-FINDING: %s" % l)
    for n in notes[:5]:
        print("note: " + n)
    if reported:
        os.makedirs(REPLAYS, exist_ok=True)
        seen = {}
        for key, msg, cases, runs in reported:
            seen.setdefault(key, (msg, cases, runs, []))[3].append(cases[0])
        for key, (msg, cases, runs, all_cases) in list(seen.items())[:10]:
            path = os.path.join(REPLAYS, "%s-%s.json" % (a.id, sha(key, str(seed), tier)[:10]))
            with open(path, "w") as f:
                json.dump({"property": a.id, "key": key, "message": msg, "seed": seed, "tier": tier,
                           "cases": cases, "runs": runs, "also_failing_cases": all_cases[:50],
                           "how": "python3 check.py %s --replay %s" % (a.id, path)}, f, indent=1)
            print("  %s (%d case(s)): %s" % (key, len(all_cases), msg[:700]))
            print("VIOLATION property=%s replay=%s" % (a.id, path))
        return 1
    if lost > planned // 4:
        raise NoVerdict("only %d of %d cases ran" % (evaluations, planned))
    if a.cases is None:
        if len(sigs) < spec.get("min_distinct", 50):
            raise NoVerdict("too few non-trivial cases: %d" % len(sigs))
        for k, lo in spec.get("require", {}).items():
            if counters.get(k, 0) < lo:
                raise NoVerdict("monitor observed too little: %s = %d < %d" % (k, counters.get(k, 0), lo))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT: %s" % e)
        sys.exit(2)
