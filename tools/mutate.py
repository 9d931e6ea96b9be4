#!/usr/bin/env python3
"""Development aid: systematic mutants of the library against the checks' monitors.

  mutate.py OUT.jsonl [--seed S] [--max N] [--files GLOB]

Works in a scratch directory on copies of /repo; only the plain builds of the
harnesses are used (linked against the mutated library as a shared object), each
with a slice of its quick workload.  Reports per mutant: does not build / killed by
the test suite / caught by which check / survived.  --mode domain plants changes that
only act on part of an expression's range (large, small, zero, negative values).
"""
import argparse, fnmatch, glob, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
FL = ["-O1", "-g0", "-w", "-D__forceinline=inline", "-include", "cstring"]
EXTRA = {"C03": None}

def sh(cmd, timeout=120, env=None, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""

def mutants_of(line):
    s = line
    out = []
    code = s.split("//")[0]
    t = code.strip()
    if not t or t.startswith(("#", "/*", "*", "namespace", "class", "}", "public:", "private:", "protected:", "using", "template")):
        return out
    if "assert" in t or "#include" in t:
        return out
    def sub(pat, rep, tag):
        for m in re.finditer(pat, code):
            new = code[:m.start()] + m.expand(rep) + code[m.end():]
            if new != code:
                out.append((tag, new))
    sub(r"(?<=[\w\)\]]) \+ (?=[\w\(])(?!0\b)", " - ", "+->-")
    sub(r"(?<=[\w\)\]]) - (?=[\w\(])", " + ", "-->+")
    sub(r"(?<=[\w\)\]]) \* (?=[\w\(])(?!\*)", " + ", "*->+")
    sub(r"(?<=[\w\)\]]) / (?=[\w\(])", " * ", "/->*")
    sub(r" \+= ", " -= ", "+=->-=")
    sub(r" \+= ", " = ", "+=->=")
    sub(r" -= ", " += ", "-=->+=")
    sub(r" \*= ", " /= ", "*=->/=")
    sub(r" < ", " <= ", "<-><=")
    sub(r" < ", " > ", "<->>")
    sub(r" > ", " >= ", ">->>=")
    sub(r" >= ", " > ", ">=->>")
    sub(r" <= ", " < ", "<=-><")
    sub(r" == ", " != ", "==->!=")
    sub(r" != ", " == ", "!=->==")
    sub(r" && ", " || ", "&&->||")
    sub(r" \|\| ", " && ", "||->&&")
    sub(r"\bstd::cos\b", "std::sin", "cos->sin")
    sub(r"\bstd::sin\b", "std::cos", "sin->cos")
    sub(r"\bstd::fmin\b", "std::fmax", "fmin->fmax")
    sub(r"\bstd::fmax\b", "std::fmin", "fmax->fmin")
    sub(r"_x\b", "_y", "x->y")
    sub(r"_y\b", "_x", "y->x")
    sub(r"\bm_body1\b", "m_body2", "body1->2")
    sub(r"\bm_body2\b", "m_body1", "body2->1")
    sub(r"(?<=[=(,] )-(?=[\w\(])", "", "drop-minus")
    sub(r"(?<=[=\(] )(?=[a-z]\w*( \*| \+|;))", "-", "add-minus")
    sub(r"(?<![\w.])0(?![\w.])", "1", "0->1")
    sub(r"(?<![\w.])1(?![\w.])", "0", "1->0")
    sub(r"(?<![\w.])1(?![\w.])", "2", "1->2")
    sub(r"(?<![\w.])2(?![\w.])", "1", "2->1")
    sub(r"(?<![\w.])3(?![\w.])", "2", "3->2")
    sub(r"(?<![\w.])0\.0\b", "1.0", "0.0->1.0")
    sub(r"(?<![\w.])1\.0\b", "0.5", "1.0->.5")
    sub(r"(?<![\w.])(\d+(\.\d+)?[eE]-?\d+)", r"(100 * \1)", "const*100")
    sub(r"\btrue\b", "false", "true->false")
    sub(r"\bfalse\b", "true", "false->true")
    sub(r"\+\+([ijkl])\b", r"\1 += 2", "++->+=2")
    sub(r"\bks\b", "kd", "ks->kd")
    sub(r"\bkd\b", "ks", "kd->ks")
    sub(r"\bJ_dot\b", "J", "Jdot->J")
    if t.endswith(";") and not re.match(r"^(const |double|int|long|auto|bool|return|break|continue|Matrix|float|static)", t) and code.count("(") == code.count(")"):
        out.append(("delete", re.sub(r"\S.*", ";", code.rstrip("\n"), 1)))
    return out


def domain_of(line):
    """value-triggered perturbations of a right-hand side"""
    code = line.split("//")[0]
    m = re.match(r"^(\s*(?:const )?(?:double |float )?[\w\.\[\]\(\)\->\*: +]*?\s[-+*]?=\s)([^;=]+);\s*$", code)
    out = []
    if not m or "double" not in m.group(1) and re.search(r"\bint |\bbool |\bauto |\*|nullptr|new ", code.split("=")[0] + code): return out
    if re.search(r"nullptr|\bnew\b|\btrue\b|\bfalse\b|\"", m.group(2)): return out
    for tag, body in DOM.items():
        out.append((tag, "%s([&](auto v_) -> decltype(v_) { double v = (double)v_; return %s; }(%s));" % (m.group(1), body, m.group(2))))
    return out
DOM = {"big>8": "v > 8 ? v_ * 1.01 : v_", "big<-8": "v < -8 ? v_ * 1.01 : v_", "big>60": "v > 60 || v < -60 ? v_ * 1.01 : v_", "big>2000": "v > 2000 || v < -2000 ? v_ * 1.01 : v_",
       "small": "v < 1e-3 && v > -1e-3 ? v_ * 0 : v_", "tiny": "v < 1e-6 && v > -1e-6 ? v_ * 0 : v_", "neg": "v < 0 ? v_ * 1.01 : v_", "zero": "v == 0 ? v_ + 1 : v_"}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--max", type=int, default=400)
    ap.add_argument("--files", default="*"); ap.add_argument("--work"); ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--mode", choices=["basic", "domain"], default="basic"); ap.add_argument("--headers", action="store_true")
    a = ap.parse_args()
    W = a.work or tempfile.mkdtemp(prefix="vmut-")
    R0 = os.path.join(W, "base")
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R0): subprocess.check_call(["git", "clone", "-q", "/repo", R0])
    H = {}
    for pid, sp in PROPS.items():
        for r in sp["runs"]:
            if r["src"] == pid.lower() + ".cpp" and r["config"] == "plain" and pid not in H: H[pid] = r
    ORDER = [p for p in ("C09", "C10", "C11", "C07", "C08", "C13", "C14", "C15", "C16", "C05", "C20", "C17", "C04", "C27", "C24") if p in H]
    ORDER += [p for p in H if p not in ORDER]
    shutil.copytree(HERE + "/harness", W + "/harness", dirs_exist_ok=True)

    class Slot:
        def __init__(s, k):
            s.d = os.path.join(W, "w%d" % k)
            s.R = s.d + "/repo"; s.obj = s.d + "/obj"
            if os.path.isdir(s.d): shutil.rmtree(s.d)
            os.makedirs(s.obj)
            shutil.copytree(R0, s.R)
            s.inc = ["-I", s.R + "/include", "-I", W + "/harness", "-std=gnu++17"]
            s.srcs = sorted(glob.glob(s.R + "/src/*.cpp")); s.tests = sorted(glob.glob(s.R + "/test/*.cpp"))
        def o(s, f): return os.path.join(s.obj, os.path.basename(os.path.dirname(f)) + "-" + os.path.basename(f) + ".o")
        def cc(s, f): return sh(["g++"] + FL + ["-fPIC"] + s.inc + ["-c", f, "-o", s.o(f)], 400)[0]
        def link(s): return sh(["g++", "-shared", "-o", s.d + "/libx.so"] + [s.o(f) for f in s.srcs], 100)[0]
        def build(s, everything, copy_from=None):
            hs = [W + "/harness/" + r["src"] for r in H.values()] + [W + "/harness/main.cpp"]
            for f in s.srcs + s.tests + hs:
                if copy_from: shutil.copy(copy_from.o(f), s.o(f)); continue
                if s.cc(f) != 0: return False
            return s.link() == 0 and s.exes()
        def exes(s):
            L = ["-L", s.d, "-lx", "-lpthread", "-Wl,-rpath," + s.d]
            if sh(["g++"] + [s.o(f) for f in s.tests] + ["-o", s.d + "/tests", "-lgtest", "-lgtest_main"] + L)[0]: return False
            for p, r in H.items():
                if sh(["g++", s.o(W + "/harness/" + r["src"]), s.o(W + "/harness/main.cpp"), "-o", s.d + "/bin-" + p] + L)[0]: return False
            return True
        def run_tests(s): return sh([s.d + "/tests"], 60, cwd=s.d)[0] == 0
        def run(s, p, sl):
            r = H[p]; exe = s.d + "/bin-" + p
            n = max(50, r["quick"] // sl); out = exe + ".json"
            cmd = [exe, "--seed", "1", "--from", "0", "--count", str(n), "--stride", "1", "--out", out, "--cur", exe + ".cur"]
            rc, t = sh(cmd, 30 if sl > 20 else 200, cwd=s.d, env=dict(os.environ, **r.get("env", {})))
            if rc == 0 and p == "C03":
                tr = json.load(open(out))["traces"]
                sh(cmd, 200, cwd=s.d, env=dict(os.environ, VF_FILL="255", VF_STACK="255"))
                try:
                    if json.load(open(out))["traces"] != tr: return "traces"
                except Exception: return "crash"
            return None if rc == 0 else rc
        def judge(s, first=False):
            for sl in (60, 6):
                for p in ORDER:
                    v = s.run(p, sl)
                    if v is not None: return {p: v}
            return {}

    slots = [Slot(k) for k in range(a.jobs)]
    s0 = slots[0]
    with ThreadPoolExecutor(8) as ex:
        hs = [W + "/harness/" + r["src"] for r in H.values()] + [W + "/harness/main.cpp"]
        if any(ex.map(s0.cc, s0.srcs + s0.tests + hs)): sys.exit("baseline does not build")
    if s0.link() or not s0.exes(): sys.exit("baseline does not link")
    if not s0.run_tests(): sys.exit("baseline tests fail")
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda s: s.build(True, s0), slots[1:]))
    b = s0.judge()
    print("baseline:", b, flush=True)
    if b: sys.exit("baseline not quiet")
    cand = []
    files = sorted(glob.glob(R0 + "/include/*.h")) if a.headers else sorted(glob.glob(R0 + "/src/*.cpp"))
    for f in files:
        if not fnmatch.fnmatch(os.path.basename(f), a.files): continue
        for i, l in enumerate(open(f)):
            for tag, new in (domain_of(l) if a.mode == "domain" else mutants_of(l)): cand.append((os.path.relpath(f, R0), i, tag, new))
    random.Random(a.seed).shuffle(cand)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l); done.add((d["file"], d["line"], d["tag"], d["new"]))
    todo = [x for x in cand if (os.path.basename(x[0]), x[1] + 1, x[2], x[3].strip()) not in done][:a.max]
    print(len(cand), "candidates,", len(todo), "to do", flush=True)
    import queue, threading
    free = queue.Queue(); lock = threading.Lock()
    for s in slots: free.put(s)
    def work(x):
        rel, i, tag, new = x
        s = free.get()
        try:
            f = os.path.join(s.R, rel)
            orig = open(f).read()
            L = orig.split("\n"); old = L[i]; L[i] = new.rstrip("\n")
            open(f, "w").write("\n".join(L))
            try:
                ok = s.build(True) if a.headers else s.cc(f) == 0 and s.link() == 0
                res = "nobuild" if not ok else "tests" if not s.run_tests() else s.judge()
            finally:
                open(f, "w").write(orig)
                if a.headers: [shutil.copy(s0b + "/" + os.path.basename(x), x) for x in glob.glob(s.obj + "/*.o")]
                else: s.cc(f)
            with lock:
                with open(a.out, "a") as g:
                    g.write(json.dumps(dict(file=os.path.basename(rel), line=i + 1, tag=tag, old=old.strip(), new=new.strip(), result=res)) + "\n")
                if res == {}: print("SURVIVED", os.path.basename(rel), i + 1, tag, "|", old.strip(), "=>", new.strip(), flush=True)
        finally:
            free.put(s)
    s0b = os.path.join(W, "obj0"); shutil.copytree(s0.obj, s0b, dirs_exist_ok=True)
    with ThreadPoolExecutor(a.jobs) as ex: list(ex.map(work, todo))
    if not a.work: shutil.rmtree(W)
main()
