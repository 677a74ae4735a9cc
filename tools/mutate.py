#!/usr/bin/env python3
"""Developer tool: mutation sweep over /repo/include (scratch copies only), lists mutants no check reports.
usage: mutate.py WORKDIR [--files a.hpp,b.hpp] [--secs S] [--skip-done] [--list]"""
import sys, os, re, subprocess, json, shutil, argparse, hashlib, time
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser(); ap.add_argument("work"); ap.add_argument("--files"); ap.add_argument("--secs", default="2"); ap.add_argument("--list", action="store_true"); ap.add_argument("--only"); ap.add_argument("--sample", type=float, default=1); ap.add_argument("--redo", action="store_true"); ap.add_argument("--full", action="store_true"); ap.add_argument("--workers", default="8")
A = ap.parse_args()
HERE = os.path.dirname(os.path.abspath(__file__)); SIM = os.path.join(HERE, "..", "sim"); INC = "/repo/include"
W = A.work; os.makedirs(W, exist_ok=True); OBJ = os.path.join(W, "obj"); os.makedirs(OBJ, exist_ok=True)
SUTC = "g++ -std=c++14 -O1 -g1 -fsanitize=thread -fno-pie -U_FORTIFY_SOURCE -w".split()
SIMC = "g++ -std=c++17 -O2 -g1 -fno-pie -U_FORTIFY_SOURCE -fno-stack-protector -w".split()
def cc(src, inc, out):
    b = os.path.basename(src); c = SUTC if b.startswith("sut_") else SIMC
    c = c + (["-fno-access-control"] if b == "sut_barrier.cpp" else []) + ["-I" + os.path.join(HERE, "..", "stubs"), "-I" + inc, "-I" + SIM, "-MMD", "-MF", out + ".d", "-c", src, "-o", out]
    if b.endswith("_clang.cpp"): c[0] = "clang++"
    return subprocess.run(c, capture_output=True, text=True)
srcs = sorted(os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith(".cpp"))
def base_build():
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda s: cc(s, INC, os.path.join(OBJ, os.path.basename(s)[:-4] + ".o")), srcs))
    assert all(r.returncode == 0 for r in rs), [r.stderr[:500] for r in rs if r.returncode]
def deps(src):
    return set(os.path.basename(x) for x in open(os.path.join(OBJ, os.path.basename(src)[:-4] + ".o.d")).read().replace("\\\n", " ").split()[1:])
ORDER = {"sem": "C17 C18 C26 C03 C24", "barrier": "C20 C21 C03 C24", "latch": "C19 C03 C24", "shared_lock": "C22", "scoped": "C23", "backoff": "C25 C01", "spin": "C01 C03 C06 C25 C04", "checked_mutex": "C13 C14 C15 C16 C05 C07 C01 C06", "checked_shared": "C13 C14 C15 C16 C07 C02 C12 C06", "validator": "C14 C15 C16 C13", "fair_mutex": "C08 C07 C05 C01", "fair_shared": "C09 C10 C02 C07 C08", "alternate": "C01 C02 C05 C07", "native": "C26 C07 C05 C02", "rwlock": "C11 C12 C02 C04"}
def order(f): 
    o = []
    for k, v in ORDER.items():
        if k in f: o += [x for x in v.split() if x not in o]
    return o + [p for p in PROPS if p not in o]
PROPS = [l.strip() for l in open(os.path.join(HERE, "..", "claimed.txt")) if l.strip()]
def code_lines(t):
    out = []; blk = False
    for i, l in enumerate(t.split("\n")):
        s = l.strip()
        if s.startswith("/*"): blk = True
        if not blk and s and not s.startswith(("//", "#", "assert", "static_assert", "YAMC_DEBUG", "using ", "namespace", "template", "}", "{")) : out.append(i)
        if "*/" in s: blk = False
    return out
SUB = [(r"==", "!="), (r"!=", "=="), (r"(?<![<])<(?![<=])(?=[ ])", "<="), (r"<= ", "< "), (r"0 < ", "0 <= "), (r"\+\+", "--"), (r"--", "++"), (r"\+= ", "-= "), (r"-= ", "+= "),
       (r"&& ", "|| "), (r"\|\| ", "&& "), (r"notify_all", "notify_one"), (r"memory_order_acquire", "memory_order_relaxed"), (r"memory_order_release", "memory_order_relaxed"),
       (r"\bwhile \(", "if ("), (r"return true", "return false"), (r"return false", "return true"), (r"\(!", "("), (r"if \((.*)\)$", r"if (!(\1))"), (r"steady_clock", "system_clock"),
       (r"system_clock::now", "steady_clock::now"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b0\b", "1"), (r"\b3\b", "1"), (r"push_back\(", "push_front("), (r"push_front\(", "push_back("), (r"->next", "->prev"), (r"->prev", "->next"),
       (r"= true", "= false"), (r"= false", "= true"), (r", false\)", ", true)"), (r"compare_exchange_weak\(expected, 1", "compare_exchange_weak(expected, 0"), (r" \| ", " & "), (r" & ", " | "), (r"ETIMEDOUT", "EAGAIN"), (r"EINTR", "EAGAIN"), (r"unlock_shared", "unlock"), (r"try_lock_shared\(", "try_lock("), (r"\brhs\.", "")]
def mutants(f, t):
    L = t.split("\n"); seen = set()
    for i in code_lines(t):
        l = L[i]; s = l.split("//")[0].rstrip()
        cands = []
        if s.endswith(";") and not re.match(r"\s*(return|throw|static|const |std::|auto |::|bool |typename|struct|int |DWORD|BOOL|long|node|mutex_type|unsigned|template|CompletionFunction|break;)", s) and "= default" not in s and "= delete" not in s: cands.append(("del", ""))
        for a, b in SUB:
            for m in re.finditer(a, s): cands.append(("%s->%s" % (a, b), s[:m.start()] + m.expand(b) + s[m.end():]))
        for d, n in cands:
            if n.strip() == s.strip() or (i, n) in seen: continue
            seen.add((i, n)); yield i + 1, d, "\n".join(L[:i] + [n] + L[i + 1:]), s.strip(), n.strip()
def main():
    files = A.files.split(",") if A.files else sorted(os.listdir(INC))
    if A.list:
        for f in files: print(f, sum(1 for _ in mutants(f, open(os.path.join(INC, f)).read())))
        return
    base_build(); D = {s: deps(s) for s in srcs}
    log = os.path.join(W, "results.jsonl"); done = set()
    if os.path.exists(log) and not A.redo: done = set(json.loads(x)["id"] for x in open(log))
    inc = os.path.join(W, "inc")
    for f in files:
        t = open(os.path.join(INC, f)).read()
        for ln, d, nt, old, new in list(mutants(f, t)):
            mid = hashlib.sha1((f + str(ln) + old + new).encode()).hexdigest()[:10]
            if mid in done or (A.only and mid != A.only): continue
            if A.sample < 1 and int(mid[:4], 16) / 65536 > A.sample: continue
            if os.path.exists(inc): shutil.rmtree(inc)
            shutil.copytree(INC, inc); open(os.path.join(inc, f), "w").write(nt)
            aff = [s for s in srcs if f in D[s]]
            mo = os.path.join(W, "mobj"); os.makedirs(mo, exist_ok=True)
            with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda s: cc(s, inc, os.path.join(mo, os.path.basename(s)[:-4] + ".o")), aff))
            rec = {"id": mid, "file": f, "line": ln, "op": d, "old": old, "new": new}
            if any(r.returncode for r in rs): rec["status"] = "nocompile"
            else:
                objs = [os.path.join(mo if s in aff else OBJ, os.path.basename(s)[:-4] + ".o") for s in srcs]
                exe = os.path.join(W, "simmut"); r = subprocess.run(["g++", "-no-pie", "-rdynamic"] + objs + ["-o", exe, "-lpthread"], capture_output=True, text=True); assert r.returncode == 0, r.stderr
                rec["killed"] = {}
                for p in order(f):
                    try: r = subprocess.run([exe, "--prop", p, "--seed", "7", "--secs", A.secs, "--workers", A.workers, "--evidence", W + "/ev.json", "--replaydir", W + "/rp", "--minms", "0", ] + (["--known", "arrive_and_drop_waits"] if p == "C21" else []), capture_output=True, text=True, errors="replace", timeout=60)
                    except subprocess.TimeoutExpired: rec["killed"][p] = "TIMEOUT"; continue
                    if r.returncode: rec["killed"][p] = (re.search(r"violation: (.*)", r.stdout) or [0, r.stdout[-100:] + r.stderr[-200:]])[1][:120]
                    if rec["killed"] and not A.full: break
                rec["status"] = "killed" if rec["killed"] else "SURVIVED"
            open(log, "a").write(json.dumps(rec) + "\n")
            print(rec["status"], f, ln, old, "=>", new, sorted(rec.get("killed", {})), flush=True)
main()
