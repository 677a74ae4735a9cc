#!/usr/bin/env python3
"""Deterministic simulation checks for yamc.

  check.py build                     build the simulator from /repo's current tree (setup_cmd)
  check.py C01 [--tier quick|thorough] [--secs S] [--seed N]
  check.py --replay FILE             re-execute a recorded violation exactly, with its event trace

Exit status: 0 held on everything explored (or, with --replay, no longer violated), 1 violation, 2 error.
"""
import argparse, concurrent.futures, fcntl, glob, hashlib, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
FLAGS_SIM = "g++ -std=c++17 -O2 -g1 -fno-pie -U_FORTIFY_SOURCE -fno-stack-protector -w".split()
FLAGS_SUT = "g++ -std=c++14 -O1 -g1 -fsanitize=thread -fno-pie -U_FORTIFY_SOURCE -w".split()
# translation units for platforms other than this one: built against stub headers; left out, with a note, if
# the headers stop compiling here (the check of C26 then says so)
OPTIONAL = {"sut_locks_fair_traced.cpp"} | {"sut_%s_clang.cpp" % n for n in ("locks_basic", "locks_fair", "locks_checked", "locks_posix", "sem_generic", "sem_posix")} | {"sut_locks_win.cpp", "sut_locks_apple.cpp", "sut_sem_win.cpp", "sut_sem_apple.cpp"}
EXTRA = {"sut_barrier.cpp": ["-fno-access-control"]}   # reaches a state only 2^32 phases would: see DESIGN.md

QUICK = {"default": 16}
THOROUGH = {"default": 600}

def die(msg):
    print("ERROR: " + msg, file=sys.stderr); sys.stderr.flush(); os._exit(2)

def read(p):
    with open(p, "rb") as f: return f.read()

def build():
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    hs = hashlib.sha256()
    for p in sorted(glob.glob(SIM + "/*.h")): hs.update(p.encode() + read(p))
    hr = hashlib.sha256(hs.digest())
    for root in (os.path.join(VERIF, "stubs"), os.path.join(REPO, "include")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs): hr.update(os.path.relpath(os.path.join(d, f), root).encode() + read(os.path.join(d, f)))
    jobs, objs = [], []
    for src in sorted(glob.glob(SIM + "/*.cpp")):
        name = os.path.basename(src); sut = name.startswith("sut_")
        cmd = (FLAGS_SUT + ["-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(REPO, "include"), "-I" + SIM] if sut else FLAGS_SIM) + EXTRA.get(name, [])
        if name.endswith("_clang.cpp"): cmd[0] = "clang++"; also = read(src.replace("_clang.cpp", ".cpp"))
        elif name.endswith("_traced.cpp"): also = read(src.replace("_traced.cpp", ".cpp"))
        else: also = b""
        key = hashlib.sha256((hr if sut else hs).digest() + read(src) + also + " ".join(cmd).replace(VERIF, "V").encode()).hexdigest()[:20]
        obj = os.path.join(BUILD, "obj", name[:-4] + "-" + key + ".o")
        objs.append((name, obj))
        if not os.path.exists(obj): jobs.append((name, cmd + ["-c", src, "-o", obj + ".tmp"], obj))
    def run(j):
        try: r = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except FileNotFoundError as e: return j[0], j[2], 1, str(e)
        if r.returncode == 0: os.rename(j[2] + ".tmp", j[2])
        return j[0], j[2], r.returncode, r.stdout
    notes, skipped = [], set()
    # biggest first
    jobs.sort(key=lambda j: -(("locks" in j[0]) * 2 + ("rt" == j[0][:2])))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for name, obj, rc, out in ex.map(run, jobs):
            if rc:
                if name in OPTIONAL:
                    skipped.add(obj); notes.append("note: %s does not compile against this tree and is left out" % name)
                else: die("compiling %s failed:\n%s" % (name, out[-4000:]))
    use = [o for n, o in objs if o not in skipped]
    exe = os.path.join(BUILD, "simcheck-" + hashlib.sha256(" ".join(os.path.basename(o) for o in use).encode()).hexdigest()[:20])
    if not os.path.exists(exe):
        r = subprocess.run(["g++", "-no-pie", "-rdynamic"] + use + ["-o", exe + ".tmp", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: die("link failed:\n" + r.stdout[-4000:])
        os.rename(exe + ".tmp", exe)
    # keep the cache small
    keep = set(use) | {exe}
    old = sorted((p for p in glob.glob(BUILD + "/obj/*.o") + glob.glob(BUILD + "/simcheck-*") if p not in keep), key=os.path.getmtime)
    for p in old[:-120]: os.unlink(p)
    for n in notes: print(n)
    print("built from %s in %.1f s (%d of %d units compiled)" % (REPO, time.time() - t0, len(jobs), len(objs)))
    sys.stdout.flush()
    lock.close()
    return exe

def known(prop):
    out = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def launch(cmd, limit):
    # address randomisation off: the simulated process must look the same in every run
    pre = ["setarch", os.uname().machine, "-R"] if False else []
    p = subprocess.Popen(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); out, _ = p.communicate(); print(out); die("simulator did not end within %d s" % limit)
    return p.returncode, out

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "build": build(); return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default="quick"); ap.add_argument("--secs", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--replay"); ap.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--maxruns", type=int); ap.add_argument("--hashes")
    a = ap.parse_args()
    exe = build()
    if a.replay:
        rc, out = launch([exe, "--replay", a.replay], 300); sys.stdout.write(out); return rc
    secs = a.secs or (THOROUGH if a.tier == "thorough" else QUICK).get(a.prop, (THOROUGH if a.tier == "thorough" else QUICK)["default"])
    kn = known(a.prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True); os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", a.prop + ".json")
    if os.path.exists(ev): os.unlink(ev)
    cmd = [exe, "--prop", a.prop, "--seed", str(a.seed), "--secs", str(secs), "--workers", str(a.workers), "--tier", a.tier,
           "--minruns", str(300000 if a.tier == "quick" else 0), "--evidence", ev, "--replaydir", os.path.join(VERIF, "out"), "--minms", "20000"]
    if kn: cmd += ["--known", ",".join(kn)]
    if a.maxruns: cmd += ["--maxruns", str(a.maxruns)]
    if a.hashes: cmd += ["--hashes", a.hashes]
    rc, out = launch(cmd, secs * 5 + 300)
    hits = dict(re.findall(r"^known-hits (\S+) (\d+)$", out, re.M))
    sys.stdout.write(re.sub(r"^known-hits .*\n", "", out, flags=re.M))
    for k, what in kn.items():
        if int(hits.get(k, 0)): print("KNOWN-FINDING: property=%s %s (seen in %s waits of this run)" % (a.prop, what, hits[k]))
        else: print("note: known finding %s of %s was not observed" % (k, a.prop))
    if rc not in (0, 1): die("simulator ended with status %d" % rc)
    if rc == 1 and not re.search(r"^VIOLATION property=%s replay=\S+$" % a.prop, out, re.M): die("no violation line")
    return rc

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
