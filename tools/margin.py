#!/usr/bin/env python3
"""Developer tool: how soon does each planted bug's own property report it? usage: margin.py SIMDIR_MK WORK [seeds]
Builds each planted bug in WORK with the build script SIMDIR_MK (env REPO, output WORK/simcheck) and runs the property
with several seeds until the first violation; prints the seconds taken (- : none within 16 s)."""
import json, os, re, subprocess, sys, time, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
mk, W = sys.argv[1], sys.argv[2]; seeds = int(sys.argv[3]) if len(sys.argv) > 3 else 3
only = sys.argv[4:]
os.makedirs(W + "/rp", exist_ok=True)
for d in sorted(os.listdir(V + "/seeded")):
    if only and d not in only: continue
    p = json.load(open(V + "/seeded/%s/meta.json" % d))["property"]
    shutil.rmtree(W + "/t", ignore_errors=True); os.mkdir(W + "/t"); shutil.copytree("/repo/include", W + "/t/include")
    if subprocess.call("patch -s -p1 < %s/seeded/%s/patch.diff" % (V, d), shell=True, cwd=W + "/t"): print(d, "does not apply"); continue
    subprocess.call("rm -f %s/o/sut_*.o; REPO=%s/t bash %s > %s/mk.log 2>&1" % (W, W, mk, W), shell=True)
    ts = []
    for s in range(1, seeds + 1):
        t = time.time()
        o = subprocess.run([W + "/simcheck", "--prop", p, "--seed", str(s * 101), "--secs", "16", "--workers", "8", "--evidence", W + "/ev.json", "--replaydir", W + "/rp", "--minms", "1"]
                           + (["--known", "arrive_and_drop_waits"] if p == "C21" else []), capture_output=True, text=True).stdout
        m = re.search(r"in ([\d.]+) s", o)
        ts.append(m.group(1) if "VIOLATION" in o and m else "-")
    print("%-48s %s %s" % (d, p, " ".join(ts)), flush=True)
