#!/usr/bin/env python3
"""Runs the check of each planted bug against a scratch copy of /repo with the bug applied: seedrun.py [-j N] [id...]
Works on copies of /verif and /repo's HEAD under /tmp/seedrun, so /repo stays untouched."""
import json, os, subprocess, sys, time, queue, threading, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrun"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
args = sys.argv[1:]
n = 3
if args[:1] == ["-j"]: n = int(args[1]); args = args[2:]
src = V + "/seeded"
if args and args[0].startswith("/"): src = args[0]; args = args[1:]
ids = args or sorted(i for i in os.listdir(src) if os.path.exists(src + "/" + i + "/patch.diff"))
q = queue.Queue()
for i in ids: q.put(i)
missed, lock = [], threading.Lock()
def worker(k):
    w = "%s/%d-%d" % (W, os.getpid(), k)
    os.makedirs(w)
    sh("cp -a --reflink=auto /repo %s/repo && git -C %s/repo checkout -q -f HEAD -- ." % (w, w))
    sh("mkdir %s/verif && cd %s && cp -a engine harness models vp tools known_findings.txt *.json* %s/verif/ && mkdir -p %s/verif/build && cp -a build/engine %s/verif/build/" % (w, V, w, w, w))
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        d = src + "/" + i
        prop = json.load(open(d + "/meta.json"))["property"] if os.path.exists(d + "/meta.json") else i[:3]
        a = sh("git -C %s/repo apply %s/patch.diff" % (w, d))
        if a.returncode: print(i, "patch does not apply", a.stderr, flush=True); continue
        t = time.time()
        r = sh("VP_REPO=%s/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 vp/check.py %s --tier quick" % (w, prop), cwd=w + "/verif")
        sh("git -C %s/repo checkout -q -f HEAD -- ." % w)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = r.returncode == 1 and any("property=%s " % prop in l for l in v)
        with lock:
            if not ok: missed.append(i)
            print("%-26s %s rc=%d %3.0f s  %s" % (i, "caught" if ok else "MISSED", r.returncode, time.time() - t, (v[0] if v else (r.stdout + r.stderr)[-300:].replace("\n", " | "))[:300]), flush=True)
    shutil.rmtree(w)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(n)]
for t in ts: t.start()
for t in ts: t.join()
print("missed:", sorted(missed))
