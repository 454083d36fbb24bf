#!/usr/bin/env python3
"""Makes and confirms planted bugs: mkseed.py FILE...  Each FILE is Python with a list S of dicts
id, property, edits=[(file, old, new)], demo (C++ text with a main), needs, breaks, [std], [flags].
Works on /repo (clean before and after): patch, build, stable tests, demo with and without."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = "4d66042"
DEMO = r'''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
{flags_note}g++ -std={std} {flags} -I src -I src_deps "$d/demo.cpp" src/utki/*.cpp -o "$t/demo" -pthread || exit 3
timeout 60 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh("git -C %s checkout -- ." % R)
def main():
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo not clean"
    only = [a[1:] for a in sys.argv[1:] if a.startswith("=")]
    for fn in [a for a in sys.argv[1:] if not a.startswith("=")]:
        ns = {}
        exec(open(fn).read(), ns)
        for s in ns["S"]:
            if only and s["id"] not in only: continue
            d = os.path.join(V, "seeded", s["id"])
            if os.path.exists(os.path.join(d, "meta.json")) and not only: continue
            os.makedirs(d, exist_ok=True)
            open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
            open(d + "/demo.sh", "w").write(DEMO.format(std=s.get("std", "c++17"), flags=s.get("flags", "-O1"), flags_note=""))
            os.chmod(d + "/demo.sh", 0o755)
            ok = True
            before = sh("bash %s/demo.sh" % d, cwd=R)
            if before.returncode != 0: print(s["id"], "demo fails on the unchanged tree:", before.returncode, (before.stderr + before.stdout)[-600:]); ok = False
            for f, old, new in s["edits"]:
                p = os.path.join(R, f); t = open(p).read()
                if t.count(old) != 1: print(s["id"], f, "text found", t.count(old), "times"); ok = False; continue
                ln = t[:t.index(old)].count("\n") + 1
                bl = sh("git -C %s blame -s -L %d,%d -- %s" % (R, ln, ln + old.rstrip("\n").count("\n"), f)).stdout
                b = sh("git -C %s rev-parse --short=7 %s" % (R, BASE)).stdout.strip()
                open(p, "w").write(t.replace(old, new))
                for l in bl.splitlines():
                    if not l.lstrip("^").startswith(b[:7]): print(s["id"], "note: region has a line of a fix:", l[:100])
            diff = sh("git -C %s diff" % R).stdout
            open(d + "/patch.diff", "w").write(diff)
            # removed lines must be lines of the original repository
            if ok:
                t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
                try: res = json.load(open("/tmp/seed_out.json"))
                except Exception: res = {"passed": []}
                if len(res["passed"]) < 2: print(s["id"], "build or tests fail", (t.stdout + t.stderr)[-800:]); ok = False
                after = sh("bash %s/demo.sh" % d, cwd=R)
                if after.returncode == 0: print(s["id"], "demo passes with the patch"); ok = False
                if after.returncode == 3: print(s["id"], "demo does not compile with the patch", after.stderr[-600:]); ok = False
            clean()
            if ok:
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                print(s["id"], "ok (demo rc %d)" % after.returncode)
            else:
                sh("rm -rf "+V+"/seeded/" + s["id"])
    sh("bash /opt/vp/build.sh")
main()
