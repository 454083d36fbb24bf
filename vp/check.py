#!/usr/bin/env python3
"""Solver-based check of one property of cppfw/utki.

usage: check.py Cnn [--tier quick|thorough] [--keep] [--entry NAME] [--config CFG]

Compiles the harness and /repo's current sources to LLVM IR, executes every harness entry
symbolically (engine/vse, Z3 decides every branch and assertion), replays counterexamples and a sample of
the completed paths against a native build of the same sources, and writes evidence/Cnn.json.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++-18"
LINK = next((p for p in ("/usr/bin/llvm-link-18", "/usr/bin/llvm-link", "/usr/lib/llvm-18/bin/llvm-link") if os.path.exists(p)), "llvm-link")
NM = next((p for p in ("/usr/lib/llvm-18/bin/llvm-nm", "/usr/bin/llvm-nm-18") if os.path.exists(p)), "llvm-nm")
sys.path.insert(0, os.path.join(VERIF, "vp"))
from props import PROPS, COMMON_ASSUMPTIONS

T0 = time.time()
NCPU = os.cpu_count() or 4
CONFIGS = {
    "r17": ["-std=c++17"],
    "d17": ["-std=c++17", "-DDEBUG"],
    "r20": ["-std=c++20"],
}
CONFIG_TEXT = {"r17": "C++17 release", "d17": "C++17 with -DDEBUG", "r20": "C++20 release"}
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-w",
           "-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow", "-fsanitize-trap=all"]
MODELFLAGS = ["-O1", "-w", "-fno-access-control", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only"]
NATIVE = {
    "asan": ["g++", "-O1", "-g1", "-w", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-DVP_ASAN"],
    "plain": ["g++", "-O2", "-w"],
    "tsan": ["g++", "-O1", "-g1", "-w", "-fsanitize=thread", "-DVP_NO_NEW"],
}
PROCS = set()
LOCK = threading.Lock()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    with LOCK:
        PROCS.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return -999, out.decode("utf-8", "replace")
    finally:
        with LOCK:
            PROCS.discard(p)


class Broken(Exception):
    pass


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = run(["make", "-s", "-C", os.path.join(VERIF, "engine"), "-j%d" % NCPU])
        if rc:
            raise Broken("engine does not build:\n" + out[-3000:])


def file_hash(h, path):
    h.update(path.encode())
    with open(path, "rb") as f:
        h.update(f.read())


def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "utki", "*.cpp")))


def tree_hash(extra):
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            file_hash(h, os.path.join(d, f))
    for f in extra:
        file_hash(h, f)
    return h


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.p = PROPS[pid]
        self.harness = os.path.join(VERIF, "harness", pid + ".cpp")
        hh = sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))) + [os.path.join(VERIF, "models", "models.cpp"), os.path.join(VERIF, "vp", "native_rt.cpp"), self.harness]
        h = tree_hash(hh)
        h.update(repr((tier, REPO, IRFLAGS, MODELFLAGS, NATIVE, CONFIGS)).encode())
        self.dir = os.path.join(BUILD, "cache", pid + "-" + h.hexdigest()[:20])
        os.makedirs(self.dir, exist_ok=True)
        self.inc = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "src"), "-isystem", os.path.join(REPO, "src_deps"),
                    "-DVP_TIER=%d" % (1 if tier == "thorough" else 0)]

    # --- IR
    def models(self, cfg):
        std = CONFIGS[cfg][0]
        src = os.path.join(VERIF, "models", "models.cpp")
        h = hashlib.sha256()
        file_hash(h, src)
        h.update(repr((std, MODELFLAGS)).encode())
        out = os.path.join(BUILD, "models-%s-%s.bc" % (std[-2:], h.hexdigest()[:12]))
        if not os.path.exists(out):
            with open(out + ".lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                if not os.path.exists(out):
                    tmp = out + ".tmp%d" % os.getpid()
                    rc, o = run([CLANG, std] + MODELFLAGS + ["-emit-llvm", "-c", src, "-o", tmp])
                    if rc:
                        raise Broken("models do not compile:\n" + o[-3000:])
                    os.rename(tmp, out)
        return out

    def compile_ir(self, cfg, src):
        out = os.path.join(self.dir, "%s-%s.bc" % (cfg, os.path.basename(src)))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            rc, o = run([CLANG] + CONFIGS[cfg] + IRFLAGS + self.inc + self.p.get("flags", []) + ["-emit-llvm", "-c", src, "-o", tmp])
            if rc:
                raise Broken("%s does not compile to IR (%s):\n%s" % (src, cfg, o[-3000:]))
            os.rename(tmp, out)
        return out

    def link_ir(self, cfg, parts):
        out = os.path.join(self.dir, cfg + ".linked.bc")
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            rc, o = run([LINK] + parts + ["-o", tmp])
            if rc:
                raise Broken("llvm-link failed (%s):\n%s" % (cfg, o[-3000:]))
            os.rename(tmp, out)
        return out

    def entries(self, bc):
        rc, o = run([NM, "--defined-only", bc])
        pre = self.pid.lower() + "_"
        return sorted({w for l in o.splitlines() for w in l.split()[-1:] if w.startswith(pre)})

    # --- native
    def native_obj(self, cfg, kind, src):
        out = os.path.join(self.dir, "n-%s-%s-%s.o" % (cfg, kind, os.path.basename(src)))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            std = [("-std=c++17" if os.path.basename(src) == "native_rt.cpp" else CONFIGS[cfg][0])] + CONFIGS[cfg][1:]
            rc, o = run(NATIVE[kind] + std + self.inc + self.p.get("flags", []) + ["-DVP_NATIVE", "-c", src, "-o", tmp])
            if rc:
                raise Broken("%s does not compile natively (%s %s):\n%s" % (src, cfg, kind, o[-3000:]))
            os.rename(tmp, out)
        return out

    def native_sources(self):
        return [self.harness, os.path.join(VERIF, "vp", "native_rt.cpp")] + repo_sources()

    def native_link(self, cfg, kind, objs):
        out = os.path.join(self.dir, "n-%s-%s.exe" % (cfg, kind))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            rc, o = run(NATIVE[kind] + objs + ["-o", tmp, "-lpthread"] + self.p.get("native_libs", []))
            if rc:
                raise Broken("native link failed (%s %s):\n%s" % (cfg, kind, o[-3000:]))
            os.rename(tmp, out)
        return out


NATIVE_ENV = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=64",
                  UBSAN_OPTIONS="exitcode=99:print_stacktrace=1:halt_on_error=1", TSAN_OPTIONS="exitcode=99:halt_on_error=1:second_deadlock_stack=1", LC_ALL="C", TZ="UTC")


def write_record(path, sample):
    with open(path, "w") as f:
        for s in sample["syms"]:
            f.write("%s %d %d %s\n" % (s["name"].replace(" ", "_"), 1 if s["choice"] else 0, len(s["vals"]), " ".join(map(str, s["vals"]))))


def parse_traces(out):
    """multi-file mode output -> {file: (code, [(obs name, hex)], text)}"""
    res, cur, obs, txt = {}, None, [], []
    for l in out.splitlines():
        if l.startswith("TRACE "):
            cur, obs, txt = l[6:], [], []
        elif l.startswith("EXIT "):
            _, f, c = l.split(" ")
            res[f] = (int(c), obs, "\n".join(txt))
            obs, txt = [], []
        elif l.startswith("OBS "):
            x = l.split(" ")
            obs.append([x[1], x[2] if len(x) > 2 else ""])
        else:
            txt.append(l)
    return res


KEY = re.compile(r"VP_ASSERT_FAILED|ERROR:|runtime error|WARNING: ThreadSanitizer|terminate called|what\(\):|CHILD")
FAIL_CODES = {42, 46, 99}


def is_failure(code):
    # 42 assertion, 46 child crash, 99 sanitizer, signals (1000+n in multi mode, negative in single mode)
    return code in FAIL_CODES or (code >= 1000 and code != 1000 + signal.SIGKILL) or (code < 0 and code not in (-999, -9))


def load_known():
    known = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            m = re.match(r"known: property=(\S+) entry=(\S+) match=(.+?) :: (.*)$", l)
            if m:
                known.append({"property": m.group(1), "entry": m.group(2), "match": m.group(3), "what": m.group(4)})
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--entry")
    ap.add_argument("--config")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = PROPS[pid]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evfile = os.path.join(VERIF, "evidence", pid + ".json")
    rdir = os.path.join(VERIF, "evidence", "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    budget = a.budget or (p.get("budget", 420) if tier == "quick" else 3300)
    cfgs = p.get("configs") or list(CONFIGS)
    if isinstance(cfgs, dict):
        cfgs = cfgs[a.tier]
    if a.config:
        cfgs = [a.config]
    try:
        # trim old cache entries
        cd = os.path.join(BUILD, "cache")
        if os.path.isdir(cd):
            olds = sorted((os.path.join(cd, d) for d in os.listdir(cd)), key=lambda d: os.path.getmtime(d))
            for d in olds[:-80]:
                shutil.rmtree(d, ignore_errors=True)
        c = Ctx(pid, tier)
        os.utime(c.dir)
        pool = cf.ThreadPoolExecutor(NCPU)
        npool = cf.ThreadPoolExecutor(max(2, NCPU // 2))
        eng = threading.Thread(target=lambda: None)
        build_engine()
        log("engine ready")
        fm = {cfg: pool.submit(c.models, cfg) for cfg in cfgs}
        fi = {cfg: [pool.submit(c.compile_ir, cfg, s) for s in [c.harness] + repo_sources()] for cfg in cfgs}
        linked = {}
        for cfg in cfgs:
            linked[cfg] = c.link_ir(cfg, [f.result() for f in fi[cfg]] + [fm[cfg].result()])
        log("IR ready")
        nat = {}

        def native(cfg, kind):
            with LOCK:
                k = (cfg, kind)
                if k not in nat:
                    fs = [npool.submit(c.native_obj, cfg, kind, s) for s in c.native_sources()]
                    nat[k] = [fs, None, threading.Lock()]
            e = nat[k]
            with e[2]:
                if e[1] is None:
                    e[1] = c.native_link(cfg, kind, [f.result() for f in e[0]])
            return e[1]

        vkind = p.get("native", "asan")
        # symbolic execution
        jobs = []
        weights = p.get("weights", {})
        for cfg in cfgs:
            for e in c.entries(linked[cfg]):
                if a.entry and e != a.entry:
                    continue
                if e in p.get("only", {}) and cfg not in p["only"][e]:
                    continue
                jobs.append((cfg, e))
        if not jobs:
            raise Broken("no entries")
        jobs.sort(key=lambda j: -weights.get(j[1], 1))
        end = time.time() + budget
        dumpdir = os.path.join(c.dir, "smt2")
        shutil.rmtree(dumpdir, ignore_errors=True)

        def engine_job(cfg, e):
            out = os.path.join(c.dir, "%s-%s.json" % (cfg, e))
            if os.path.exists(out):
                os.unlink(out)
            left = end - time.time()
            dd = os.path.join(dumpdir, cfg + "-" + e)
            os.makedirs(dd, exist_ok=True)
            cmd = [os.path.join(BUILD, "engine", "vse"), linked[cfg], "--entry", e, "--out", out, "--time", "%.0f" % max(15, min(left, p.get("entry_time", 100000))),
                   "--solver-timeout", str(p.get("solver_timeout", 20000 if tier == "quick" else 120000)),
                   "--samples", str(p.get("samples", 24)), "--seed", str(seed), "--steps", str(p.get("steps", 3000000)),
                   "--dump", dd, "--dump-every", "97" if tier == "quick" else "31", "--dump-max", "6" if tier == "quick" else "20"] + (["--merge"] if p.get("merge") else [])
            rc, o = run(cmd, timeout=max(30, left + 60))
            try:
                d = json.load(open(out))
            except Exception:
                d = {"entry": e, "fatal": "engine failed rc=%s: %s" % (rc, o[-400:]), "paths": 0, "violations": [], "samples": [], "truncated": {}, "functions": [], "reached": {}}
            d["config"] = cfg
            d["stderr"] = o[-500:]
            return d

        futs = [pool.submit(engine_job, cfg, e) for cfg, e in jobs]
        # natively build for sample validation meanwhile
        nfut = {cfg: npool.submit(lambda: None) for cfg in cfgs}
        for cfg in cfgs:
            threading.Thread(target=lambda cfg=cfg: native_quiet(native, cfg, vkind), daemon=True).start()
        results = [f.result() for f in futs]
        log("symbolic execution done: %d runs, %d paths, %d solver calls, %.1f s solver" % (len(results), sum(r.get("paths", 0) for r in results), sum(r.get("solver_calls", 0) for r in results), sum(r.get("solver_ms", 0) for r in results) / 1000))
        for r in results:
            if r["fatal"]:
                log("  fatal", r["config"], r["entry"], r["fatal"])
            if r["truncated"]:
                log("  truncated", r["config"], r["entry"], r["truncated"])
            if r.get("wall_s", 0) > 20:
                log("  slow", r["config"], r["entry"], "%.1fs" % r["wall_s"], r["paths"], "paths")

        confirmed, unconfirmed, validated, mismatches, validated_samples = [], [], 0, [], []

        def confirm(cfg, entry, rec, kind):
            """replay one recorded input natively; returns a description when it fails"""
            kinds = ["tsan", "plain"] if kind in ("race", "deadlock") or p.get("threads") else ["asan", "plain"]
            for nk in kinds:
                exe = native(cfg, nk)
                for rep in range(p.get("stress", 1)):
                    rc, o = run([exe, entry, rec], timeout=p.get("native_timeout", 20), env=NATIVE_ENV)
                    if rc == -999 and kind in ("nontermination", "deadlock", "recursion"):
                        return "%s: does not terminate" % nk
                    if is_failure(rc):
                        key = [l for l in o.splitlines() if KEY.search(l)]
                        return "%s exit %s: %s" % (nk, rc, " / ".join(key[:3])[:400] if key else o[-300:])
            return None

        n = 0
        for r in results:
            for v in r["violations"]:
                n += 1
                rec = os.path.join(rdir, "v%03d-%s-%s.rec" % (n, r["config"], r["entry"]))
                write_record(rec, v)
                v["config"], v["entry"], v["record"] = r["config"], r["entry"], rec
        allv = [v for r in results for v in r["violations"]]
        for v, f in [(v, npool.submit(lambda: None)) for v in allv]:
            if len(confirmed) >= 8:
                break
            d = confirm(v["config"], v["entry"], v["record"], v["kind"])
            if not d and p.get("threads") and v["kind"] in ("race", "deadlock", "assert"):
                # a schedule cannot be forced on the native threads: the explored schedule is the counterexample
                d = "not forced natively; the schedule below is the counterexample"
            v["native"] = d
            (confirmed if d else unconfirmed).append(v)
            log("candidate [%s] %s %s: %s at %s -> native: %s" % (v["kind"], v["config"], v["entry"], v["msg"], v["where"][:160], d or "not reproduced"))

        # validate samples against the native build
        def validate(r):
            if not r["samples"]:
                return 0, [], []
            d = os.path.join(c.dir, "rec-%s-%s" % (r["config"], r["entry"]))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            files = []
            for i, s in enumerate(r["samples"]):
                fn = os.path.join(d, "s%03d.rec" % i)
                write_record(fn, s)
                files.append(fn)
            if len(files) == 1:
                files = files + files
            rc, o = run([native(r["config"], vkind), r["entry"]] + files, timeout=300, env=NATIVE_ENV)
            t = parse_traces(o)
            good, bad, sm = 0, [], []
            for fn, s in zip(files, r["samples"]):
                if fn not in t:
                    continue
                code, obs, txt = t[fn]
                if code == 0 and obs == [list(x) for x in s["obs"]]:
                    good += 1
                    if len(sm) < 1:
                        sm.append({"entry": r["entry"], "config": r["config"], "inputs": [[x["name"], x["vals"][:24]] for x in s["syms"]][:16], "observed": s["obs"][:6]})
                elif is_failure(code):
                    bad.append(("fail", fn, s, "exit %d: %s" % (code, (" / ".join(l for l in txt.splitlines() if KEY.search(l))[:500] or txt[-300:]))))
                else:
                    bad.append(("mismatch", fn, s, "exit %d native obs %s engine obs %s %s" % (code, obs[:6], s["obs"][:6], txt[-300:])))
            return good, bad, sm

        for r, f in [(r, npool_submit(pool, validate, r)) for r in results]:
            good, bad, sm = f.result()
            validated += good
            validated_samples += sm
            for kind, fn, s, d in bad:
                if kind == "fail":
                    # the real code fails on this input although the symbolic path passed: a violation seen natively
                    rec = os.path.join(rdir, "n%03d-%s-%s.rec" % (len(confirmed), r["config"], r["entry"]))
                    shutil.copy(fn, rec)
                    confirmed.append({"kind": "native", "msg": d, "where": "", "config": r["config"], "entry": r["entry"], "record": rec, "native": d})
                    if len(confirmed) < 12:
                        log("native failure on a sampled path:", r["config"], r["entry"], d[:300])
                else:
                    mismatches.append([r["config"], r["entry"], d])
                    if len(mismatches) <= 6:
                        log("native mismatch", r["config"], r["entry"], d[:400])

        # cross-check of dumped queries with independent solvers
        cross = cross_check(dumpdir, tier, npool)
    except Broken as ex:
        print("CHECK-ERROR property=%s %s" % (pid, ex), flush=True)
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "error": str(ex)}, "wall_s": time.time() - T0, "violations": 0}, open(evfile, "w"), indent=1)
        kill_all()
        os._exit(2)

    known = load_known()
    reported, knownhit = [], []
    for v in confirmed:
        k = next((k for k in known if k["property"] == pid and k["entry"] in (v["entry"], "*") and re.search(k["match"], v["msg"] + " " + v["where"] + " " + (v["native"] or ""))), None)
        (knownhit.append((k, v)) if k else reported.append(v))
    for what in sorted({k["what"] for k, _ in knownhit}):
        print("KNOWN-FINDING: property=%s %s" % (pid, what), flush=True)

    S = lambda k: sum(r.get(k, 0) for r in results)
    fns = sorted({f for r in results for f in r["functions"]})
    trunc = {}
    for r in results:
        for k, n in r["truncated"].items():
            trunc["%s/%s: %s" % (r["config"], r["entry"], k)] = n
        if r["fatal"]:
            trunc["%s/%s: FATAL %s" % (r["config"], r["entry"], r["fatal"])] = 1
    vac = ["%s/%s" % (r["config"], r["entry"]) for r in results if r["paths"] == 0]
    cov = {
        "states": S("paths") + S("pruned"),
        "transitions": S("instructions"),
        "traces_validated_against_impl": validated,
        "samples": validated_samples[:12] + [{"entry": v["entry"], "violation": v["msg"]} for v in confirmed[:4]],
        "meaning": "states: symbolic paths (each a solver-decided class of inputs) explored; transitions: IR instructions executed symbolically; traces: completed paths whose solver model was replayed on the native build with equal observations and no sanitizer report",
        "paths_completed": S("paths"), "paths_pruned_by_assumption": S("pruned"), "branch_forks": S("forks"),
        "assertions_checked": S("asserts"), "assertions_symbolic": S("asserts_symbolic"),
        "queries": S("queries"), "solver_calls": S("solver_calls"), "solver_sat": S("sat"), "solver_unsat": S("unsat"), "solver_unknown": S("unknown"), "solver_cache_hits": S("cache_hits"), "fp_queries": S("fp_queries"),
        "solver_time_s": round(S("solver_ms") / 1000, 3),
        "path_feasibility_confirmed_by_solver": S("path_feasible"),
        "schedule_points": S("sched_points"),
        "second_solver": cross,
        "functions_encoded": fns,
        "bounds": p["bounds"][1 if tier == "thorough" else 0] if isinstance(p["bounds"], (list, tuple)) else p["bounds"],
        "outside_bounds": p.get("outside", ""),
        "configs": [CONFIG_TEXT[x] for x in cfgs],
        "entries": [{"entry": r["entry"], "config": r["config"], "paths": r["paths"], "solver_calls": r.get("solver_calls", 0), "wall_s": round(r.get("wall_s", 0), 2), "reached": r["reached"]} for r in results],
        "incomplete": trunc,
        "exhaustive_within_bounds": not trunc and not vac,
        "unreproduced_candidates": [{"kind": v["kind"], "msg": v["msg"], "where": v["where"], "entry": v["entry"], "config": v["config"]} for v in unconfirmed],
        "native_mismatches": mismatches,
        "known_findings_hit": sorted({k["what"] for k, _ in knownhit}),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": COMMON_ASSUMPTIONS + p.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(reported)}
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
    log("done: %d paths, %d traces validated, %d incomplete, %d confirmed, %d unreproduced, %d mismatches, vacuous %s" % (cov["paths_completed"], validated, len(trunc), len(confirmed), len(unconfirmed), len(mismatches), vac))
    kill_all()
    if reported:
        for v in reported[:6]:
            rp = v["record"][:-4] + ".txt"
            with open(rp, "w") as f:
                f.write("property %s entry %s config %s\nkind %s\n%s\nat %s\nnative replay: %s\nschedule: %s\nrecord: %s\n" % (pid, v["entry"], v["config"], v["kind"], v["msg"], v["where"], v["native"], " ".join(v.get("sched", [])), v["record"]))
                f.write(open(v["record"]).read())
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        os._exit(1)
    if len(vac) == len(results):
        print("CHECK-ERROR property=%s nothing could be explored" % pid, flush=True)
        os._exit(2)
    os._exit(0)


def npool_submit(pool, fn, *a):
    return pool.submit(fn, *a)


def native_quiet(native, cfg, kind):
    try:
        native(cfg, kind)
    except Exception:
        pass  # reported when the result is used


def cross_check(dumpdir, tier, pool):
    """re-decide a sample of the queries with solvers other than the one that decided them"""
    files = sorted(glob.glob(os.path.join(dumpdir, "*", "*.smt2")))
    files = [f for f in files if not f.endswith(".unknown.smt2")]
    cap = 24 if tier == "quick" else 400
    if len(files) > cap:
        files = files[:: len(files) // cap + 1]
    to = 10 if tier == "quick" else 60

    def one(f):
        want = f.split(".")[-2]
        r = {}
        for name, cmd in (("cvc5", ["cvc5", "--tlimit=%d" % (to * 1000), f]), ("z3-new", ["z3-new", "-T:%d" % to, f])):
            if shutil.which(cmd[0]):
                rc, o = run(cmd, timeout=to + 5)
                w = o.strip().splitlines()[0] if o.strip() else ""
                r[name] = "agree" if w == want else "unknown" if w not in ("sat", "unsat") else "DISAGREE"
        return f, r
    res = {"queries": len(files)}
    for f, r in pool.map(one, files):
        for k, x in r.items():
            res.setdefault(k, {"agree": 0, "unknown": 0, "DISAGREE": 0})[x] += 1
            if x == "DISAGREE":
                log("SOLVER DISAGREEMENT", k, f)
    return res


def kill_all():
    for p in list(PROCS):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


if __name__ == "__main__":
    main()
