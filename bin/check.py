#!/usr/bin/env python3
"""Decide one property of /repo by running it under monitors.

    bin/check.py <property> --tier quick|thorough      (seed: VERIF_SEED, default 1)
    bin/check.py --replay <file>                       (re-run one recorded violation)

Exit 0: held on everything observed (known findings are printed, not alarms);
exit 1: violation (with a VIOLATION line); exit 2: no verdict (build failure, harness failure, nothing observed).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
H = os.path.join(VERIF, "harness")
NCPU = 8
T0 = time.time()

FILES = {}
for _f, _ps in {"p_time": (5, 6, 7, 15, 16), "p_geom": range(8, 15), "p_astro": range(17, 26), "p_refr": (27, 28),
                "p_la": (29, 30, 31), "p_misc": (26, 32, 33, 34), "p_generic": (2, 3, 4, 35), "p_ext": (36, 37)}.items():
    for _p in _ps: FILES["P%02d" % _p] = [_f]
FILES["P01"] = ["p_time", "p_geom", "p_astro", "p_refr", "p_la", "p_misc", "p_generic", "p_ext"]
COMMON = ["main", "gen", "reg1", "reg2", "reg3", "p_shadow"]

BASE = "-std=c++17 -ffp-contract=off"
ASAN_LIB = "-O1 -gline-tables-only -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
ASAN_HAR = "-O1 -g0 -fsanitize=address -fno-omit-frame-pointer"
CONFIGS = {   # name: (compiler, flags for the library, flags for the harness, link flags, thread-safe source transformation)
    "asan": ("clang++", ASAN_LIB, ASAN_HAR, "-fsanitize=address,undefined", False),
    # -O0: every access of the source is executed and instrumented (optimisation removes dead stores and sinks loads before the sanitizers see them)
    "asan0": ("clang++", ASAN_LIB.replace("-O1", "-O0"), ASAN_HAR, "-fsanitize=address,undefined", False),
    "gcc": ("g++", "-O2 -g1", "-O1", "", False),
    "msan": ("clang++", "-O0 -gline-tables-only -fsanitize=memory -fsanitize-memory-track-origins -fno-omit-frame-pointer", "-O1 -g0 -fsanitize=memory", "-fsanitize=memory", False),
    "tsan": ("clang++", "-O0 -gline-tables-only -fsanitize=thread", "-O1 -g0 -fsanitize=thread", "-fsanitize=thread", False),
    "tsan-safe": ("clang++", "-O0 -gline-tables-only -fsanitize=thread", "-O1 -g0 -fsanitize=thread -DVP_THREAD_SAFE", "-fsanitize=thread", True),
}
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=85:allocator_may_return_null=1",
          "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=85", "MSAN_OPTIONS": "exitcode=85", "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_bugs=1:history_size=4"}
# what runs: list of (configuration, driver, scale for quick, scale for thorough)
PLAN = {p: [("asan", "vp", 3.0, 0.5), ("gcc", "vp", 0, 1.0)] for p in FILES}
PLAN["P01"] = [("asan0", "vp", 3.0, 1.0), ("msan", "msan", 400000, 6000000)]
PLAN["P03"] = [("tsan", "vp", 1.5, 1.0), ("tsan-safe", "vp", 1.5, 1.0)]
PLAN["P27"] = [("asan", "vp", 1.0, 0.5), ("gcc", "vp", 0, 1.0)]
PLAN["P22"] = [("asan", "vp", 1.5, 0.5), ("gcc", "vp", 0, 1.0)]
PLAN["P02"] = [("gcc", "vp", 2.0, 1.0), ("asan", "vp", 0, 0.3)]
MIN_EVALS = 2000     # fewer observations than this is no verdict


class NoVerdict(Exception):
    pass


def sh(cmd, timeout=600):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def compile_one(job):
    cmd, obj = job
    cache = os.environ.get("VP_OBJCACHE")   # development aid: content-addressed (preprocessed text + command)
    key = None
    if cache:
        pp = subprocess.run(cmd.replace(" -c ", " -E -P "), shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        key = os.path.join(cache, hashlib.sha256(cmd.encode() + pp.stdout).hexdigest())
        if os.path.exists(key):
            shutil.copy(key, obj); return None
    r = sh("%s -o %s" % (cmd, obj))
    if r.returncode: return "%s\n%s" % (cmd, r.stdout[-4000:])
    if key: shutil.copy(obj, key + ".tmp%d" % os.getpid()); os.rename(key + ".tmp%d" % os.getpid(), key)
    return None


def lib_sources(src):
    return sorted(f for e in ("cc", "cpp", "cxx", "C", "c") for f in glob.glob(os.path.join(src, "**", "*." + e), recursive=True))


def build(configs, prop, bdir):
    jobs, links = [], []
    for c in configs:
        cxx, lf, hf, ld, safe = CONFIGS[c]
        d = os.path.join(bdir, c); os.makedirs(d)
        src = SRC
        if safe:
            src = os.path.join(d, "src"); shutil.copytree(SRC, src)
            hits = 0
            for f in glob.glob(os.path.join(src, "**", "*"), recursive=True):
                if not f.endswith((".h", ".hpp", ".cc", ".cpp")): continue
                t = open(f, errors="surrogateescape").read()
                t2, n = re.subn(r"(?m)^([ \t]*#[ \t]*define[ \t]+SLALIB_THREAD_SAFE)[ \t]+0\b", r"\1 1", t)
                if n: hits += n; open(f, "w", errors="surrogateescape").write(t2)
            if not hits: hf += " -DSLALIB_THREAD_SAFE=1"; lf += " -DSLALIB_THREAD_SAFE=1"
        objs = []
        for f in lib_sources(src):
            o = os.path.join(d, "l_" + os.path.relpath(f, src).replace("/", "__") + ".o"); objs.append(o)
            jobs.append(("%s %s %s -w -I%s -c %s" % (cxx, BASE, lf, src, f), o))
        hfiles = [os.path.join(H, "msan", "msan_main.cc")] + [os.path.join(H, x + ".cc") for x in ("gen", "reg1", "reg2", "reg3")] if c == "msan" else \
                 [os.path.join(H, x + ".cc") for x in COMMON + FILES[prop]]
        for f in hfiles:
            o = os.path.join(d, "h_" + os.path.basename(f) + ".o"); objs.append(o)
            jobs.insert(0, ("%s %s %s -w -I%s -I%s/ref -I%s -c %s" % (cxx, BASE, hf, H, VERIF, src, f), o))
        for f in sorted(glob.glob(os.path.join(VERIF, "ref", "*.cc"))):
            o = os.path.join(d, "r_" + os.path.basename(f) + ".o"); objs.append(o)
            jobs.append(("%s -std=c++17 -O1 -w -I%s/ref -c %s" % (cxx, VERIF, f), o))
        links.append(("%s %s %s -o %s/vp -lpthread" % (cxx, ld, " ".join(objs), d)))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
        if errs: raise NoVerdict("build failed:\n" + errs[0])
        for r in ex.map(sh, links):
            if r.returncode: raise NoVerdict("link failed:\n" + r.stdout[-4000:])


def harvest(path):
    """numeric literals of the library as it is now: boundary candidates for the workload generators"""
    with open(path, "w") as out:
        for f in lib_sources(SRC):
            s = open(f, errors="replace").read()
            s = re.sub(r"/\*.*?\*/", "", s, flags=re.S); s = re.sub(r"//[^\n]*", "", s); s = re.sub(r'"(\\.|[^"\\])*"', "", s)
            lits = set()
            for m in re.finditer(r"(?<![\w.])((?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[fFlLuU]*(?![\w.])", s):
                try: lits.add(float(m.group(1)))
                except ValueError: pass
            lits = {v for v in lits if v == v and abs(v) < 1e300}
            if len(lits) > 400: lits = set(sorted(lits)[:: len(lits) // 400 + 1])
            for v in sorted(lits): out.write("%s %.17g\n" % (os.path.splitext(os.path.basename(f))[0], v))


def run_shards(jobs, timeout):
    """jobs: (label, argv, cwd). Returns [(label, rc, stdout, stderr)]"""
    env = dict(os.environ, **SANENV)
    def one(j):
        label, argv = j
        try:
            p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, errors="replace", timeout=timeout)
            return label, argv, p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            def t(x): return x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
            return label, argv, "timeout", t(e.stdout), t(e.stderr)
    with cf.ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, jobs))


def san_summary(err):
    m = re.search(r"^SUMMARY: (.*)$", err, re.M)
    if m: return m.group(1)[:200]
    m = re.search(r"runtime error: (.*)$", err, re.M) or re.search(r"Assertion .*$", err, re.M)
    return m.group(0)[:200] if m else (err.strip().splitlines() or ["(no message)"])[-1][:200]


def collect(results, prop, viols, agg):
    for label, argv, rc, out, err in results:
        got_stats = False
        for line in out.splitlines():
            tag, _, js = line.partition(" ")
            if tag not in ("VIOL", "CRASH", "STATS", "MSAN"): continue
            try: d = json.loads(js)
            except ValueError:
                if tag in ("STATS", "MSAN"): raise NoVerdict("unreadable statistics from " + label)
                d = {"sig": "unparsed", "group": "?", "case": -1, "msg": js[:200], "note": "", "inputs": []}
            if tag == "STATS":
                got_stats = True
                a = agg.setdefault(label.split("#")[0], {"evals": 0, "cases": 0, "clauses": {}, "classes": {}, "groups": {}, "samples": []})
                a["evals"] += d["evals"]; a["cases"] += d["cases"]
                for k, v in d["clauses"].items():
                    o = a["clauses"].setdefault(k, [0, 0.0]); o[0] += v[0]; o[1] = max(o[1], v[1])
                for key in ("classes", "groups"):
                    for k, v in d[key].items(): a[key][k] = a[key].get(k, 0) + v
                a["samples"] += d["samples"][-3:]
            elif tag == "MSAN":
                got_stats = True
                a = agg.setdefault(label.split("#")[0], {"evals": 0, "cases": 0, "clauses": {}, "classes": {}, "groups": {}, "samples": []})
                a["evals"] += d["calls"]; a["cases"] += d["calls"]; a["groups"]["msan_calls"] = a["groups"].get("msan_calls", 0) + d["calls"]
            else:
                if tag == "CRASH":
                    d["sig"] = "%s/%s" % (d.get("note", "?").split(" ")[0] if d.get("note") else d["group"], d["kind"]); d["msg"] = "%s: %s" % (d["kind"], san_summary(err))
                    d["stderr"] = err[-3000:]
                if "no-data-race" in d["sig"]: d["msg"] = san_summary(err); d["stderr"] = err[:4000]
                d["argv"] = argv; d["config"] = label.split("#")[0]; viols.append(d)
        crashed = any(v["argv"] is argv and "stderr" in v for v in viols)
        if rc == "timeout": raise NoVerdict("%s exceeded its time limit" % label)
        if "WARNING: ThreadSanitizer" in err:
            if not any(v["argv"] is argv for v in viols):
                viols.append({"sig": "race/" + re.sub(r"^.*? in ", "", san_summary(err))[:80], "group": "?", "case": -1, "msg": san_summary(err), "note": "", "inputs": [], "stderr": err[-3000:], "argv": argv, "config": label.split("#")[0]})
        elif rc in (0, 3):
            if not got_stats: raise NoVerdict("%s ended without statistics: %s" % (label, err[-500:]))
        elif not crashed:
            if rc == 2: raise NoVerdict("harness error in %s: %s" % (label, err[-800:]))
            viols.append({"sig": "process/died", "group": "?", "case": -1, "msg": "exit %s: %s" % (rc, san_summary(err)), "note": "", "inputs": [], "stderr": err[-3000:], "argv": argv, "config": label.split("#")[0]})


def findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def matches(f, prop, v):
    return f["property"] == prop and f["signature"] == v["sig"] and ("inputs" not in f or f["inputs"] == v["inputs"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay"); ap.add_argument("--scale", type=float, default=1.0, help="development: multiply case counts")
    a = ap.parse_args()
    rep = None
    if a.replay:
        rep = json.load(open(a.replay)); a.prop = rep["property"]; a.tier = rep["tier"]
    prop = a.prop
    if prop not in FILES: print("unknown property", prop); return 2
    seed = int(rep["seed"]) if rep else int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = os.path.join(VERIF, ".build", "%s-%d" % (prop, os.getpid())); os.makedirs(bdir)
    try:
        return decide(a, prop, seed, bdir, rep)
    except NoVerdict as e:
        print("NO VERDICT property=%s: %s" % (prop, e)); return 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def decide(a, prop, seed, bdir, rep):
    tier = a.tier
    plan = [(c, d, (q if tier == "quick" else t)) for c, d, q, t in PLAN[prop]]
    plan = [(c, d, s * a.scale) for c, d, s in plan if s > 0]
    if rep: plan = [(rep["config"], "msan" if rep["config"] == "msan" else "vp", 1.0)]
    dic = os.path.join(bdir, "dict.txt"); harvest(dic)
    build([c for c, _, _ in plan], prop, bdir)
    t_build = time.time() - T0
    viols, agg = [], {}
    for c, driver, scale in plan:
        exe = os.path.join(bdir, c, "vp")
        jobs = []
        n = 1 if rep else NCPU
        for k in range(n):
            if driver == "msan": argv = [exe, "--seed", str(seed), "--n", str(int(scale)), "--shard", "%d/%d" % (k, n)]
            else: argv = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--dict", dic, "--scale", "%g" % scale, "--shard", "%d/%d" % (k, n), "--bitmap", os.path.join(bdir, "bm.%s.%d" % (c, k))]
            if rep and rep["case"] >= 0:
                if driver == "msan": argv += ["--case", str(rep["case"]), "--mode", "1" if rep["group"] == "msan_extreme" else "0"]
                else: argv += ["--group", rep["group"], "--case", str(rep["case"]), "-v"]
            jobs.append(("%s#%d" % (c, k), argv))
        collect(run_shards(jobs, 780 if tier == "quick" else 7200), prop, viols, agg)
        if viols: break
    known, fresh = [], []
    fs = findings()
    for v in viols:
        (known if any(matches(f, prop, v) for f in fs) else fresh).append(v)
    for s in sorted({v["sig"] for v in known}): print("KNOWN-FINDING: property=%s %s" % (prop, s))
    evals = sum(x["evals"] for x in agg.values())
    if rep:
        for v in viols: print("REPRODUCED %s: %s inputs=%s" % (v["sig"], v["msg"], v["inputs"]))
        print("replay: %d violation(s)" % len(viols)); return 1 if viols else 0
    if not fresh and evals < MIN_EVALS * min(1, a.scale): raise NoVerdict("only %d observations" % evals)
    # distinct observed outcomes: union of the shards' bitmaps
    acc = 0
    for f in glob.glob(os.path.join(bdir, "bm.*")): acc |= int.from_bytes(open(f, "rb").read(), "little")
    distinct = bin(acc).count("1")
    if not fresh and distinct < 20: raise NoVerdict("only %d distinct outcomes observed" % distinct)
    recorded = []
    if fresh:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for s in dict.fromkeys(v["sig"] for v in fresh):
            v = next(x for x in fresh if x["sig"] == s)
            path = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
            json.dump({"property": prop, "tier": tier, "seed": seed, "config": v["config"], "group": v["group"], "case": v["case"], "signature": s, "message": v["msg"],
                       "note": v["note"], "inputs": v["inputs"], "stderr": v.get("stderr", ""), "command": "bin/check.py --replay " + path}, open(path, "w"), indent=1)
            recorded.append(path)
            if len(recorded) <= 8:
                print("  %s: %s  inputs=%s %s" % (s, v["msg"], ",".join(v["inputs"][:12]), v["note"]))
        print("VIOLATION property=%s replay=%s" % (prop, recorded[0]))
    clauses = {}
    for x in agg.values():
        for k, v in x["clauses"].items():
            o = clauses.setdefault(k, [0, 0.0]); o[0] += v[0]; o[1] = max(o[1], v[1])
    classes, groups, samples = {}, {}, []
    for x in agg.values():
        for k, v in x["classes"].items(): classes[k] = classes.get(k, 0) + v
        for k, v in x["groups"].items(): groups[k] = groups.get(k, 0) + v
        samples += x["samples"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct,
                       "rule": "an evaluation is one monitor clause judged on one execution of the library; distinct_nontrivial counts distinct observed outcomes (hash of function and returned values, 2^22-bit union over all processes, so a lower bound)",
                       "samples": [json.dumps(s) if not isinstance(s, str) else s for s in samples[:10]] or ["(none)"],
                       "cases_per_workload": groups, "situations_observed": classes,
                       "clauses": {k: {"judged": v[0], "worst_error_over_tolerance": v[1]} for k, v in sorted(clauses.items())},
                       "functions_observed": len({k.split("/")[0] for k in clauses}),
                       "per_configuration": {c: {"evaluations": x["evals"], "cases": x["cases"]} for c, x in agg.items()}},
          "assumptions": ["the oracle formulas and the frozen extended-precision model in /verif/ref state the published models correctly",
                          "outcomes on inputs that were not executed are extrapolated from those that were"],
          "violations": len(fresh), "violation_details": [{"signature": v["sig"], "message": v["msg"], "inputs": v["inputs"]} for v in fresh[:10]],
          "known_findings": sorted({v["sig"] for v in known}),
          "build_s": round(t_build, 1), "wall_s": round(time.time() - T0, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed %d: %d evaluations, %d distinct outcomes, %d clauses, %s; build %.1fs total %.1fs" % (prop, tier, seed, evals, distinct, len(clauses), "VIOLATED" if fresh else "held", t_build, time.time() - T0))
    return 1 if fresh else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # a broken harness is no verdict, never a violation
        print("NO VERDICT: %s: %s" % (type(e).__name__, e))
        sys.exit(2)
