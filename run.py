#!/usr/bin/env python3
"""Runs the solver-based check of one property:  run.py PROP [--tier quick|thorough] [--only ENTRY] [-v]

Every run: (1) compiles the repository's current sources and the property's harness to LLVM IR, (2) lets engine/symx
execute each harness entry symbolically (Z3 decides every branch and assertion), (3) replays every counterexample, and
a sample of the completed paths, against a native sanitizer build of the same sources.
Exit 0: held on everything explored.  Exit 1: a replayed violation, with a VIOLATION line."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
SYMX = os.path.join(BUILD, "symx")
OPT = "/usr/lib/llvm-18/bin/opt"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
CONFIGS = {
    "default": ["-DUSE_STDLIB"],
    "inference": ["-DUSE_STDLIB", "-DUSE_PARENTHESIS_INFERENCE"],
    "portable": ["-DUSE_DUCKLIB_MALLOC"],
    "no-optimize": ["-DUSE_STDLIB", "-DNO_OPTIMIZE_JUMPS", "-DNO_OPTIMIZE_PUSHPOPS"],
}
COMMON = ["-w", "-std=gnu99", "-DEXPORTING_DUCKLIB", "-DEXPORTING_DUCKLISP", "-I" + REPO, "-I" + HARN]
SAN = ["-g", "-O0", "-fno-omit-frame-pointer", "-fwrapv", "-fsanitize=address", "-fsanitize=integer-divide-by-zero,null,bounds,shift-exponent", "-fno-sanitize-recover=all"]
JOBS = int(os.environ.get("VT_JOBS", "8"))
T0 = time.time()


def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return "timeout", out or ""


def build_engine():
    src = os.path.join(HERE, "engine", "symx.cpp")
    if os.path.exists(SYMX) and os.path.getmtime(SYMX) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    libs = subprocess.check_output(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "support"], text=True).split()
    flags = [f for f in flags if f != "-fno-exceptions"]
    tmp = SYMX + ".%d" % os.getpid()
    rc, out = sh(["clang++", "-O2", "-w", "-std=c++17"] + flags + ["-fexceptions", src, "-o", tmp] + libs + ["-lz3"], timeout=900)
    if rc != 0:
        sys.exit("engine build failed:\n" + out)
    os.replace(tmp, SYMX)


def repo_sources():
    """The sources of the two libraries, as the repository's own build lists them."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    srcs = []
    for lib in ("DuckLisp", "DuckLib"):
        m = re.search(r"add_library\(\s*%s\b([^)]*)\)" % lib, txt)
        if m:
            srcs += [w for w in m.group(1).split() if w.endswith(".c")]
    if not srcs:
        srcs = [f for f in os.listdir(REPO) if f.endswith(".c")] + ["DuckLib/" + f for f in os.listdir(REPO + "/DuckLib") if f.endswith(".c")]
    return srcs


class Query:
    def __init__(self, harness, entry, opts):
        self.harness, self.entry = harness, entry
        self.configs = opts.get("configs", "default").split(",")
        self.tconfigs = opts.get("tconfigs", ",".join(self.configs)).split(",")
        self.tier = opts.get("tier", "quick")
        self.max = float(opts.get("max", "60"))
        self.tmax = float(opts.get("tmax", str(self.max * 4)))
        self.steps = int(opts.get("steps", "30000000"))
        self.kf = opts.get("kf")
        self.defs = [d for d in opts.get("defs", "").split(",") if d]
        self.tdefs = [d for d in opts.get("tdefs", "").split(",") if d]
        self.bounds = opts.get("bounds", "")
        self.reach = opts.get("reach", "end").split(",")
        self.failmalloc = opts.get("failmalloc")


def discover(prop):
    """Entries are `void h_xxx(void)` preceded by a comment `@q key=value ... | bounds text`."""
    qs = []
    for fn in sorted(os.listdir(HARN)):
        if not re.match(prop.lower() + r"(_\w+)?\.c$", fn):
            continue
        text = open(os.path.join(HARN, fn)).read()
        for m in re.finditer(r"/\*\s*@q\s*(.*?)\*/\s*void\s+(h_\w+)\(void\)", text, re.S):
            head, _, bounds = m.group(1).partition("|")
            opts = dict(x.split("=", 1) for x in head.split() if "=" in x)
            opts["bounds"] = " ".join(bounds.split())
            qs.append(Query(fn, m.group(2), opts))
    return qs


class Builder:
    def __init__(self, work, pool):
        self.work, self.pool, self.lock, self.memo = work, pool, threading.Lock(), {}

    def once(self, key, fn):
        with self.lock:
            ev = self.memo.get(key)
            if ev is None:
                ev = self.memo[key] = [threading.Event(), None, None]
                mine = True
            else:
                mine = False
        if mine:
            try:
                ev[1] = fn()
            except Exception as x:
                ev[2] = x
            ev[0].set()
        ev[0].wait()
        if ev[2]:
            raise ev[2]
        return ev[1]

    def d(self, *parts):
        p = os.path.join(self.work, *parts)
        os.makedirs(p, exist_ok=True)
        return p

    def harness_tus(self, harness):
        """A harness may replace library sources: a line `@without file.c ...` (it includes that file itself)."""
        text = open(os.path.join(HARN, harness)).read()
        m = re.search(r"@without\s+([^*\n]*)", text)
        return set(m.group(1).split()) if m else set()

    def lib_bc(self, config, fail):
        def go():
            d = self.d("bc-" + config + ("-fm" if fail else ""))
            procs, outs = [], []
            for s in repo_sources():
                o = os.path.join(d, s.replace("/", "_") + ".bc")
                extra = ["-Dmalloc=vt_malloc", "-Drealloc=vt_realloc", "-Dfree=vt_free", "-include", os.path.join(HARN, "vt_alloc.h")] if s.endswith("memory.c") and config != "portable" else []
                procs.append((s, subprocess.Popen(["clang", "-c", "-emit-llvm", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fwrapv"] + CONFIGS[config] + COMMON + extra + [os.path.join(REPO, s), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                outs.append((s, o))
            for s, p in procs:
                out, _ = p.communicate()
                if p.returncode:
                    raise RuntimeError("cannot compile %s: %s" % (s, out[:2000]))
            return outs
        return self.once(("lib", config, fail), go)

    def program(self, q, config, defs):
        key = ("prog", q.harness, config, tuple(defs))

        def go():
            libs = self.lib_bc(config, False)
            without = self.harness_tus(q.harness)
            d = self.d("prog-%s-%s-%s" % (q.harness[:-2], config, hashlib.md5(" ".join(defs).encode()).hexdigest()[:6]))
            objs = [o for s, o in libs if s not in without]
            for src in (os.path.join(HARN, q.harness), os.path.join(HARN, "vt_rt.c")):
                o = os.path.join(d, os.path.basename(src) + ".bc")
                rc, out = sh(["clang", "-c", "-emit-llvm", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fwrapv", "-DVT_SYMX"] + CONFIGS[config] + COMMON + ["-D" + x for x in defs] + [src, "-o", o])
                if rc:
                    raise RuntimeError("cannot compile harness %s: %s" % (src, out[:3000]))
                objs.append(o)
            allbc, opt = os.path.join(d, "all.bc"), os.path.join(d, "opt.bc")
            rc, out = sh([LINK] + objs + ["-o", allbc])
            if rc:
                raise RuntimeError("link: " + out[:2000])
            rc, out = sh([OPT, "-passes=mem2reg", allbc, "-o", opt])
            if rc:
                raise RuntimeError("opt: " + out[:2000])
            return opt
        return self.once(key, go)

    def native(self, q, config, defs, msan=False):
        key = ("native", q.harness, config, tuple(defs), msan)

        def lib():
            d = self.d("nat-%s%s" % (config, "-m" if msan else ""))
            cc = ["clang", "-g", "-O0", "-fwrapv", "-fsanitize=memory", "-fno-sanitize-recover=all"] if msan else ["gcc"] + SAN
            procs, outs = [], []
            for s in repo_sources():
                o = os.path.join(d, s.replace("/", "_") + ".o")
                extra = ["-Dmalloc=vt_malloc", "-Drealloc=vt_realloc", "-Dfree=vt_free", "-include", os.path.join(HARN, "vt_alloc.h")] if s.endswith("memory.c") and config != "portable" else []
                procs.append((s, subprocess.Popen(cc + ["-c"] + CONFIGS[config] + COMMON + extra + [os.path.join(REPO, s), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                outs.append((s, o))
            for s, p in procs:
                out, _ = p.communicate()
                if p.returncode:
                    raise RuntimeError("cannot compile %s: %s" % (s, out[:2000]))
            return outs

        def go():
            libs = self.once(("natlib", config, msan), lib)
            without = self.harness_tus(q.harness)
            d = self.d("nat-%s-%s-%s%s" % (q.harness[:-2], config, hashlib.md5(" ".join(defs).encode()).hexdigest()[:6], "-m" if msan else ""))
            cc = ["clang", "-g", "-O0", "-fwrapv", "-fsanitize=memory", "-fno-sanitize-recover=all"] if msan else ["gcc"] + SAN
            exe = os.path.join(d, "harness")
            rc, out = sh(cc + ["-DVT_NATIVE", "-rdynamic"] + CONFIGS[config] + COMMON + ["-D" + x for x in defs] +
                         [os.path.join(HARN, q.harness), os.path.join(HARN, "vt_rt.c"), os.path.join(HARN, "vt_native.c")] +
                         [o for s, o in libs if s not in without] + ["-o", exe, "-lm", "-ldl"])
            if rc:
                raise RuntimeError("native build: " + out[:3000])
            return exe
        return self.once(key, go)


def replay(exe, entry, inputs, work, timeout=20):
    fd, path = tempfile.mkstemp(dir=work, suffix=".in")
    with os.fdopen(fd, "w") as f:
        f.write("\n".join(str(x) for x in inputs) + "\n")
    env = {"PATH": "/usr/bin:/bin", "VT_INPUT": path, "VT_ENTRY_NAME": entry,
           "UBSAN_OPTIONS": "print_stacktrace=1", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:max_allocation_size_mb=2000", "MSAN_OPTIONS": "poison_in_malloc=1"}
    if "VT_SHOW" in os.environ:
        env["VT_SHOW"] = "1"
    rc, out = sh(["bash", "-c", "ulimit -s 65536; exec \"$0\"", exe], timeout=timeout, env=env)
    os.unlink(path)
    return rc, out


def confirmed(rc, out, kind):
    if rc == 77:
        return None
    if rc == 42:
        m = re.search(r"VT-ASSERT-FAILED (.*)", out)
        return "assertion failed: " + (m.group(1) if m else "?")
    if "AddressSanitizer" in out or "MemorySanitizer" in out or "runtime error:" in out:
        m = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|WARNING: MemorySanitizer[^\n]*|runtime error:[^\n]*)", out)
        return m.group(1) if m else "sanitizer report"
    if rc == "timeout":
        return "does not terminate within the replay limit"
    if isinstance(rc, int) and (rc < 0 or rc >= 128):
        return "killed by signal (status %s)" % rc
    return None


def load_known(prop):
    """known_findings.txt: KNOWN id=.. property=.. entry=.. match=.. | text"""
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"KNOWN id=(\S+) property=(\S+) entry=(\S+) match=(.*?) \| (.*)", line)
        if m and m.group(2) == prop:
            known[m.group(1)] = (m.group(3), m.group(4), m.group(5).strip())
    return known


def is_known(known, q, v, verdict):
    """Only the listed harness entry (which pins the failing input) failing in the listed way is a known finding."""
    k = known.get(q.kf)
    return bool(k) and k[0] == q.entry and k[1] in (v["kind"] + ": " + v["msg"] + " / " + verdict)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--config")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build_engine()
    prop, thorough = a.prop, a.tier == "thorough"
    budget = float(os.environ.get("VT_BUDGET", "780" if thorough else "420"))
    queries = [q for q in discover(prop) if (thorough or q.tier == "quick") and (not a.only or re.fullmatch(a.only, q.entry))]
    work = tempfile.mkdtemp(prefix="vt-%s-" % prop)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, "replay", prop)
    if os.path.isdir(rdir):
        shutil.rmtree(rdir)
    jobs = []
    for q in queries:
        for c in (q.tconfigs if thorough else q.configs):
            if a.config and c != a.config:
                continue
            jobs.append((q, c, q.defs + (q.tdefs if thorough else [])))
    jobs.sort(key=lambda j: -(j[0].tmax if thorough else j[0].max))
    pool = cf.ThreadPoolExecutor(JOBS)
    b = Builder(work, pool)
    known = load_known(prop)
    results, violations, findings, unconfirmed, mismatches, undecided, errors = [], [], [], [], [], [], []
    validated = [0]
    stop = threading.Event()
    lock = threading.Lock()

    def save_replay(q, config, defs, v, verdict):
        with lock:
            n = len(os.listdir(rdir)) if os.path.isdir(rdir) else 0
            d = os.path.join(rdir, "%d-%s-%s" % (n, q.entry, config))
            os.makedirs(d, exist_ok=True)
        json.dump({"property": prop, "harness": q.harness, "entry": q.entry, "config": config, "defs": defs, "violation": v, "verdict": verdict}, open(os.path.join(d, "violation.json"), "w"), indent=1)
        open(os.path.join(d, "inputs"), "w").write("\n".join(map(str, v["inputs"])) + "\n")
        with open(os.path.join(d, "replay.sh"), "w") as f:
            f.write("#!/bin/sh\n# Rebuilds the native harness from %s and replays the counterexample.\n%s %s/replay.py %s\n" % (REPO, sys.executable, HERE, d))
        os.chmod(os.path.join(d, "replay.sh"), 0o755)
        return os.path.join(d, "replay.sh")

    def one(q, config, defs):
        if stop.is_set():
            return
        left = budget - (time.time() - T0)
        limit = min(q.tmax if thorough else q.max, left)
        rec = {"entry": q.entry, "harness": q.harness, "config": config, "bounds": q.bounds}
        if limit < 2:
            rec["status"] = "not run: out of time"
            undecided.append(rec)
            results.append(rec)
            return
        try:
            prog = b.program(q, config, defs)
            out = os.path.join(work, "%s-%s-%s.json" % (q.harness, q.entry, config))
            rc, txt = sh([SYMX, prog, "--entry", q.entry, "--out", out, "--max-time", str(limit), "--max-steps", str(q.steps), "--solver-ms", "60000" if thorough else "20000"], timeout=limit + 90)
            if rc != 0:
                raise RuntimeError("symx: %s %s" % (rc, txt[-500:]))
            r = json.load(open(out))
        except Exception as x:
            rec["status"] = "not encodable: " + str(x)[:1500]
            errors.append(rec)
            results.append(rec)
            return
        rec.update({k: r[k] for k in ("paths", "forks", "steps", "queries", "cached_queries", "unknown", "solver_s", "asserts", "assert_queries", "pending", "incomplete_paths", "wall_s", "reach")})
        rec["functions"] = r["functions"]
        complete = not r["timeout"] and not r["pending"] and not r["incomplete_paths"] and not r["unknown"]
        missing = [x for x in q.reach if x not in r["reach"]] if not r["violations"] else []
        rec["status"] = "decided" if complete and not missing else "undecided"
        if missing:
            rec["vacuous"] = missing
        results.append(rec)
        exe = None
        good = 0
        tried = 0
        conf_here = False
        for v in r["violations"][:12]:
            if stop.is_set():
                break
            verdict = None
            try:
                exe = b.native(q, config, defs)
                rc, o = replay(exe, q.entry, v["inputs"], work)
                verdict = confirmed(rc, o, v["kind"])
                if not verdict and v["kind"] == "uninit" and rc != 77:
                    m = b.native(q, config, defs, msan=True)
                    rc, o = replay(m, q.entry, v["inputs"], work)
                    verdict = confirmed(rc, o, v["kind"])
            except Exception as x:
                errors.append({"entry": q.entry, "status": "replay build failed: " + str(x)[:800]})
            if verdict:
                conf_here = True
                item = (q, config, v, verdict, save_replay(q, config, defs, v, verdict))
                if is_known(known, q, v, verdict):
                    findings.append(item)
                else:
                    violations.append(item)
                    if not a.keep:
                        stop.set()
            else:
                unconfirmed.append({"entry": q.entry, "config": config, "violation": {k: v[k] for k in ("kind", "msg", "where", "stack")}})
        if rec["status"] != "decided" and not conf_here:
            undecided.append(rec)
        # validate the encoding: replay completed paths' models on the real build
        if not conf_here and not stop.is_set():
            ps = r["path_samples"]
            k = 12 if thorough else 4
            step = max(1, len(ps) // k)
            for p in ps[::step][:k]:
                try:
                    exe = exe or b.native(q, config, defs)
                    rc, o = replay(exe, q.entry, p["inputs"], work)
                except Exception as x:
                    errors.append({"entry": q.entry, "status": "validation build failed: " + str(x)[:800]})
                    break
                obs = [int(x) for x in re.findall(r"^VT-OBS (\d+)", o, re.M)]
                reach = re.findall(r"^VT-REACH (.*)", o, re.M)
                if rc == 0 and obs == p["observed"] and reach == p["reach"]:
                    validated[0] += 1
                else:
                    verdict = confirmed(rc, o, "path")
                    v = {"kind": "replay", "msg": "a path the solver completed fails on the real build", "where": q.entry, "stack": o[-1500:], "inputs": p["inputs"]}
                    if verdict and not is_known(known, q, v, verdict):
                        violations.append((q, config, v, verdict, save_replay(q, config, defs, v, verdict)))
                        if not a.keep:
                            stop.set()
                        break
                    mismatches.append({"entry": q.entry, "config": config, "rc": rc, "native_observed": obs[:20], "symbolic_observed": p["observed"][:20], "inputs": p["inputs"][:40]})
        if a.v:
            print("  %-34s %-11s %-9s paths=%d steps=%d q=%d solver=%.1fs wall=%.1fs viol=%d" % (q.entry, config, rec["status"], r["paths"], r["steps"], r["queries"], r["solver_s"], r["wall_s"], len(r["violations"])), flush=True)

    futs = [pool.submit(one, *j) for j in jobs]
    for f in futs:
        f.result()
    shutil.rmtree(work, ignore_errors=True)

    status = 0
    shown = set()
    for q, config, v, verdict, path in findings:
        line = "KNOWN-FINDING: property=%s %s (%s)" % (prop, known[q.kf][2], q.entry)
        if line not in shown:
            print(line)
        shown.add(line)
    seen = set()
    for q, config, v, verdict, path in violations:
        print("counterexample in %s [%s]: %s: %s at %s" % (q.entry, config, v["kind"], v["msg"], v["where"]))
        print("  replayed on the real build: %s" % verdict)
        status = 1
        if path not in seen:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        seen.add(path)
    for u in undecided:
        print("UNDECIDED: %s [%s] %s" % (u["entry"], u["config"], u.get("vacuous") and "never reached: " + ",".join(u["vacuous"]) or u["status"]))
    for u in unconfirmed:
        print("not reproduced natively, not reported: %s [%s] %s: %s at %s" % (u["entry"], u["config"], u["violation"]["kind"], u["violation"]["msg"], u["violation"]["where"]))
        if a.v:
            print("   ", u["violation"]["stack"])
    for u in mismatches:
        print("engine/native difference (not reported as a violation): %s" % json.dumps(u))
    for u in errors:
        print("ERROR: %s: %s" % (u["entry"], u["status"]))
    done = [r for r in results if "paths" in r]
    fns = sorted(set(f for r in done for f in r.get("functions", []) if not f.startswith(("h_", "vt_"))))
    samples = []
    for r in results:
        x = dict(r)
        x.pop("functions", None)
        samples.append(x)
    tot = lambda k: sum(r.get(k, 0) for r in done)
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated[0], "samples": samples,
              "explanation": "states: symbolic paths completed, each standing for every input that satisfies its path condition; transitions: IR instructions executed symbolically; traces_validated_against_impl: path models replayed on the sanitizer build with identical observations",
              "solver_queries": tot("queries"), "solver_queries_answered_from_cache": tot("cached_queries"), "solver_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 3),
              "assertions_evaluated": tot("asserts"), "assertions_decided_by_solver": tot("assert_queries"), "forks": tot("forks"),
              "exhaustive": bool(done) and not undecided and not errors,
              "functions_encoded": fns, "undecided": len(undecided), "not_reproduced": unconfirmed, "engine_native_differences": mismatches,
              "known_findings_shown": [f[0].kf for f in findings], "errors": errors},
          "assumptions": ["clang -O0 IR (mem2reg) of the current sources represents the code", "heap allocation succeeds unless the harness says otherwise", "bounds as stated per query in samples[].bounds"],
          "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print("%s %s: %d queries, %d paths, %d solver queries, %.1fs solver, %.1fs wall, %d validated natively%s" % (prop, a.tier, len(jobs), tot("paths"), tot("queries"), tot("solver_s"), time.time() - T0, validated[0], "" if status == 0 else ", VIOLATED"))
    if not status and not done:
        sys.exit(2)
    sys.exit(status)


if __name__ == "__main__":
    main()
