#!/usr/bin/env python3
"""Driver: python3 check.py ID [--tier quick|thorough] | --setup | --replay ID FILE

Per run: compiles /repo's current sources and the harnesses to LLVM bitcode, executes them symbolically with
engine/symx (z3), replays counterexamples and sample witnesses natively (ASan+UBSan build of the same sources),
writes evidence/<ID>.json.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
SRC = os.path.join(REPO, "src")
SYMX = os.path.join(B, "symx")
CXX = "clang++-18"
BCF = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize",
       "-fno-slp-vectorize", "-Wno-everything", "-isystem", V + "/rt/shim", "-I" + V + "/rt/shim", "-I" + V + "/rt",
       "-I" + SRC, "-I" + V + "/harness", "-emit-llvm", "-c"]
NATF = ["-std=c++17", "-O0", "-g1", "-w", "-DSYM_NATIVE=1", "-DFMT_HEADER_ONLY", "-fsanitize=address,undefined",
        "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function", "-I" + V + "/rt/nshim", "-I" + V + "/rt", "-I" + SRC, "-I" + V + "/harness", "-c"]
SKIP = ("main.cpp", "broker_core.cpp")
JOBS = max(1, min(8, os.cpu_count() or 1))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def newer(out, ins):
    return not os.path.exists(out) or any(os.path.getmtime(i) > os.path.getmtime(out) for i in ins)

def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build_engine():
    os.makedirs(B, exist_ok=True)
    srcs = glob.glob(V + "/engine/*")
    stamp = SYMX + "." + digest(srcs)
    if os.path.exists(SYMX) and os.path.exists(stamp):
        return
    flags = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
    flags = [f for f in flags if f != "-fno-exceptions" and not f.startswith("-std=")]
    tmp = SYMX + ".%d.tmp" % os.getpid()
    r = sh([CXX, "-O2", "-g1", V + "/engine/symx.cpp", "-o", tmp] + flags + ["-std=c++17", "-fexceptions", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    if r.returncode:
        print(r.stdout); raise SystemExit(3)
    os.replace(tmp, SYMX)
    for f in glob.glob(SYMX + ".*"):
        if not f.endswith(".tmp"): os.unlink(f)
    open(stamp, "w").close()

def build_rt():
    files = [V + "/rt/rt.cpp"] + [f for f in glob.glob(V + "/rt/shim/**/*", recursive=True) if os.path.isfile(f)] + [V + "/rt/sym.h"]
    d = digest(files)
    out = B + "/rt-%s.bc" % d
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([CXX] + [f for f in BCF] + ["-fno-builtin", V + "/rt/rt.cpp", "-o", tmp])
        if r.returncode:
            print(r.stdout); raise SystemExit(3)
        os.replace(tmp, out)
    return out

def setup():
    build_engine(); build_rt()
    print("engine built:", SYMX)

def repo_sources():
    r = []
    for root, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith((".cpp", ".cc", ".cxx")) and f not in SKIP:
                r.append(os.path.join(root, f))
    return sorted(r)

class Native:
    """native replay binary for one harness variant, built lazily in the background"""
    pool = {}
    def __init__(self, W, ex):
        self.W, self.ex, self.objs, self.bins = W, ex, {}, {}
    def obj(self, src, key, flags):
        k = (src, key)
        if k not in self.objs:
            out = "%s/n_%s.o" % (self.W, hashlib.md5((src + key).encode()).hexdigest()[:12])
            def job():
                r = sh(["nice", "-n", "10", CXX] + NATF + flags + [src, "-o", out])
                return (r.returncode == 0, out, r.stdout)
            self.objs[k] = self.ex.submit(job)
        return self.objs[k]
    def start(self, run):
        key = run["key"]
        hs = self.obj(V + "/harness/" + run["src"], key, run.get("natflags", []) + run["defs"])
        fs = [self.obj(s, "", []) for s in repo_sources()] + [self.obj(V + "/rt/native.cpp", "", [])]
        self.bins[key] = (hs, fs, run)
    def binary(self, run):
        hs, fs, _ = self.bins[run["key"]]
        out = self.W + "/replay_" + run["key"]
        if os.path.exists(out): return out, ""
        ok, o, log = hs.result()
        if not ok: return None, log
        objs = [o]; logs = ""
        for f in fs:
            ok, o, log = f.result()
            if ok: objs.append(o)
            else: logs += log
        # only what the harness needs: archive the repository's objects
        libs = run.get("libs", ["-lyaml-cpp", "-lzmq", "-lcurl", "-lboost_filesystem", "-lboost_program_options", "-lboost_system"])
        ar = out + ".a"
        sh(["ar", "rcs", ar] + objs[1:-1])
        r = sh([CXX, "-fsanitize=address,undefined", objs[0], objs[-1], ar, "-o", out, "-Wl,--unresolved-symbols=ignore-all"] + libs + ["-lpthread"])
        if r.returncode: return None, logs + r.stdout
        return out, logs

def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, i, v in inputs: f.write("%s %d %d\n" % (n, i, v))

ENVR = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=1")

def replay(binary, inp):
    try:
        r = subprocess.run([binary, inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60, env=ENVR)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"

def confirmed(rc):
    return rc == 77 or rc < 0 or rc in (134, 139)

def load_known(pid):
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def merge(out, parts):
    T = {}
    for i in range(parts):
        d = json.load(open("%s.%d" % (out, i)))
        for k, v in d.items():
            if isinstance(v, bool): continue
            if isinstance(v, (int, float)):
                T[k] = max(T.get(k, 0), v) if k in ("solver_max", "rss_mb") else T.get(k, 0) + v
            elif k == "reach":
                r = T.setdefault(k, {})
                for a, b in v.items(): r[a] = r.get(a, 0) + b
            elif k == "incomplete":
                r = T.setdefault(k, {})
                for a, b in v.items():
                    r.setdefault(a, [0, b[1]]); r[a][0] += b[0]
            elif k == "functions":
                T[k] = sorted(set(T.get(k, [])) | set(v))
            else:
                T[k] = T.get(k, []) + v
    return T

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        return setup()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, V)
    import checks
    spec = checks.CHECKS[pid]
    runs = [r for r in spec["runs"] if tier in r.get("tiers", ("quick", "thorough")) and (not only or r["name"] == only)]
    W = "%s/%s" % (B, pid + (os.environ.get("VERIF_TAG", "")))
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    build_engine()
    rt = build_rt()
    ex = cf.ThreadPoolExecutor(JOBS)
    nat = Native(W, ex)

    # ---- bitcode
    def bc(src, flags, out):
        r = sh([CXX] + BCF + flags + [src, "-o", out])
        return (src, r.returncode == 0, out, r.stdout)
    futs = [ex.submit(bc, s, [], "%s/r%d.bc" % (W, i)) for i, s in enumerate(repo_sources())]
    for i, r in enumerate(runs):
        r["key"] = re.sub(r"\W", "_", r["name"])
        d = dict(r.get("defs", {})); d.update(r.get(tier, {}))
        r["defs"] = ["-DPROP_%s=1" % pid, "-DPROP=%d" % int(pid[1:])] + ["-D%s=%s" % kv for kv in d.items()]
        r["bounds_defs"] = d
        r["fut"] = ex.submit(bc, V + "/harness/" + r["src"], r["defs"], "%s/h_%s.bc" % (W, r["key"]))
    repo_bc, notes = [], []
    for f in futs:
        s, ok, o, log = f.result()
        if ok: repo_bc.append(o)
        else: notes.append("not compiled for symbolic execution: %s: %s" % (s, log[:2000]))
    def link(r):
        s, ok, o, log = r["fut"].result()
        if not ok: return "harness does not compile against the sources: " + log[:4000]
        l, lo = "%s/l_%s.bc" % (W, r["key"]), "%s/lo_%s.bc" % (W, r["key"])
        x = sh(["llvm-link-18", rt, o] + repo_bc + ["-o", l])
        if x.returncode: return "llvm-link: " + x.stdout[:2000]
        x = sh(["opt-18", "-passes=internalize,default<O1>", "-internalize-public-api-list=sym_main,malloc,free,memcpy,strlen", l, "-o", lo])
        if x.returncode: return "opt: " + x.stdout[:2000]
        r["bc"] = lo
        return ""
    links = [ex.submit(link, r) for r in runs]
    tot = dict(paths=0, killed=0, forks=0, picks=0, steps=0, asserts=0, assert_queries=0, branch_queries=0, queries=0, cache_hits=0, sat=0, unsat=0, unknown=0, solver_time=0.0)
    funcs, errors, viol, unconf, known_hit, perrun, samples = set(), list(), [], [], [], [], []
    validated = 0; valbad = []
    known = load_known(pid)
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "14400"))
    for r, lf in zip(runs, links):
        e = lf.result()
        if e:
            errors.append("%s: %s" % (r["name"], e)); continue
        nat.start(r)
        out = "%s/o_%s.json" % (W, r["key"])
        left = max(20.0, budget - (time.time() - t0))
        tl = min(left, r.get("time", {}).get(tier, 400 if tier == "quick" else 7200))
        cmd = [SYMX, r["bc"], "--out", out, "--time", "%.0f" % tl, "--jobs", str(JOBS), "--wit", os.environ.get("VERIF_WIT", "2" if tier == "quick" else "6"), "--mem", "3300"] + r.get("opts", [])
        if tier == "thorough": cmd += ["--smt", W + "/q_" + r["key"], "--smt-max", "60", "--smt-every", "7"]
        ts = time.time()
        x = sh(cmd)
        if x.returncode:
            errors.append("%s: engine exit %d: %s" % (r["name"], x.returncode, x.stdout[-1500:])); continue
        h = json.load(open(out))
        T = merge(out, h["parts"])
        for k in tot: tot[k] += T.get(k, 0)
        funcs |= set(T.get("functions", []))
        perrun.append(dict(harness=r["name"], file=r["src"], bounds=r["bounds_defs"], what=r.get("what", ""), paths=T["paths"], killed_by_assumption=T["killed"], assertions=T["asserts"], assert_queries=T["assert_queries"], branch_queries=T["branch_queries"], solver_queries=T["queries"], unsat=T["unsat"], sat=T["sat"], unknown=T["unknown"], solver_time_s=round(T["solver_time"], 3), wall_s=round(time.time() - ts, 2), reach=T.get("reach", {})))
        inc = {k: v for k, v in T.get("incomplete", {}).items() if k != "stopped after counterexamples"}
        seen = set(); mine = 0
        for ce in T.get("ces", []):
            key = ce["kind"] + ce["msg"]
            if key in seen and mine: continue
            seen.add(key)
            if ce["kind"] == "harness":
                errors.append("%s: harness error %s" % (r["name"], ce["msg"])); continue
            b, log = nat.binary(r)
            n = len(viol) + len(unconf)
            inp = "%s/ce_%s_%d.txt" % (W, r["key"], n)
            write_inputs(inp, ce["inputs"])
            rc, so, se = replay(b, inp) if b else (-999, "", "replay does not build: " + log[:3000])
            rec = dict(harness=r["name"], kind=ce["kind"], msg=ce["msg"], stack=ce["stack"], trace=ce["trace"], inputs=ce["inputs"], replay_exit=rc, replay_stderr=se[-3000:], replay_stdout=so[-3000:], replay_cmd="%s %s" % (b, inp))
            rp = "%s/ce_%s_%d.json" % (W, r["key"], n)
            json.dump(rec, open(rp, "w"), indent=1)
            if b and confirmed(rc):
                hit = [k for k in known if re.search(k[0], ce["msg"])]
                if hit: known_hit.append(hit[0][1])
                else: viol.append((rp, rec)); mine += 1
            else: unconf.append((rp, rec))
        if inc and not mine:
            for k, v in inc.items(): errors.append("%s: incomplete: %s (%d) %s" % (r["name"], k, v[0], v[1][:600]))
        missing = [t for t in r.get("reach", []) if t not in T.get("reach", {})]
        if missing and not mine: errors.append("%s: vacuity: never reached %s" % (r["name"], missing))
        wits = T.get("witnesses", [])
        for w in wits[:1]:
            samples.append(dict(harness=r["name"], inputs=[x for x in w["inputs"]][:120], trace=w["trace"][:60]))
        if viol and tier == "quick": break
        r["wits"] = wits
    # ---- witnesses: the executor's account of sample paths must agree with the natively compiled code
    if not viol:
        for r in runs:
            if not r.get("wits") or r.get("no_native"): continue
            b, log = nat.binary(r)
            if not b: errors.append("%s: native build failed: %s" % (r["name"], log[:3000])); continue
            def one(k, b=b, r=r):
                w = r["wits"][k]
                inp = "%s/wit_%s_%d.txt" % (W, r["key"], k)
                write_inputs(inp, w["inputs"])
                rc, so, se = replay(b, inp)
                tr = [l[6:] for l in so.splitlines() if l.startswith("TRACE ")]
                return (rc == 0 and tr == w["trace"], inp, rc, se, tr, w["trace"])
            for ok, inp, rc, se, tr, wt in ex.map(one, range(len(r["wits"]))):
                if ok: validated += 1
                else:
                    d = next((i for i in range(max(len(tr), len(wt))) if i >= len(tr) or i >= len(wt) or tr[i] != wt[i]), -1)
                    valbad.append("%s %s rc=%d first difference at %d: native %s, symbolic %s; %s" % (r["name"], inp, rc, d, tr[d:d + 3], wt[d:d + 3], se[-400:]))
        if valbad: errors.append("executor and native code disagree on %d witness(es): %s" % (len(valbad), valbad[0]))
    cross = None
    if tier == "thorough" and not viol:
        cross = crosscheck(W)
        if cross["disagree"]: errors.append("cvc5 disagrees with z3 on %d queries" % cross["disagree"])
    wall = time.time() - t0
    reg = [f for f in funcs if not re.match(r"(std::|__gnu_cxx|void std::|bool std::|operator|__|sym_|h_|YAML::|spdlog::)", f)]
    cov = dict(
        states=tot["paths"] + tot["forks"], transitions=tot["branch_queries"] + tot["picks"], traces_validated_against_impl=validated,
        samples=samples[:6], exhaustive=not errors and not viol,
        explanation="bounded symbolic execution of the real functions' LLVM IR; states = symbolic states (completed paths + forked states), transitions = symbolic branch decisions (solver-decided branches + symbolic choices); exhaustive within the bounds given per harness",
        functions_encoded=sorted(reg)[:400], functions_encoded_total=len(funcs), harnesses=perrun,
        symbolic_paths=tot["paths"], paths_ended_by_assumption=tot["killed"], assertions_checked=tot["asserts"],
        assertion_queries=tot["assert_queries"], branch_queries=tot["branch_queries"], solver_queries=tot["queries"], query_cache_hits=tot["cache_hits"],
        solver_unsat=tot["unsat"], solver_sat=tot["sat"], solver_unknown=tot["unknown"], solver_time_s=round(tot["solver_time"], 3),
        instructions=tot["steps"], solver="z3 (C API, QF_BV)", bounds=spec.get("bounds", ""), outside_bounds=spec.get("outside", ""), notes=notes, errors=errors, unconfirmed=[u[0] for u in unconf])
    if cross is not None: cov["cvc5_crosscheck"] = cross
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for k in sorted(set(known_hit)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for r in perrun: print("%-28s paths %7d  asserts %8d  queries %7d  solver %6.1fs  wall %6.1fs" % (r["harness"], r["paths"], r["assertions"], r["solver_queries"], r["solver_time_s"], r["wall_s"]))
    print("witnesses replayed natively with identical traces: %d" % validated)
    for f in glob.glob(W + "/*.bc") + glob.glob(W + "/*.o") + glob.glob(W + "/*.a"): 
        if not os.environ.get("VERIF_KEEP"): os.unlink(f)
    if viol:
        for rp, rec in viol:
            print("violated: [%s] %s: %s" % (rec["harness"], rec["kind"], rec["msg"]))
            print("   at " + " <- ".join(rec["stack"][:4]))
            print("   replay: " + (rec["replay_stderr"].strip().splitlines() or [""])[0][:300])
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][0]))
        return 1
    if unconf:
        for rp, rec in unconf: print("UNCONFIRMED counterexample [%s] %s: %s (replay exit %d: %s) %s" % (rec["harness"], rec["kind"], rec["msg"], rec["replay_exit"], rec["replay_stderr"][-300:], rp))
        return 2
    if errors:
        for e in errors: print("ERROR", e)
        return 2
    print("property %s holds within the bounds (%s tier, %.1fs)" % (pid, tier, wall))
    return 0

def crosscheck(W):
    """re-decide a sample of the queries with cvc5"""
    n = agree = dis = unk = 0
    ts = time.time()
    files = glob.glob(W + "/q_*")
    def one(f):
        txt = open(f).read()
        want = re.findall(r"^; EXPECT (\w+)", txt, re.M)
        r = sh(["timeout", "300", "cvc5", "--incremental", "--lang=smt2", f])
        got = [l for l in r.stdout.split() if l in ("sat", "unsat", "unknown")]
        return want, got, "(error" in r.stdout
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for want, got, err in ex.map(one, files):
            for i, w in enumerate(want):
                n += 1
                g = got[i] if i < len(got) else "unknown"
                if g == w: agree += 1
                elif g == "unknown" or err: unk += 1
                else: dis += 1
    return dict(queries=n, agree=agree, disagree=dis, undecided=unk, time_s=round(time.time() - ts, 1))

if __name__ == "__main__":
    sys.exit(main())
