#!/usr/bin/env python3
"""check.py C01 [quick|thorough]   decide one property by symbolic execution of /repo's current source
   check.py --replay FILE          run a counterexample file natively against /repo's current source
Exit 0: held on everything explored; 1: VIOLATION line; 2: nothing could be decided."""
import concurrent.futures as cf, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LPA_REPO", "/repo")
LIB = os.path.join(REPO, "src", "lpaggreg")
B = os.path.join(V, "build")
CXX = ["-std=gnu++11", "-w", "-I" + os.path.join(LIB, "headers"), "-I" + os.path.join(V, "harness")]
BCF = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-c", "-emit-llvm"]
JOBS = max(2, os.cpu_count() or 2)
sys.path.insert(0, V)


def tool(n):
    return shutil.which(n) or shutil.which(n + "-18") or "/usr/lib/llvm-18/bin/" + n


def sources():
    d = os.path.join(LIB, "sources")
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith((".cpp", ".cc", ".cxx")))


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def walk(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-3000:] + "\n")
        raise RuntimeError("build failed")


class Lock:
    def __init__(self, p): self.p = p
    def __enter__(self):
        os.makedirs(os.path.dirname(self.p), exist_ok=True)
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()


def engine():
    out = os.path.join(B, "lpsym"); src = walk(os.path.join(V, "engine")); stamp = out + "." + digest(src)
    with Lock(os.path.join(B, "engine.lock")):
        if not (os.path.exists(out) and os.path.exists(stamp)):
            sh(["bash", os.path.join(V, "engine", "build.sh"), out]); open(stamp, "w").close()
    return out


def pool(cmds):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(sh, cmds))


def build_lib(kind):
    """library compiled from the current tree: kind bc | plain | asan -> list of object files"""
    src = sources()
    flags = {"bc": BCF, "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-c"], "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-c"]}[kind]
    comp = tool("clang++") if kind == "bc" else "g++"
    d = os.path.join(B, kind + "_" + digest(walk(LIB), comp + " ".join(flags)))
    with Lock(d + ".lock"):
        if not os.path.exists(d + "/ok"):
            os.makedirs(d, exist_ok=True)
            pool([[comp] + CXX + flags + [s, "-o", os.path.join(d, os.path.basename(s) + ".o")] for s in src])
            open(d + "/ok", "w").close()
    return d, [os.path.join(d, os.path.basename(s) + ".o") for s in src], flags, comp


def r_literals(text):
    """the string literals of an R source file"""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c == "#":
            while i < n and text[i] != "\n": i += 1
        elif c in "'\"":
            j, s = i + 1, []
            while j < n and text[j] != c:
                if text[j] == "\\" and j + 1 < n: j += 1; s.append({"n": "\n", "t": "\t"}.get(text[j], text[j]))
                else: s.append(text[j])
                j += 1
            out.append("".join(s)); i = j + 1
        elif c == "`":
            i = text.find("`", i + 1) + 1 or n
        else: i += 1
    return out


def r_source():
    """the C++ code held in R/lpaggreg.R, in a directory where it can be included with the library's headers"""
    f = os.path.join(REPO, "R", "lpaggreg.R"); text = open(f, encoding="utf-8", errors="replace").read()
    code = "\n".join(t for t in r_literals(text) if "#include" in t)
    d = os.path.join(B, "r_" + hashlib.sha256((LIB + code).encode()).hexdigest()[:20])
    with Lock(d + ".lock"):
        if not os.path.exists(d + "/ok"):
            os.makedirs(d, exist_ok=True)
            open(d + "/rsrc.inc", "w").write(code)
            if not os.path.islink(d + "/lpaggreg"): os.symlink(os.path.join(LIB, "headers"), d + "/lpaggreg")
            open(d + "/ok", "w").close()
    return d


def build_harness(name, kind):
    libd, objs, flags, comp = build_lib(kind)
    if name == "rapi": d = r_source(); flags = flags + ["-I" + d, "-I" + os.path.join(V, "harness", "stubs")]
    hs = [os.path.join(V, "harness", name + ".cpp")]
    hdr = [p for p in walk(os.path.join(V, "harness")) if p.endswith(".h")]
    rt = os.path.join(V, "harness", "runtime.cpp" if kind == "bc" else "native_rt.cpp")
    out = os.path.join(libd, name + "_" + digest(hs + hdr + [rt], " ".join(flags)) + ("." + kind))
    with Lock(out + ".lock"):
        if not os.path.exists(out):
            o1, o2 = out + ".h.o", out + ".rt.o"
            pool([[comp] + CXX + flags + [hs[0], "-o", o1], [comp] + CXX + flags + [rt, "-o", o2]])
            tmp = out + ".tmp"
            if kind == "bc": sh([tool("llvm-link")] + objs + [o1, o2, "-o", tmp])
            else: sh(["g++"] + (["-fsanitize=address,undefined"] if kind == "asan" else []) + objs + [o1, o2, "-o", tmp])
            os.rename(tmp, out)
    return out


def replay_cmds(name):
    me = "%s %s" % (sys.executable, os.path.join(V, "check.py"))
    return build_harness(name, "plain"), "%s --run-asan %s" % (me, name), "%s --run-vg %s" % (me, name)


BUDGET = 1e9  # seconds per configuration, set by the tier
procs = set(); plock = threading.Lock(); stop = threading.Event()


def run_config(prop, k, cfg, eng, work, seed, deadline):
    name = cfg["harness"]; tag = "%s_%d%s" % (prop, k, "" if "part" not in cfg else "_%d" % cfg["part"]); res = os.path.join(work, tag + ".json")
    plain, asan, vg = replay_cmds(name); bc = build_harness(name, "bc")
    left = deadline - time.time()
    if left < 5 or stop.is_set(): return {"skipped": True, "cfg": cfg}
    cmd = [eng, "--replay", plain, "--replay-asan", asan, "--replay-vg", vg, "--work", work, "--tag", tag, "--result", res, "--seed", str(seed),
           "--budget", str(min(cfg.get("budget", BUDGET), left))]
    for a, b in cfg.get("params", {}).items(): cmd += ["--param", "%s=%s" % (a, b)]
    for a, b in cfg.get("opts", {}).items(): cmd += ["--" + a, str(b)]
    if "part" in cfg: cmd += ["--split", "%d/%d" % (cfg["part"], cfg["split"])]
    cmd.append(bc)
    if stop.is_set(): return {"skipped": True, "cfg": cfg}
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
    with plock: procs.add(p)
    try:
        try: _, err = p.communicate(timeout=max(10, left + 90))
        except subprocess.TimeoutExpired:
            kill(p); _, err = p.communicate()
    finally:
        with plock: procs.discard(p)
    try: r = json.load(open(res))
    except Exception: r = {"failed": "rc %s %s" % (p.returncode, (err or "")[-500:])}
    r["cfg"] = cfg; r["tag"] = tag
    return r


def kill(p):
    try: os.killpg(p.pid, 9)
    except Exception: pass


def native_run(kind, name, f):
    exe = build_harness(name, "plain" if kind == "vg" else kind)
    if kind == "asan":
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0")
        os.execve(exe, [exe, f], env)
    if kind == "vg": os.execvp("valgrind", ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes", exe, f])
    os.execv(exe, [exe, f])


def main():
    if len(sys.argv) > 2 and sys.argv[1] in ("--run-asan", "--run-vg"): native_run(sys.argv[1][6:], sys.argv[2], sys.argv[3])
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        hn = [l.split()[1] for l in open(sys.argv[2]) if l.startswith("source ")][0]; native_run("plain", hn, sys.argv[2])
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from configs import configs, META
    global BUDGET; BUDGET = 45 if tier == "quick" else 900
    t0 = time.time(); limit = float(os.environ.get("VERIF_LIMIT", "520" if tier == "quick" else "3000"))
    cfgs = []; eng = engine()
    for c in configs(prop, tier, seed):
        cfgs += [c] if c.get("split", 1) < 2 else [dict(c, part=i) for i in range(c["split"])]
    names = sorted({c["harness"] for c in cfgs})
    build_lib("bc"); build_lib("plain")
    for n in names: build_harness(n, "bc"); build_harness(n, "plain")
    tbuild = time.time() - t0
    work = tempfile.mkdtemp(prefix="lpsym_%s_" % prop); results = []; hit = None
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(run_config, prop, k, c, eng, work, seed, t0 + limit) for k, c in enumerate(cfgs)]
            for f in cf.as_completed(futs):
                r = f.result(); results.append(r)
                c = [v for v in r.get("violations", []) if v["confirmed"]]
                if c and not hit:
                    hit = (r, c[0]); stop.set()
                    with plock:
                        for p in list(procs): kill(p)
        results = join(results)
        ev = evidence(prop, tier, seed, results, META.get(prop, {}), tbuild, time.time() - t0, hit)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        if hit:
            r, v = hit; rp = os.path.join(B, "replay"); os.makedirs(rp, exist_ok=True); dst = os.path.join(rp, prop + ".in")
            txt = open(v["file"]).read()
            open(dst, "w").write("source %s\n# %s: %s\n# %s\n" % (r["cfg"]["harness"], v["id"], v["what"], v["native"].replace("\n", "\n# ")) + txt)
            print("%s: %s (%s) with %s" % (prop, v["id"], v["what"], r["cfg"].get("params", {}))); print(v["native"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, dst)); sys.exit(1)
        c = ev["coverage"]
        print("%s %s: %d configurations, %d paths, %d queries, %d assertions and %d identities discharged by the solver, %d traces validated, %.1fs" % (prop, tier, c["configurations"], c["states"], c["queries"], c["assertions_discharged"], c["identities_discharged"], c["traces_validated_against_impl"], ev["wall_s"]))
        for w in c["limits"]: print("  note: " + w)
        if c["states"] == 0: print("nothing could be explored"); sys.exit(2)
        sys.exit(0)
    finally:
        if os.environ.get("VERIF_KEEP"): print("kept " + work)
        else: shutil.rmtree(work, ignore_errors=True)


def join(results):
    """one result per configuration: adds up the shares of split ones"""
    out = {}
    for r in results:
        key = json.dumps({k: v for k, v in r["cfg"].items() if k != "part"}, sort_keys=True)
        if key not in out: out[key] = dict(r); continue
        o = out[key]
        for a, b in r.items():
            if isinstance(b, bool) or a in ("skipped", "failed"): o[a] = o.get(a) or b
            elif a == "wall_s": o[a] = max(o.get(a, 0), b)
            elif isinstance(b, (int, float)): o[a] = o.get(a, 0) + b
            elif isinstance(b, list): o[a] = o.get(a, []) + [x for x in b if x not in o.get(a, [])]
            elif isinstance(b, dict) and a != "cfg":
                q = o.get(a) or {}; num = lambda v: v if isinstance(v, (int, float)) else 0
                o[a] = {x: num(q.get(x, 0)) + num(b.get(x, 0)) if isinstance(q.get(x, b.get(x)), (int, float)) else q.get(x, b.get(x)) for x in set(b) | set(q)}
    return list(out.values())


def evidence(prop, tier, seed, results, meta, tbuild, wall, hit):
    s = lambda k: sum(r.get(k, 0) for r in results if isinstance(r.get(k, 0), (int, float)))
    fn = sorted({f for r in results for f in r.get("functions", [])}); limits = []; samples = []
    asserts = {}; add = lambda w: w in limits or limits.append(w)
    for r in results:
        for a, n in r.get("asserts", {}).items(): asserts[a] = asserts.get(a, 0) + n
        lab = "%s %s" % (r["cfg"]["harness"], json.dumps(r["cfg"].get("params", {}), sort_keys=True))
        if r.get("skipped"): limits.append(lab + ": not started (a violation was found or the time ran out)")
        if r.get("failed"): limits.append(lab + ": engine failed: " + r["failed"])
        if r.get("truncated") or r.get("pending"): limits.append(lab + ": time budget reached, %d paths left unexplored" % r.get("pending", 0))
        for w, n in r.get("incomplete_reasons", {}).items(): limits.append("%s: %d paths ended undecided: %s" % (lab, n, w))
        if r.get("assert_undecided"): limits.append("%s: %d assertions undecided (solver timeout)" % (lab, r["assert_undecided"]))
        if r.get("traces_diverged"): limits.append("%s: %d native runs computed other outputs than the encoding (ties or rounding)" % (lab, r["traces_diverged"]))
        for v in r.get("violations", []):
            if not v["confirmed"]: add("%s: unconfirmed candidate %s: %s" % (lab, v["id"], v["what"]))
        for x in r.get("samples", [])[:2]:
            if len(samples) < 12: samples.append(lab + ": " + x)
    per = [{"harness": r["cfg"]["harness"], "params": r["cfg"].get("params", {}), "processes": r["cfg"].get("split", 1), "paths": r.get("paths"), "queries": r.get("queries"), "assertions": r.get("asserts"), "complete": bool(r.get("paths")) and not (r.get("truncated") or r.get("pending") or r.get("incomplete")), "solver_s": round(r.get("solver_s", 0), 2), "wall_s": round(r.get("wall_s", 0), 2)} for r in results]
    return {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": 1 if hit else 0,
            "assumptions": meta.get("assumptions", []) + COMMON,
            "coverage": {"states": s("paths"), "transitions": s("instructions"), "traces_validated_against_impl": s("traces_ok"), "traces_diverged": s("traces_diverged"), "samples": samples or ["none"],
                         "counting": "states = symbolic paths run to their end (each stands for all inputs satisfying its path condition); transitions = LLVM IR instructions executed symbolically; traces = solver models of paths replayed on the natively compiled code with equal outputs; assertions_discharged = negated assertions the solver found unsatisfiable under the path condition; identities_discharged = comparisons of symbolic values whose two sides have the same normal form, confirmed unsatisfiable when negated; assertions_concretely_true = assertions that were constant after these",
                         "configurations": len(results), "queries": s("queries"), "queries_sat": s("sat"), "queries_unsat": s("unsat"), "queries_unknown": s("unknown"), "solver_s": round(s("solver_s"), 2), "build_s": round(tbuild, 2), "forks": s("forks"),
                         "assertions_discharged": s("assert_discharged"), "identities_discharged": s("identities"), "identities_by_normal_form_only": s("identities_open"), "assertions_concretely_true": s("assert_concrete"), "assertions_undecided": s("assert_undecided"), "assertion_hits": asserts, "functions_encoded": fn,
                         "bounds": meta.get("bounds", ""), "per_configuration": per, "limits": limits, "exhaustive": False}}


COMMON = ["arithmetic on symbolic floating-point values is exact real arithmetic; assertions carry a tolerance of 1e-9 (1e-6 where the library rounds 1-p to single precision) and every counterexample is re-run natively in real floating point before it is reported",
          "products and logarithms of symbolic values are abstracted by one solver variable per monomial with McCormick and logarithm lemmas: sound for showing an assertion, candidates are confirmed natively",
          "bitcode stand-ins (harness/runtime.cpp) replace the compiled libstdc++ parts: tree and list node handling, hashing"]
if __name__ == "__main__":
    try: main()
    except RuntimeError as e: print("no answer: %s" % e); sys.exit(2)
    except Exception:
        import traceback; traceback.print_exc(); sys.exit(2)
