#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property by symbolic execution of the real code in /repo."""
import sys, os, json, subprocess, time, shutil, random, fcntl
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import jobs as JB
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", V + "/build")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_TARGET_DIR=BUILD + "/target", RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp")
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def die(msg): print("ERROR:", msg); sys.exit(2)

def build(profiles, features=()):
    """harness + crate to LLVM IR and to a native library; other features go to a build folder of their own"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    procs = []
    eng = subprocess.Popen(["bash", V + "/engine/build.sh", BUILD + "/engine"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = {}
    for p in profiles:
        tgt = BUILD + "/target" + "".join("-" + f for f in features)
        r = sh(["cargo", "rustc", "--offline", "--locked", "--profile", p] + ["--features=" + f for f in features] + ["--", "--emit=llvm-ir,link"], cwd=V + "/harness", env=dict(ENV, CARGO_TARGET_DIR=tgt))
        if r.returncode: print(r.stdout[-3000:]); die("the harness does not build against /repo")
        d = tgt + "/" + p
        out[p] = (d + "/deps/vharness.ll", d + "/libvharness.so")
    o = eng.communicate()[0]
    if eng.returncode: print(o[-3000:]); die("engine build failed")
    fcntl.flock(lock, fcntl.LOCK_UN)
    return out

def replay(lib, fn, params, inputs, alarm=20):
    r = subprocess.run([BUILD + "/engine/symx", "replay", "--lib", lib, "--fn", fn, "--params", ",".join(map(str, params)), "--inputs", ",".join(map(str, inputs)), "--alarm", str(alarm)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    return r.returncode, r.stdout, r.stderr

def reproduced(rc, out):
    if rc == 10: return "assertion failed: " + " ".join(l[10:] for l in out.splitlines() if l.startswith("CHECKFAIL"))
    if rc == -14: return "does not terminate within the replay limit"
    if rc < 0 and rc != -9:
        allowed = False
        for l in out.splitlines():
            if l == "MAYPANIC": allowed = True
            if l == "NOPANIC": allowed = False
        if not allowed: return "panic or crash (signal %d)" % -rc
    return None

def main():
    if sys.argv[1] == "--build": build(["release"]); return 0
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:]   # debugging aid: harness name filter
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    spec = JB.PROPS[prop]; work = "%s/work/%s" % (BUILD, prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    os.makedirs(V + "/evidence", exist_ok=True)
    profiles = ["release"] if tier == "quick" else ["release", "relsem"]
    libs = build(profiles, spec.get("features", ())); tb = time.time() - t0
    todo = [j for j in spec["jobs"] if j["tier"] == "quick" or tier == "thorough"]
    if only: todo = [j for j in todo if j["fn"] in only]
    limit = float(os.environ.get("VERIF_LIMIT", "780" if tier == "quick" else "7200"))
    results = []; viol = None; stats = {}
    for prof in profiles:
        ll, lib = libs[prof]; js = [j for j in todo if prof == "release" or not j.get("devonly")]
        jf = work + "/jobs." + prof; of = work + "/out." + prof + ".jsonl"
        order = sorted(range(len(js)), key=lambda i: -js[i].get("cost", 1))
        with open(jf, "w") as f:
            for i in order:
                j = js[i]; o = "j%d fn=%s params=%s slices=%d time=%s samples=%d" % (i, j["fn"], ",".join(map(str, j["params"])), j["slices"], j["time"] if tier == "quick" else j["time"] * 8, j.get("samples", 3))
                for k in ("depth", "instr", "smode", "qms", "fallback"):
                    if k in j: o += " %s=%s" % (k, j[k])
                f.write(o + "\n")
        r = sh([BUILD + "/engine/symx", "run", "--ll", ll, "--jobs", jf, "--out", of, "-j", str(min(8, os.cpu_count() or 8)), "--stop", "1", "--deadline", str(max(5, limit - (time.time() - t0))), "--tmp", work])
        if not os.path.exists(of): print(r.stdout[-2000:]); die("engine failed")
        res = [json.loads(l) for l in open(of)]
        for d in res: d["profile"] = prof; d["spec"] = js[int(d["job"][1:])]
        results += res
        if any(d["status"] == "violation" for d in res): break
    # ---- violations first: only what reproduces on the compiled code counts
    bad = []; unrepro = []
    for d in results:
        for v in d["violations"]:
            for prof in [d["profile"]] + [p for p in profiles if p != d["profile"]]:
                rc, out, err = replay(libs[prof][1], d["fn"], d["params"], v["in"])
                why = reproduced(rc, out)
                if why: bad.append((d, v, why, prof, err)); break
            else: unrepro.append((d, v, rc, out))
    n = 0
    for d, v, why, prof, err in bad[:5]:
        rp = "%s/evidence/replay_%s_%d.json" % (V, prop, n); n += 1
        json.dump(dict(property=prop, fn=d["fn"], params=d["params"], inputs=v["in"], kind=v["kind"], message=v["msg"], where=v["where"], observed=why, stderr=err[-800:], profile=prof,
                       command="%s/engine/symx replay --lib %s --fn %s --params %s --inputs=%s" % (BUILD, libs[prof][1], d["fn"], ",".join(map(str, d["params"])), ",".join(map(str, v["in"])))), open(rp, "w"), indent=1)
        print("%s(%s) inputs %s: %s: %s" % (d["fn"], d["params"], v["in"], v["kind"], v["msg"] or why)); print("VIOLATION property=%s replay=%s" % (prop, rp))
    # ---- validation of the encoding: predicted observations against native runs
    rnd = random.Random(seed); val = mism = 0; samples = []; todo_s = []
    for d in results:
        for s in d["samples"]: todo_s.append((d, s))
    rnd.shuffle(todo_s); cap = 60 if tier == "quick" else 400; mm = None
    for d, s in todo_s[:cap]:
        rc, out, err = replay(libs[d["profile"]][1], d["fn"], d["params"], s["in"])
        obs = [int(l[4:]) for l in out.splitlines() if l.startswith("OBS ")]
        if rc in (0, 10, -6, -4, -5) and obs[:len(s["obs"])] == s["obs"] and (rc == 0 or bad or "MAYPANIC" in out): val += 1
        else: mism += 1; mm = mm or (d["fn"], d["params"], s, rc, out[-300:], err[-300:])
        if len(samples) < 6: samples.append(dict(fn=d["fn"], params=d["params"], inputs=s["in"], observed=obs))
    tot = lambda k: sum(d.get(k, 0) for d in results)
    incon = [d for d in results if d["status"] in ("inconclusive", "error")]
    want = {}
    for d in results:
        for c in d["spec"]["covers"]: want.setdefault((d["fn"], tuple(d["params"]), c), False)
    for d in results:
        for c in d["covers"]:
            if (d["fn"], tuple(d["params"]), c) in want: want[(d["fn"], tuple(d["params"]), c)] = True
    missing = [k for k, x in want.items() if not x]
    funcs = sorted({f for d in results for f in d["functions"] if "chronologic" in f})
    allf = {f for d in results for f in d["functions"]}
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(bad),
      coverage=dict(states=tot("paths"), transitions=tot("forks") + tot("checks"), traces_validated_against_impl=val, samples=samples,
        explanation="states = symbolic paths of the compiled code explored to their end (each stands for every input satisfying its path condition); transitions = symbolic branch decisions and assertions decided; traces_validated = sampled paths whose predicted observations were compared with a native run of the same code",
        bounds=spec["bounds"], harnesses=sorted({d["fn"] for d in results}), jobs=len(results), instructions_executed=tot("instrs"), assertions_reached=tot("checks"), assertions_decided_by_solver=tot("checksSolved"), assertions_decided_by_simplifier=tot("checksTrivial"),
        queries=tot("queries"), queries_sat=tot("sat"), queries_unsat=tot("unsat"), queries_unknown=tot("unknown"), external_solver_queries=tot("fallback"), solver_seconds=round(tot("solverSecs"), 2), slowest_query_s=round(max([d["maxQuery"] for d in results] or [0]), 3), build_seconds=round(tb, 1),
        functions_encoded_total=len(allf), functions_encoded_of_this_crate=funcs[:200], reachability_witnesses=["%s%s: %s" % (k[0], list(k[1]), k[2]) for k, x in want.items() if x][:80], profiles=profiles,
        semantics="release = optimised build with overflow checks and debug assertions (development semantics); relsem = the same without them"),
      assumptions=spec.get("assumptions", []) + ["rustc/LLVM lowering to IR at opt-level 1 and the engine's IR semantics (validated by native replay of sampled paths)", "z3/cvc5 answers", "allocation never fails"])
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    print("%s %s: %d jobs, %d paths, %d assertions, %d queries, solver %.1fs, build %.1fs, total %.1fs, validated %d samples" % (prop, tier, len(results), tot("paths"), tot("checks"), tot("queries"), tot("solverSecs"), tb, time.time() - t0, val))
    if bad: return 1
    if unrepro:
        for d, v, rc, out in unrepro[:5]: print("ERROR: counterexample does not reproduce natively:", d["fn"], d["params"], v, "rc", rc, out[-200:])
        return 2
    if incon:
        for d in incon[:8]: print("ERROR: inconclusive:", d["fn"], d["params"], d["slice"], d["reason"])
        return 2
    if mism: print("ERROR: encoding validation mismatch:", mm); return 2
    if len(results) < sum(j["slices"] for j in todo) * len(profiles): print("ERROR: some jobs did not run"); return 2
    if missing and not only: print("ERROR: unreached witnesses (vacuous check):", missing[:8]); return 2
    if tot("checks") == 0: print("ERROR: no assertion reached"); return 2
    for k in json.load(open(V + "/known_findings.json")).get("findings", []) if os.path.exists(V + "/known_findings.json") else []:
        if k["property"] == prop: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    return 0
sys.exit(main())
