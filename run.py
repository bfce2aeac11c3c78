#!/usr/bin/env python3-vt
"""run.py check <ID>: decide one property against /repo's current working tree.

1. compile /repo's sources to LLVM IR, 2. verify every function under contract for the property (parallel), 3. run the native
driver (real code, native build) to replay counterexamples / as the labelled bounded stand-in, 4. write evidence, report."""
import argparse, concurrent.futures as cf, importlib, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/engine", HERE + "/contracts"]

G = {}
def load_contracts():
    import spec
    for f in sorted(os.listdir(HERE + "/contracts")):
        if f.startswith("c_") and f.endswith(".py"): importlib.import_module(f[:-3])
    return spec.REG

def find_fn(mod, dem, c):
    """IR names of the functions a contract is about"""
    nm = c.o.get("fn", c.name)
    r = [x for x in mod.by_base.get(nm, []) if mod.funcs[x][1] is not None]
    sg = c.o.get("sig")
    if sg: r = [x for x in r if re.search(sg, dem[x][0])]
    return r

def work(task):
    """verify one case of one function"""
    name, choice, tmul, budget = task
    import spec, sym, logic, loops, z3
    mod, dem, reg = G["mod"], G["dem"], G["reg"]
    c = reg[name]
    t0 = time.time()
    res = dict(name=name, choice=choice, more=[], obls=[], fails=[], err=None, inputs={}, stats={}, assumed=[], cover=True)
    irn = find_fn(mod, dem, c)
    if not irn:
        res["err"] = "function not found in the current sources"; res["t"] = 0; return res
    loops.TO = c.o.get("opts", {}).get("loop_to", 12.0) * tmul
    logic.STATS = {k: 0 for k in logic.STATS}
    s0 = logic.STATS
    opts = dict(c.o.get("opts", {}))
    others = {k: v for k, v in reg.items() if k != name and (k, name) not in G.get("skip", ())}
    ex = sym.Executor(mod, dem, contract_map(others, mod, dem), opts)
    ex.deadline = t0 + budget
    ex.cover = []
    try:
        for f in irn[:1]:
            res["more"] = c.verify(ex, f, choice)
        inputs = ex.inputs if hasattr(ex, "inputs") else []
        spec.discharge(ex, 25 * tmul)
    except (sym.Unsupported, sym.Budget) as e:
        res["err"] = "%s: %s" % (type(e).__name__, e)
    except RecursionError as e:
        res["err"] = "RecursionError"
    except Exception as e:
        res["err"] = "internal: " + traceback.format_exc()[-1500:]
    for o in ex.obls:
        res["obls"].append((o.name, o.fn, o.line, o.kind, o.status, o.backend, round(o.t or 0, 2)))
        if o.status in ("refuted", "unknown"):
            m = {}
            try: m = spec.model_inputs(o, ex.inputs)
            except Exception: pass
            res["fails"].append(dict(obligation=o.name, function=o.fn, line=o.line, kind=o.kind, status=o.status, model=m, path=[list(x) for x in o.trail[-30:]]))
    res["cover"] = all(x[2] for x in ex.cover) if ex.cover else True
    res["trivial"] = getattr(ex, "trivial", 0)
    res["stats"] = dict(logic.STATS)
    res["stats"].update(loops=ex.stats["loops"], inv=ex.stats["inv"], paths=ex.stats["paths"], variants=ex.stats.get("variants", 0))
    res["inlined"] = sorted(ex.stats["inlined"]); res["contracted"] = sorted(ex.stats["contracted"]); res["trusted"] = sorted(ex.stats["trusted"])
    res["t"] = time.time() - t0
    return res

def cases(name):
    """all cases of one contract (runs the specification only)"""
    import spec, sym
    c = G["reg"][name]
    irn = find_fn(G["mod"], G["dem"], c)
    out = [()]
    if not irn: return out
    for ch in out:
        try: out += [tuple(m) for m in c.verify(sym.Executor(G["mod"], G["dem"], {}, dict(c.o.get("opts", {}))), irn[0], ch, enum=True)]
        except Exception: pass         # reported by the verification of that case
    return out

def contract_map(reg, mod, dem):
    """IR name -> contract (only for functions that exist)"""
    out = {}
    for k, c in reg.items():
        if c.o.get("callable") is False: continue
        for f in find_fn(mod, dem, c) or []: out[f] = c
        if c.trusted: out[c.o.get("fn", c.name)] = c
    return out

def verify_all(names, budget, jobs, log):
    """all cases of all functions; failures are retried once, alone, with larger limits"""
    done = {}
    def run(tasks, tmul, jobs, bud):
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
            fut = {ex.submit(work, (n, ch, tmul, bud)): (n, ch) for n, ch in tasks}
            while fut:
                d, _ = cf.wait(list(fut), return_when=cf.FIRST_COMPLETED)
                for f in d:
                    k = fut.pop(f)
                    try: r = f.result()
                    except Exception as e: r = dict(name=k[0], choice=k[1], more=[], obls=[], fails=[], err="worker died: %s" % e, stats={}, inputs={}, cover=True, t=0)
                    first = k not in done
                    done[k] = r
                    log("  %-4s %s %s obls=%d fails=%d %.1fs %s" % ("ok" if good(r) else "FAIL", k[0], k[1] or "", len(r["obls"]), len(r["fails"]), r.get("t", 0), r["err"] or ""))
                    if first:
                        for m in r["more"]:
                            k2 = (k[0], tuple(m))
                            if k2 not in done and k2 not in fut.values() and k2 not in tasks: fut[ex.submit(work, (k2[0], k2[1], tmul, bud))] = k2
    with cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork")) as ex:
        tasks = [(n, ch) for n, cs in zip(names, ex.map(cases, names)) for ch in cs]
    tasks.sort(key=lambda t: -G["reg"][t[0]].o.get("cost", 0))
    run(tasks, 1, jobs, budget)
    bad = [k for k, r in done.items() if not good(r)]
    retry = [k for k in bad if not (done[k]["err"] or "").startswith("function not found")]
    if retry and len(retry) <= 12 and not G.get("noretry"):
        log("  retrying %d" % len(retry))
        run(retry, 3, min(3, jobs), budget * 2)
    return done
def good(r): return r["err"] is None and not r["fails"] and r["cover"]

# ------------------------------------------------------------------------- native driver
def native_build(pid, scratch, log, san=True):
    src = "%s/harness/%s.cpp" % (HERE, pid)
    if not os.path.exists(src): return None, None
    out = scratch + "/drv"
    import build
    cmd = ["clang++", "-std=c++17", "-O1", "-g", "-w", "-fms-extensions", "-fdelayed-template-parsing", "-fno-exceptions", "-DGEN_TIME", "-DGEN_BUILD_DEBUG=1",
           "-I%s/base" % build.REPO, "-I%s/harness" % HERE] + (["-fsanitize=address,undefined", "-fno-sanitize=alignment,function,vptr,shift,null,pointer-overflow", "-fno-sanitize-recover=undefined"] if san else []) + [src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-3000:]
    return out, " ".join(cmd)

def native_run(drv, scratch, seed, seconds, hints, log):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1",
               VERIF_HINTS=",".join(str(h) for h in hints))
    wd = tempfile.mkdtemp(dir=scratch)
    try:
        p = subprocess.run([drv, str(seed), str(seconds)], capture_output=True, text=True, errors="replace", env=env, cwd=wd, timeout=seconds * 6 + 120)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "TIMEOUT (hang)"
    shutil.rmtree(wd, ignore_errors=True)
    return rc, out, err

def native_go(a, pid, drv, scratch, seed, secs, hints, log):
    if not drv: return None, dict(ran=False)
    rc, out, err = native_run(drv, scratch, seed, secs, hints, log)
    nat = dict(ran=True, rc=rc, seconds=secs)
    m = re.search(r"^EVALS (\d+) DISTINCT (\d+)", out, re.M)
    if m: nat.update(evaluations=int(m.group(1)), distinct=int(m.group(2)))
    nat["samples"] = re.findall(r"^SAMPLE (.*)", out, re.M)[:5]
    nat["functions"] = re.findall(r"^FUNCTION (.*)", out, re.M)
    known = known_findings(pid)
    bad = re.findall(r"^FAIL \[(.*?)\] (.*)", out, re.M)
    if rc not in (0, 1) and not bad or (rc == 1 and not bad):
        bad.append(("crash", ("driver ended with %d: " % rc) + err[-1500:].replace("\n", " | ")))
    listed = [b for b in bad if any(re.search(k["key"], b[0] + " " + b[1]) for k in known)]
    new = [b for b in bad if b not in listed]
    log("native driver: %s evaluations, %d new failures, %d known" % (nat.get("evaluations"), len(new), len(listed)))
    return ((new, out, err) if new else None), nat

def native_child(pid, args, log):
    scratch, seed, secs, hints, outp = args
    drv = scratch + "/drv"
    if not os.path.exists(drv):
        drv, dcmd = native_build(pid, scratch, log)
        if drv is None:
            if dcmd: log("native driver does not build:\n" + dcmd)
            json.dump([None, dict(ran=False, build_error=(dcmd or "no driver")[-800:])], open(outp, "w")); return
    json.dump(native_go(None, pid, drv, scratch, seed, secs, hints, log), open(outp, "w"))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd"); ap.add_argument("id", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--args"); ap.add_argument("--only", default=None); ap.add_argument("--no-native", action="store_true"); ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    if a.cmd == "setup":
        load_contracts(); os.makedirs(HERE + "/evidence/replay", exist_ok=True)
        for t in ("clang++", "opt", "z3", "z3-new", "cvc5", "c++filt"):
            if not shutil.which(t): sys.exit("missing tool " + t)
        print("setup ok"); return
    if a.cmd == "_native": return native_child(a.id, json.loads(a.args), lambda m: print(m, flush=True))
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.id
    log = lambda m: print(m, flush=True)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    code = 2
    try: code = check(a, pid, seed, scratch, log, t0)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

def check(a, pid, seed, scratch, log, t0):
    thorough = a.tier == "thorough"
    import build, spec
    reg = load_contracts()
    meta = json.load(open(HERE + "/checks.json")).get(pid, {})
    names = [n for n, c in reg.items() if pid in c.props and not c.trusted]
    deep = [n for n in names if reg[n].o.get("deep") and not thorough]     # further instances of a family of cases: thorough tier only
    names = [n for n in names if n not in deep]
    if a.only: names = [n for n in names if re.search(a.only, n)]
    problems = []      # (name, detail)
    done = {}
    cmd = ""
    nproc = None
    njson = scratch + "/native.json"
    def start_native(sd, secs, hints):
        return subprocess.Popen([sys.executable, os.path.abspath(__file__), "_native", pid, "--args", json.dumps([scratch, sd, secs, hints, njson])], stdout=sys.stdout)
    if not a.no_native: nproc = start_native(seed, meta.get("native_s", 10) * (6 if thorough else 1), [])
    if names and not a.no_proof:
        try:
            ll, cmd = build.compile_ir(HERE + "/harness/tu.cpp", scratch)
        except build.BuildError as e:
            log("the sources do not compile:\n%s" % e)
            return 2
        mod, dem = build.load(ll)
        G.update(mod=mod, dem=dem, reg=reg)
        log("%s: %d functions under contract" % (pid, len(names)))
        done = verify_all(names, meta.get("budget", 300 if not thorough else 900), a.j, log)
    fails = []
    for k, r in sorted(done.items()):
        if r["err"]: fails.append(dict(function=k[0], case=list(k[1]), obligation="undischarged (%s)" % r["err"].split("\n")[0][:300], line=0, kind="engine", model={}))
        if not r["cover"]: fails.append(dict(function=k[0], case=list(k[1]), obligation="precondition is unsatisfiable (vacuous contract)", line=0, kind="cover", model={}))
        for f in r["fails"]: fails.append(dict(f, contract=k[0], case=list(k[1])))
    # native driver
    hints = []
    for f in fails: hints += [v for v in f.get("model", {}).values() if isinstance(v, int)]
    nat = dict(ran=False)
    viol = None
    if nproc is not None:
        nproc.wait()
        viol, nat = json.load(open(njson))
        if fails and not viol and nat.get("ran"):
            start_native(seed + 7, meta.get("native_s", 10) * 3, hints[:40]).wait()
            viol, nat = json.load(open(njson))
    for k in known_findings(pid): log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # evidence
    obls = [o for r in done.values() for o in r["obls"]]
    nob = len(obls) + sum(r.get("trivial", 0) for r in done.values())
    ndis = sum(1 for o in obls if o[4] == "proved") + sum(r.get("trivial", 0) for r in done.values())
    back = {}
    for o in obls: back[o[5] or "none"] = back.get(o[5] or "none", 0) + 1
    tot = lambda k: sum(r.get("stats", {}).get(k, 0) for r in done.values())
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level=meta.get("level", "proof"), wall_s=round(time.time() - t0, 1), violations=len(fails) + (1 if viol else 0),
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd="python3-vt run.py check %s" % pid,
                            trusted_base=TRUSTED, functions_under_contract=sorted({k[0] for k in done}), left_to_the_thorough_tier=deep, cases=len(done),
                            inlined_functions=sorted({x for r in done.values() for x in r.get("inlined", [])}),
                            callee_contracts=sorted({x for r in done.values() for x in r.get("contracted", [])}),
                            trusted_models=sorted({x for r in done.values() for x in r.get("trusted", [])}),
                            backends=back, solver_s=round(tot("solver_s"), 1), solver_queries=tot("queries"), loops=tot("loops"), inferred_invariants=tot("inv"), termination_measures=tot("variants"), paths=tot("paths"),
                            preconditions_covered=sum(1 for r in done.values() if r["cover"]), compile=cmd,
                            native_driver=dict(nat, label="bounded: executes the real code on generated inputs; replays counterexamples; never counted as proved", covers=meta.get("bounded", [])),
                            evaluations=nat.get("evaluations", 0), distinct_nontrivial=nat.get("distinct", 0), rule="native driver inputs; see harness/%s.cpp" % pid, samples=nat.get("samples") or [list(o[:5]) for o in obls[:5]]),
              assumptions=ASSUME + meta.get("assumptions", []))
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    if viol or fails:
        rp = "evidence/replay/%s.txt" % pid
        with open(HERE + "/" + rp, "w") as f:
            f.write("property %s\n" % pid)
            for x in fails: f.write("failed obligation: %s\n" % json.dumps(x))
            if viol:
                f.write("\nfailing inputs on the real code (native driver harness/%s.cpp, seed %d):\n" % (pid, seed))
                for k, d in viol[0]: f.write("  [%s] %s\n" % (k, d))
                f.write("\nreplay: VERIF_SEED=%d python3-vt run.py check %s --no-proof\n" % (seed, pid))
                f.write("\n--- stdout\n%s\n--- stderr\n%s\n" % (viol[1][-6000:], viol[2][-6000:]))
        for x in fails[:10]: log("failed obligation: %s in %s line %s %s" % (x["obligation"], x["function"], x["line"], x.get("model") or ""))
        if viol:
            for k, d in viol[0][:5]: log("failing input: [%s] %s" % (k, d[:600]))
            log("VIOLATION property=%s replay=%s" % (pid, rp))
        else: log("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        return 1
    log("%s holds: %d obligations discharged, %.0fs" % (pid, ndis, time.time() - t0))
    return 0

def known_findings(pid):
    p = HERE + "/known_findings.json"
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k["status"] == "open"]

TRUSTED = ["verifier in /verif/engine (VC generation from LLVM IR, instantiation)", "clang 18 front end and opt mem2reg", "z3 5.3 (python), z3 4.8.12, z3-new, cvc5 1.1.2"]
ASSUME = ["libc and Win32 functions behave as documented (memory primitives modelled exactly)", "floating point operations are uninterpreted", "the native compiler preserves the IR's semantics",
          "distinct objects do not overlap; address arithmetic does not wrap"]
if __name__ == "__main__": main()
