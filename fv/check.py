"""Decides one property: verify every driver of the property from /repo's current sources, replay failures, write evidence."""
import argparse, concurrent.futures as cf, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time, traceback

sys.setrecursionlimit(200000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from fv import build
from fv.registry import PROPS

NCPU = min(8, os.cpu_count() or 4)

def build_unit(unit, work):
    t0 = time.time()
    try:
        if unit.get("mode") == "bounded":
            os.makedirs(os.path.join(work, "b%d" % unit["index"]), exist_ok=True)
            exe = build.to_exe(os.path.join(VERIF, "specs", unit["driver"]), os.path.join(work, "b%d" % unit["index"]), defines=unit.get("defines", ()))
            return {"unit": unit, "ir": None, "exe": exe, "names": subprocess.run([exe], stdout=subprocess.PIPE, text=True).stdout.split(), "error": None, "wall": time.time() - t0}
        txt = build.to_ir(os.path.join(VERIF, "specs", unit["driver"]), work, defines=unit.get("defines", ()), passes=unit.get("passes"))
        p = os.path.join(work, "%s.%d.final.ll" % (os.path.basename(unit["driver"]), unit["index"]))
        open(p, "w").write(txt)
        names = re.findall(r"^define [^\n]*@fv_check_(\w+)\(", txt, flags=re.M)
        return {"unit": unit, "ir": p, "names": names, "error": None, "wall": time.time() - t0}
    except Exception as e:
        return {"unit": unit, "ir": None, "names": [], "error": str(e)[:3000], "wall": time.time() - t0}

def verify_one(job):
    ir_path, name, unit, timeout, limit = job
    t0 = time.time()
    out = {"check": name, "driver": unit["driver"], "defines": list(unit.get("defines", ()))}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass
    try:
        import signal
        def bomb(*a): raise TimeoutError("time limit of %d s" % limit)
        signal.signal(signal.SIGALRM, bomb); signal.alarm(int(limit))
        from fv import ir, verify
        mod = ir.parse_module(open(ir_path).read())
        v = verify.Verifier(mod, "fv_check_" + name, unit.get("mode", "uf"), unit.get("opts"), timeout=timeout)
        R = v.run()
        signal.alarm(0)
        out.update(status=R.status, obls=R.obls, failures=R.failures, stats=R.stats)
    except BaseException as e:
        msg = "%s: %s" % (type(e).__name__, str(e)[:1500])
        out.update(status="error", obls=[], failures=[{"obligation": "verification conditions can be generated and discharged", "kind": "engine",
                   "status": msg, "where": "".join(traceback.format_exc()[-1500:]), "model": None}], stats={})
    out["wall"] = round(time.time() - t0, 2)
    return out

def native_fail(exe, check, args, timeout):
    try:
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=3:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
        r = subprocess.run([exe, check] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode and "FV-FAIL" in r.stdout: return r.stdout
    return None

def bounded(exe, check, unit, seed, seconds):
    """stand-in for checks the verifier does not reach: the same contracts, on generated inputs, for a number of seconds"""
    t0, k, step, runs, bad = time.time(), 0, 200, 0, None
    base = seed*1000003
    def one(k, n):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=3:allocator_may_return_null=1")
        try: r = subprocess.run([exe, check, str(base + k), str(n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, env=env)
        except subprocess.TimeoutExpired: return 0, None
        m = re.search(r"FV-OK runs=(\d+)", r.stdout)
        return (int(m.group(1)) if m else 0), (r.stdout if r.returncode and "FV-FAIL" in r.stdout else None)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        while time.time() - t0 < seconds and not bad:
            for n, o in ex.map(lambda i: one(k + i*step, step), range(NCPU)):
                runs += n
                bad = bad or o
            k += NCPU*step
            if step < 20000 and time.time() - t0 < seconds/4: step *= 2
    res = {"check": check, "driver": unit["driver"], "defines": list(unit.get("defines", ())), "unit": unit, "status": "bounded" if runs and not bad else "failed", "obls": [], "stats": {}, "failures": [],
           "runs": runs, "wall": round(time.time() - t0, 2)}
    if bad:
        m, w = re.search(r"FV-FAIL check=\w+ seed=(\d+) obligation=([^\n]*)", bad), re.search(r"FV-INPUT ([^\n]*)", bad)
        res["failures"] = [{"obligation": m.group(2) if m else "?", "kind": "bounded", "status": "fails on a generated input", "where": check, "model": None}]
        res["input"] = {"command": [check, m.group(1) if m else "?", "1"], "output": bad[-4000:]}
    elif not runs:
        res["failures"] = [{"obligation": "the bounded check runs", "kind": "engine", "status": "no input satisfied the preconditions", "where": check, "model": None}]
    return res

def find_input(res, exes, work, seed, budget):
    """concrete failing input for a failed check: the solver's values first, then a search"""
    unit = res["unit"]
    exe = exes.get(unit["index"])
    if exe is None: return None
    for f in res["failures"]:
        if f.get("model"):
            vals = ["%s=%s" % (n, v) for n, k, v in f["model"] if k != "index"]
            for sd in (1, 2, 3):
                o = native_fail(exe, res["check"], [str(sd), "1"] + vals, 60)
                if o: return {"command": [res["check"], str(sd), "1"] + vals, "output": o[-4000:]}
    t0 = time.time()
    step = 4000
    base = seed*1000003
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs, k = set(), 0
        while time.time() - t0 < budget or futs:
            while len(futs) < NCPU and time.time() - t0 < budget:
                futs.add(ex.submit(native_fail, exe, res["check"], [str(base + k*step), str(step)], max(10, budget))); k += 1
            done, futs = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for d in done:
                o = d.result()
                if o:
                    m = re.search(r"FV-FAIL check=\w+ seed=(\d+)", o)
                    for f in futs: f.cancel()
                    return {"command": [res["check"], m.group(1) if m else "?", "1"], "output": o[-4000:]}
            if step < 100000 and time.time() - t0 < budget/4: step *= 2
    return None

def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) check=(\S+) obligation=\"([^\"]*)\" (.*)", l.strip())
            if m: out.append({"property": m.group(1), "check": m.group(2), "obligation": m.group(3), "what": m.group(4)})
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="fv-%s-" % pid)
    try:
        rc = decide(pid, P, a, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(pid, P, a, seed, work, t0):
    thorough = a.tier == "thorough"
    timeout = P.get("timeout", 60)*(4 if thorough else 1)
    limit = P.get("limit", 420)*(4 if thorough else 1)
    units = []
    for i, u in enumerate(P["units"]):
        if u.get("tier") == "thorough" and not thorough: continue
        u = dict(u); u["index"] = i; units.append(u)
    ctx = mp.get_context("fork")
    results = []
    deadline = t0 + (3000 if thorough else 640)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        built = list(ex.map(lambda u: build_unit(u, work), units))
    jobs, bjobs = [], []
    for b in built:
        u = b["unit"]
        if b["error"]:
            results.append({"check": u["driver"], "driver": u["driver"], "unit": u, "defines": list(u.get("defines", ())), "status": "error", "obls": [],
                            "failures": [{"obligation": "the specification compiles against the code", "kind": "engine", "status": b["error"], "where": u["driver"], "model": None}],
                            "stats": {}, "wall": b["wall"]})
            continue
        if not b["names"]:
            raise SystemExit("driver %s defines no check" % u["driver"])
        for n in b["names"]:
            if u.get("checks") and not re.fullmatch(u["checks"], n): continue
            if a.only and not re.search(a.only, n): continue
            if u.get("mode") == "bounded": bjobs.append((b["exe"], n, u, seed, u.get("seconds", 10)*(6 if thorough else 1)))
            else: jobs.append((b["ir"], n, u, timeout, limit))
    # one process per check, at most NCPU at a time
    queue = sorted(jobs, key=lambda j: -P.get("cost", {}).get(j[1], 0))
    running = []
    def start(j):
        rd, wr = ctx.Pipe(False)
        def go(j=j, wr=wr):
            r = verify_one(j)
            wr.send(r); wr.close()
        p = ctx.Process(target=go); p.start(); wr.close()
        running.append((p, rd, j, time.time()))
    while queue or running:
        while queue and len(running) < NCPU and time.time() < deadline: start(queue.pop(0))
        if queue and time.time() >= deadline:
            for j in queue: results.append(lost(j, "not started within the time limit"))
            queue = []
        time.sleep(0.02)
        for x in list(running):
            p, rd, j, ts = x
            r = None
            if rd.poll():
                try: r = rd.recv()
                except EOFError: r = lost(j, "verifier process died")
            elif not p.is_alive():
                r = lost(j, "verifier process died")
            elif time.time() - ts > limit + 60 or time.time() > deadline + 60:
                p.kill(); r = lost(j, "time limit")
            if r is not None:
                r["unit"] = j[2]
                results.append(r); running.remove(x); p.join(5)
                if a.verbose: print("  %-60s %-7s %d obligations %.1fs" % (r["check"], r["status"], len(r["obls"]), r["wall"]), flush=True)

    for j in bjobs:
            r = bounded(*j)
            results.append(r)
            if a.verbose: print("  %-60s %-7s %d inputs %.1fs" % (r["check"], r["status"], r["runs"], r["wall"]), flush=True)

    # known findings and violations
    known = [k for k in load_known() if k["property"] == pid]
    violations, kf = [], []
    for r in results:
        fs = []
        for f in r["failures"]:
            k = next((k for k in known if k["check"] == r["check"] and k["obligation"] == f["obligation"]), None)
            if k: kf.append((k, f, r))
            else: fs.append(f)
        if fs: violations.append(dict(r, failures=fs))
    lines = []
    rep = os.path.join(VERIF, "replays", pid)
    shutil.rmtree(rep, ignore_errors=True)
    if violations:
        os.makedirs(rep, exist_ok=True)
        exes = {}
        need = {v["unit"]["index"]: v["unit"] for v in violations}
        def mk(u):
            try: return u["index"], build.to_exe(os.path.join(VERIF, "specs", u["driver"]), os.path.join(work, "n%d" % u["index"]) if os.makedirs(os.path.join(work, "n%d" % u["index"]), exist_ok=True) is None else None, defines=u.get("defines", ()))
            except Exception as e: print("native build:", str(e)[:500], file=sys.stderr); return u["index"], None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for i, e in ex.map(mk, need.values()): exes[i] = e
        # checks with models first; stop searching as soon as one concrete input is found
        violations.sort(key=lambda v: (not v.get("input"), v["status"] == "error", not any(f.get("model") for f in v["failures"])))
        total = 240 if thorough else 120
        found = None
        ts = time.time()
        for i, v in enumerate(violations):
            if v["check"] == v["driver"] : continue
            if v.get("input"): found = v; break
            left = total - (time.time() - ts)
            if left < 5 or found: break
            found_here = find_input(v, exes, work, seed, min(left, max(10, total/min(len(violations), 6))))
            v["input"] = found_here
            if found_here: found = v
        # a unit that could not be translated at all: try every native check of it
        if not found:
            for v in violations:
                if v["check"] != v["driver"]: continue
                exe = exes.get(v["unit"]["index"])
                if not exe: continue
                names = subprocess.run([exe], stdout=subprocess.PIPE, text=True).stdout.split()
                for n in names:
                    left = total - (time.time() - ts)
                    if left < 5: break
                    o = find_input(dict(v, check=n), exes, work, seed, min(left, 15))
                    if o: v["input"] = o; found = v; break
        order = [found] if found else violations    # with a concrete input, the other failed obligations are listed in its replay file
        for n, v in enumerate(order[:5]):
            path = os.path.join(rep, "%s.txt" % v["check"].replace("/", "_"))
            with open(path, "w") as f:
                f.write("property %s\ndriver specs/%s %s\ncheck %s\n" % (pid, v["driver"], " ".join("-D" + d for d in v["defines"]), v["check"]))
                for x in v["failures"]:
                    f.write("\nfailed obligation: %s\n  kind: %s\n  solver: %s\n  at: %s\n" % (x["obligation"], x["kind"], x["status"], x["where"]))
                    if x.get("model"): f.write("  counterexample: %s\n" % ", ".join("%s=%s" % (n2, v2) for n2, k2, v2 in x["model"]))
                if v.get("input"):
                    f.write("\nconcrete failing input, replayed against the real code:\n  build: clang++-18 -std=c++17 -O1 -g -DFV_NATIVE -fsanitize=address,undefined %s -I/verif/specs -I/repo/source specs/%s\n  run: %s\n%s\n"
                            % (" ".join("-D" + d for d in v["defines"]), v["driver"], " ".join(v["input"]["command"]), v["input"]["output"]))
                else: f.write("\nno concrete failing input was found\n")
                if found and len(violations) > 1:
                    f.write("\nother failed obligations:\n")
                    for o in violations:
                        if o is not v: f.write("  %s: %s\n" % (o["check"], "; ".join(sorted(set(x["obligation"] for x in o["failures"])))))
            lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if v.get("input") else " no-failing-input-found"))
    seen = set()
    for k, f, r in kf:
        if (k["check"], k["obligation"]) in seen: continue
        seen.add((k["check"], k["obligation"]))
        print("KNOWN-FINDING: property=%s check=%s %s" % (pid, k["check"], k["what"]))
    reach = [o for r in results for o in r["obls"] if o[1] == "vacuity"]   # reachability of the end of the driver under its assumptions
    for r in results: r["obls"] = [o for o in r["obls"] if o[1] != "vacuity"]
    nobl = sum(len(r["obls"]) for r in results)
    ndis = sum(1 for r in results for o in r["obls"] if o[2] == "proved")
    kinds, backends = {}, {}
    for r in results:
        for o in r["obls"]:
            kinds.setdefault(o[1], [0, 0]); kinds[o[1]][0] += 1
            if o[2] == "proved": kinds[o[1]][1] += 1; backends[o[4]] = backends.get(o[4], 0) + 1
    trusted = sorted(set(sum([r["stats"].get("trusted", []) for r in results], [])))
    funcs = sorted(set(sum([functions_of(r) for r in results], [])))
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": P["level"],
          "coverage": {
              "obligations": nobl, "discharged": ndis,
              "checker_cmd": "python3-vt -m fv.check %s (clang++-18 front end, opt-18 %s; z3 %s, cvc5)" % (pid, "lowerinvoke,sroa,simplifycfg,inline,instsimplify,loop-simplify", z3_version()),
              "trusted_base": TRUSTED + P.get("trusted", []) + trusted,
              "obligations_by_kind": {k: {"total": v[0], "discharged": v[1]} for k, v in sorted(kinds.items())},
              "vacuity_checks": {"drivers": len(reach), "assumptions_satisfiable": sum(o[2] == "proved" for o in reach), "undecided_by_solver": sum(o[2] != "proved" for o in reach)},
              "discharged_by_backend": backends,
              "solver_seconds": {"z3": round(sum(r["stats"].get("z3_s", 0) for r in results), 1), "cvc5": round(sum(r["stats"].get("cvc5_s", 0) for r in results), 1)},
              "functions_under_contract": P.get("functions", []),
              "drivers": [{"check": r["check"], "driver": r["driver"], "defines": r["defines"], "status": r["status"], "obligations": len(r["obls"]),
                           "loops": r["stats"].get("loops", 0), "invariants": r["stats"].get("invariants", 0), "wall_s": r["wall"]} for r in sorted(results, key=lambda r: r["check"]) if "runs" not in r],
              "bounded_not_proved": [{"check": r["check"], "driver": r["driver"], "inputs_tried": r["runs"], "bound": "generated inputs (small sizes, boundary and random values), %g s" % r["wall"]} for r in sorted(results, key=lambda r: r["check"]) if "runs" in r],
              "undischarged": [{"check": r["check"], "obligation": f["obligation"], "status": str(f["status"])[:300]} for r in results for f in r["failures"]][:50],
              "known_findings": [k["what"] for k, f, r in kf],
          },
          "assumptions": ASSUME + P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    if funcs: ev["coverage"]["ir_functions_executed"] = funcs[:60]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if violations and not any(v.get("input") for v in violations) and all(v["check"] == v["driver"] for v in violations):
        # the specifications do not compile against the code (renamed or moved interface): no answer rather than a verdict
        print("ERROR property=%s the specifications do not compile: %s" % (pid, violations[0]["failures"][0]["status"][:2000]))
        return 2
    for l in lines: print(l)
    print("%s: %d drivers, %d obligations, %d discharged, %d violations, %.1f s" % (pid, len(results), nobl, ndis, len(violations), time.time() - t0))
    return 1 if violations else 0

def functions_of(r):
    return [f for f in r["stats"].get("functions", []) if not f.startswith("fv_check")]

def lost(j, why):
    return {"check": j[1], "driver": j[2]["driver"], "defines": list(j[2].get("defines", ())), "unit": j[2], "status": "error", "obls": [], "stats": {}, "wall": 0,
            "failures": [{"obligation": "verification conditions can be generated and discharged", "kind": "engine", "status": why, "where": j[1], "model": None}]}

def z3_version():
    import z3
    return z3.get_version_string()

TRUSTED = ["clang 18 front end and opt-18 passes lowerinvoke, sroa, simplifycfg, instsimplify, inline, globaldce, loop-simplify",
           "fv/ir.py, fv/sym.py, fv/verify.py: IR semantics, loop cutting, ground instantiation", "z3 / cvc5",
           "no exception propagates (every throw is an obligation 'no abort')"]
ASSUME = ["arrays hold at most 2^40 elements", "objects handed to an operation do not overlap unless the driver says so",
          "the drivers instantiate the templates with the element types listed under drivers"]

if __name__ == "__main__":
    main()
