"""Discharge of the obligations of one driver: modset fixpoint, invariant inference over declared templates (Houdini),
ground instantiation, SMT."""
import time, os, re, subprocess, tempfile
import z3
from .ir import *
from .sym import *
from . import contracts, intenc

MAXROUND = 40

class Cand:
    """candidate fact about a loop.  ev(state) -> formula, state = (vals, mem); K placeholder allowed when generic"""
    __slots__ = ("st", "name", "entry", "head", "backs", "generic", "alive", "lit", "why", "pair")
    def __init__(s, st, name, entry, head, backs, generic, pair=None):
        s.st, s.name, s.entry, s.head, s.backs, s.generic, s.alive, s.pair = st, name, entry, head, backs, generic, True, pair

class Result:
    def __init__(s):
        s.obls = []         # (name, kind, status, seconds, backend, where)
        s.status = "proved"
        s.failures = []     # dicts
        s.stats = {}

def symval(mem, rn, off):
    c = mem.d[rn]
    e = c[off]
    return e[-1]

class Verifier:
    def __init__(s, mod, fn, fpmode="fp", opts=None, timeout=30, log=None):
        s.mod, s.fn, s.timeout = mod, fn, timeout
        s.vc = VC(mod, fpmode, opts)
        s.log = log or (lambda *a: None)
        s.K = z3.BitVec("?K", 64)
        s.times = {"z3": 0.0, "cvc5": 0.0}
        s.nq = 0
        s.dbg = bool(os.environ.get("FV_DEBUG"))

    # ------------------------------------------------------------------ symbolic execution to a modset fixpoint
    def execute(s):
        vc = s.vc
        for it in range(12):
            vc.reset()
            vc.stores = []
            e = Exec(vc, s.fn, [], Mem({}), TRUE)
            rv, mem, reach = e.run()
            new = {}
            for path, rn, off in vc.stores:
                for key in path:
                    new.setdefault(key, set()).add((rn, off))
            shared = (len(vc.task_reads), len(vc.task_writes), len(vc.task_zone))
            stable = it == 0 or shared == before
            before = shared
            for st in vc.loops:
                k = st["key"]
                want = new.get(k, set())
                if not want <= vc.modsets.get(k, set()):
                    vc.modsets[k] = vc.modsets.get(k, set()) | want
                    stable = False
            s.exit_reach, s.exit_mem = reach, mem
            if stable and it > 0: return
            if stable and not vc.loops: return
        raise Unsupported("modification sets do not stabilise")

    # ------------------------------------------------------------------ candidates
    def pure(s, fn, args, mem):
        e = Exec(s.vc, fn, args, mem, TRUE, pure=True)
        rv, _, _ = e.run()
        return rv

    def loop_vars(s, st):
        """[(name, entry, head, [back values])] of 64-bit progress variables of a loop"""
        out = []
        def num(v):
            if isinstance(v, IntPtr): v = v.p
            if isinstance(v, Ptr):
                a = v.single()
                if a is None or a[1] is None or isinstance(a[1], str): return None
                return a[2] if a[2] is not None else (bvc(0, 64))
            if v is not None and z3.is_bv(v) and v.size() == 64: return v
            return None
        for ph in st["phis"]:
            e, h = num(st["entry"][ph]), num(st["head"][ph])
            bs = [num(b[1][ph]) for b in st["backs"]]
            if h is None or e is None or any(b is None for b in bs): continue
            out.append((ph, e, h, bs))
        for (rn, off), h in st["hav"].items():
            r = s.vc.regions[rn]
            if r.kind == "array": continue
            h2 = num(h)
            if h2 is None: continue
            try:
                e = num(symval(st["entry_mem"], rn, off)); bs = [num(symval(b[2], rn, off)) for b in st["backs"]]
            except KeyError: continue
            if e is None or any(b is None for b in bs): continue
            out.append(("%s+%d" % (rn, off), e, h2, bs))
        return out

    def consts_of(s, st):
        """constants introduced by the havoc of a loop"""
        ids = set()
        def add(v):
            if isinstance(v, IntPtr): v = v.p
            if isinstance(v, Ptr):
                for a in v.alts:
                    if a[2] is not None: ids.add(a[2].get_id())
            elif isinstance(v, list):
                for x in v: add(x)
            elif v is not None and z3.is_expr(v): ids.add(v.get_id())
        for v in st["head"].values(): add(v)
        for v in st["hav"].values(): add(v)
        return ids

    def mentions(s, e, ids, cache):
        i = e.get_id()
        if i in cache: return cache[i]
        r = i in ids or any(s.mentions(c, ids, cache) for c in e.children())
        cache[i] = r
        return r

    def bounds(s, st):
        """loop-invariant 64-bit expressions the loop compares against"""
        ex, L = st["exec"], st["L"]
        ids = s.consts_of(st)
        # later havocs (inner loops) also vary
        for o in s.vc.loops:
            if o["head_seq"] > st["head_seq"] and st in o["parents"]: ids |= s.consts_of(o)
        cache, out = {}, {}
        for b in L.body:
            for ins in ex.f.blocks[b].ins:
                if ins.op != "icmp": continue
                for ty, v in ins.a:
                    try: x = ex.const(ty, v)
                    except Exception: continue
                    if isinstance(x, IntPtr): x = x.p
                    if isinstance(x, Ptr):
                        a = x.single()
                        if a is None or a[1] is None or isinstance(a[1], str): continue
                        x = a[2] if a[2] is not None else None
                    if x is None or not z3.is_bv(x) or x.size() != 64: continue
                    if not s.mentions(x, ids, cache): out[x.get_id()] = x
        return list(out.values())

    def candidates(s, stage):
        """stage 0: bounds and lock-step relations of the loop variables; stage 1: all of these again, and the declared
        templates for one representative of each class of loop variables that stage 0 proved equal"""
        vc = s.vc
        cands = []
        if stage == 0:
            s.lv = {id(st): s.loop_vars(st) for st in vc.loops}
            s.bnd = {id(st): s.bounds(st) for st in vc.loops}
            rep = {}
        else:
            equal = {(id(c.st), c.pair[0], c.pair[1]) for c in s.cands if c.alive and c.pair}
            rep = {}
            for st in vc.loops:
                out = []
                for x in s.lv[id(st)]:
                    if not any(x[1].eq(y[1]) and (id(st), y[0], x[0]) in equal for y in out): out.append(x)
                # the variables that count the iterations, if there are any, measure the progress of a loop
                count = [x for x in out if all(z3.is_bv_value(d) and d.as_long() == 1 for d in (z3.simplify(b - x[2]) for b in x[3]))]
                rep[id(st)] = out if s.full or not count else count
        lv = s.lv
        for st in vc.loops:
            vs = lv[id(st)]
            es = s.bnd[id(st)]
            nb = len(st["backs"])
            def C(name, f, generic=False, pair=None):
                cands.append(Cand(st, name, f(0, None), f(1, None), [f(2, k) for k in range(nb)], generic, pair))
            def val(x, which, k): return x[1] if which == 0 else x[2] if which == 1 else x[3][k]
            for x in vs:
                C("%s >= start" % x[0], lambda w, k, x=x: z3.UGE(val(x, w, k), x[1]))
                for e in es:
                    if e.eq(x[1]): continue
                    C("%s <= %s" % (x[0], str(e)[:40]), lambda w, k, x=x, e=e: z3.ULE(val(x, w, k), e))
                    C("%s <= max(start, %s)" % (x[0], str(e)[:40]), lambda w, k, x=x, e=e: z3.Or(z3.ULE(val(x, w, k), e), val(x, w, k) == x[1]))
            for i, x in enumerate(vs):
                for y in vs[i+1:]:
                    C("%s in step with %s" % (x[0], y[0]), lambda w, k, x=x, y=y: val(x, w, k) - x[1] == val(y, w, k) - y[1], pair=(x[0], y[0]))
            if stage == 0: continue
            for tn, te, th, tb in s.phi_targets(st):
                if z3.is_bool(te) or (z3.is_bv(te) and te.size() <= 8):      # a flag that leaves the loop when it changes
                    C("%s as before" % tn, lambda w, k, te=te, th=th, tb=tb: te == (te if w == 0 else th if w == 1 else tb[k]))
            vs = rep[id(st)]
            # templates
            anc = [p for p in st["parents"]]
            for kind, fn, ctx, arity, seq in vc.templates:
                if seq > st["entry_seq"]: continue
                # first try one progress variable per enclosing loop; with s.full, every choice of enclosing loops
                if arity > 0 and not s.full and arity != len(anc) + 1 and arity != len(anc) + 2: continue
                own_pairs = [(a, b) for a in vs for b in vs if a is not b] if arity >= 2 and 1 < len(vs) < 5 and (s.full and kind == "phi" or arity == len(anc) + 2) else []
                if kind == "inv":
                    if arity == 0: combos = [()]
                    else:
                        combos = []
                        if s.full or arity == len(anc) + 1:
                            for own in vs:
                                for pre in s.combos(anc, rep, arity-1):
                                    combos.append(pre + (own,))
                        for ab in own_pairs: combos += [pre + ab for pre in s.combos(anc, rep, arity-2)]
                    for cb in combos:
                        def f(w, k, cb=cb, fn=fn, ctx=ctx):
                            args = [ctx, s.K]
                            for i, x in enumerate(cb):
                                args.append(val(x, w, k) if x in vs else x[2])
                            mem = st["entry_mem"] if w == 0 else st["head_mem"] if w == 1 else st["backs"][k][2]
                            return s.pure(fn, args, mem)
                        C("%s(%s)" % (short(fn), ", ".join(x[0] for x in cb)), f, True)
                else:
                    # value of a loop-carried variable as a function of progress variables
                    rt = s.mod.funcs[fn]
                    targets = s.phi_targets(st)
                    for cb in ([()] if arity == 0 else [pre + (own,) for own in vs for pre in s.combos(anc, rep, arity-1) if s.full or arity == len(anc) + 1] +
                               [pre + ab for ab in own_pairs for pre in s.combos(anc, rep, arity-2)]):
                        for tn, te, th, tb in targets:
                            def f(w, k, cb=cb, fn=fn, ctx=ctx, te=te, th=th, tb=tb):
                                args = [ctx]
                                for i, x in enumerate(cb): args.append(val(x, w, k) if x in vs else x[2])
                                mem = st["entry_mem"] if w == 0 else st["head_mem"] if w == 1 else st["backs"][k][2]
                                r = s.pure(fn, args, mem)
                                t = te if w == 0 else th if w == 1 else tb[k]
                                if r.sort() != t.sort():
                                    # a flag: i1 in one place, i8 in the other
                                    if z3.is_bv(r) and r.size() == 1: r = r == 1
                                    if z3.is_bv(t) and t.size() == 1: t = t == 1
                                    if z3.is_bool(r) and z3.is_bv(t) and t.size() == 8: r = z3.If(r, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                                    if r.sort() != t.sort(): raise TypeError
                                return t == r
                            try: C("%s == %s(%s)" % (tn, short(fn), ", ".join(x[0] for x in cb)), f, False)
                            except TypeError: pass
        # drop trivially true
        out = []
        for c in cands:
            if all(is_true(x) for x in [c.entry, c.head] + c.backs): continue
            if is_false(c.entry): continue
            out.append(c)
        s.cands = out

    def phi_targets(s, st):
        out = []
        def ok(v): return v is not None and z3.is_expr(v)
        for ph in st["phis"]:
            e, h = st["entry"][ph], st["head"][ph]
            bs = [b[1][ph] for b in st["backs"]]
            if ok(e) and ok(h) and all(ok(b) for b in bs): out.append((ph, e, h, bs))
        for (rn, off), h in st["hav"].items():
            if s.vc.regions[rn].kind == "array" or not ok(h): continue
            try:
                e = symval(st["entry_mem"], rn, off); bs = [symval(b[2], rn, off) for b in st["backs"]]
            except KeyError: continue
            if ok(e) and all(ok(b) for b in bs): out.append(("%s+%d" % (rn, off), e, h, bs))
        return out

    def combos(s, anc, lv, n):
        """ordered choices of one variable from n distinct ancestors (outermost first)"""
        if n == 0: return [()]
        if len(anc) < n: return []
        out = []
        import itertools
        for sel in itertools.combinations(anc, n):
            for vs in itertools.product(*[lv[id(a)] for a in sel]): out.append(tuple(vs))
        return out

    # ------------------------------------------------------------------ instantiation
    def terms(s, seq):
        return [t for t, q in s.vc.terms.values() if q <= seq]

    def subst(s, e, t):
        return z3.substitute(e, (s.K, t))

    def exclusive(s, st, guard):
        """the loop is on no path to the program point with this guard"""
        g = st["reach"]
        if guard is None or is_true(g): return False
        key = (g.get_id(), guard.get_id())
        r = s.xcache.get(key)
        if r is None:
            sol = z3.Solver(); sol.set("timeout", 300)
            sol.add(g, guard)
            r = s.xcache[key] = sol.check() == z3.unsat
            s.keep += [g, guard]
        return r

    def varies(s, st, t):
        """does the term depend on what the loop changes?"""
        ids, cache = s.vcache.setdefault(id(st), (s.consts_of(st), {}))
        return s.mentions(t, ids, cache)

    def facts_upto(s, seq, extra_terms, cands, guard=None):
        """ground facts available at program point seq"""
        out = [e for q, e in s.vc.facts if q < seq]
        T = {t.get_id(): t for t in s.terms(seq)}
        out_of_way = [st for st in s.vc.loops if st["head_seq"] < seq and s.exclusive(st, guard)]
        if out_of_way: T = {i: t for i, t in T.items() if not any(s.varies(st, t) for st in out_of_way)}
        for t in extra_terms: T[t.get_id()] = t
        T = list(T.values())
        for c in cands:
            if not c.alive or c.st["head_seq"] >= seq or s.exclusive(c.st, guard): continue
            g = c.st["reach"]
            if c.generic:
                for t in T: out.append(mk_implies(g, s.inst(c, t)))
            else: out.append(mk_implies(g, c.head))
        return out, T

    def inst(s, c, t):
        key = (id(c), t.get_id())
        r = s.icache.get(key)
        if r is None:
            r = s.icache[key] = s.subst(c.head, t)
            s.keep.append(t)
        return r

    def axiom_insts(s, formulas, T):
        """instances of the declared axioms for the triggers occurring in the formulas"""
        vc = s.vc
        if not vc.axioms: return []
        out, done = [], set()
        todo = list(formulas)
        seen = set()
        trig = {}
        for rnd in range(3):
            for f in todo: s.collect(f, seen, trig)
            new = []
            for (fn, ctx, arity, tr, mem) in vc.axioms:
                t1, _, t2 = tr.partition(",")
                firsts = list(trig.get(t1, {}).values()) if t1 else T
                seconds = [None] if arity == 1 else list(trig.get(t2, {}).values()) if t2 else T
                for a in firsts:
                    for b in seconds:
                        key = (fn, id(ctx), a.get_id(), b.get_id() if b is not None else None)
                        if key in done: continue
                        done.add(key)
                        fk = s.acache.get(key)
                        if fk is None:
                            fk = s.acache[key] = s.pure(fn, [ctx, a] + ([b] if b is not None else []), mem)
                            s.keep += [a, b]
                        new.append(fk)
            out += new
            if s.dbg: s.log("      axioms round %d: %d new, %d terms, %s" % (rnd, len(new), len(T), {k: len(v) for k, v in trig.items()}))
            if not new: break
            todo = new
        return out

    def collect(s, e, seen, trig):
        """trigger arguments occurring in e (cached per formula)"""
        i = e.get_id()
        if i in seen: return
        seen.add(i)
        r = s.tcache.get(i)
        if r is None:
            r, loc, st = [], set(), [e.as_ast()]
            ctx = e.ctx
            ref = ctx.ref()
            while st:
                x = st.pop()
                j = z3.Z3_get_ast_id(ref, x)
                if j in loc: continue
                loc.add(j)
                sub = s.tcache.get(j)
                if sub is not None: r.extend(sub); continue
                if z3.Z3_get_ast_kind(ref, x) != z3.Z3_APP_AST: continue
                app = z3.Z3_to_app(ref, x)
                n = z3.Z3_get_app_num_args(ref, app)
                if not n: continue
                d = z3.Z3_get_app_decl(ref, app)
                if z3.Z3_get_decl_kind(ref, d) == z3.Z3_OP_UNINTERPRETED:
                    nm = z3.Z3_get_symbol_string(ref, z3.Z3_get_decl_name(ref, d))
                    if nm in s.trignames: r.append((nm, z3.z3._to_expr_ref(z3.Z3_get_app_arg(ref, app, 0), ctx)))
                for k in range(n): st.append(z3.Z3_get_app_arg(ref, app, k))
            s.tcache[i] = r
            s.keep.append(e)
        for nm, a in r: trig.setdefault(nm, {})[a.get_id()] = a

    def query(s, assertions, timeout, bv=True):
        """check satisfiability -> ('unsat'|'sat'|'unknown', model)"""
        s.nq += 1
        t0 = time.time()
        if s.vc.opts.get("int", True) and (s.vc.fpmode != "fp" or intenc.has_products(assertions, s.pcache, s.keep)):
            if intenc.prove(assertions, min(timeout, s.vc.opts.get("int_timeout", 20)), s.enc):
                s.times["z3"] += time.time() - t0; s.last_be = "z3 (integers)"
                return "unsat", None, None
            if not bv:
                s.times["z3"] += time.time() - t0
                return "unknown", None, None
        s.last_be = "z3"
        sol = z3.Solver()
        sol.set("timeout", int(timeout*1000))
        for a in assertions: sol.add(a)
        r = sol.check()
        s.times["z3"] += time.time() - t0
        m = sol.model() if r == z3.sat else None
        return str(r), m, sol

    def solve(s, hyps, T, goal_neg, timeout, bv=True):
        ax = s.axiom_insts(hyps + [goal_neg], T)
        return s.query(hyps + ax + [goal_neg], timeout, bv)

    def refute(s, hyps, T, goals, timeout):
        """-> ('unsat'|'sat'|'unknown', solver, evaluator of the goals): a counterexample to the conjunction of the goals"""
        neg = z3.Not(z3.And(*goals))
        if not s.fast:
            r, m, sol = s.solve(hyps, T, neg, timeout)
            return r, sol, lambda sol, g: z3.is_false(sol.model().eval(g, model_completion=True)), lambda g: g
        t0 = time.time(); s.nq += 1
        ax = s.axiom_insts(hyps + [neg], T)
        try:
            sol = s.enc.solver(hyps + ax + [neg], timeout)
            r = str(sol.check())
        except (intenc.Giveup, RecursionError): r, sol = "unknown", None
        s.times["z3"] += time.time() - t0
        return r, sol, lambda sol, g: z3.is_false(sol.model().eval(s.enc.b(g), model_completion=True)), s.enc.b

    # ------------------------------------------------------------------ Houdini
    def houdini(s):
        vc = s.vc
        s.icache, s.acache, s.keep, s.tcache, s.pcache, s.xcache, s.vcache = {}, {}, [], {}, {}, {}, {}
        s.enc = intenc.Enc()
        s.trignames = {n for a in vc.axioms for n in a[3].split(",") if n}
        K0 = z3.BitVec("?K0", 64)
        s.K0 = K0
        s.rounds = 0
        s.candidates(0)
        if s.cands and vc.templates: s.infer()
        s.candidates(1)
        s.infer()

    def infer(s):
        vc, K0 = s.vc, s.K0
        s.log("  %d loops, %d candidates" % (len(vc.loops), len(s.cands)))
        changed, rounds = True, 0
        settled, drops = {}, []
        while changed:
            changed = False; rounds += 1
            if rounds > MAXROUND: raise Unsupported("invariant inference does not converge")
            for st in vc.loops:
                own = [c for c in s.cands if c.alive and c.st is st]
                if not own: continue
                sites = [(st["entry_reach"], st["entry_seq"], lambda c: c.entry, None)]
                for k, (cond, vals, mem, seq) in enumerate(st["backs"]):
                    sites.append((cond, seq, lambda c, k=k: c.backs[k], k))
                for si, (guard, seq, sel, k) in enumerate(sites):
                    # settled: everything alive was proved here, from hypotheses that have not changed since
                    if (id(st), si) in settled and not any(c.st["head_seq"] < seq for c in drops[settled[id(st), si]:]): continue
                    while True:
                        own = [c for c in own if c.alive]
                        if not own: break
                        goals = [s.subst(sel(c), K0) if c.generic else sel(c) for c in own]
                        idx = [i for i, g in enumerate(goals) if not is_true(g)]
                        if not idx: break
                        hy, T = s.facts_upto(seq, [K0], s.cands, guard)
                        r, sol, refuted, tr = s.refute(hy + [guard], T, [goals[i] for i in idx], s.timeout)
                        if r == "unsat": break
                        dropped = []
                        # what one set of hypotheses refutes, fewer hypotheses refute too: keep asking for other models
                        while r == "sat":
                            new = [i for i in idx if refuted(sol, goals[i])]
                            if not new: break
                            dropped += [own[i] for i in new]
                            idx = [i for i in idx if i not in new]
                            if not idx or not s.vc.opts.get("incremental", True): break
                            t1 = time.time()
                            sol.set("timeout", 1000)
                            sol.add(z3.Not(z3.And(*[tr(goals[i]) for i in idx])))
                            r = str(sol.check()); s.nq += 1
                            s.times["z3"] += time.time() - t1
                            if s.dbg: s.log("    incremental %s %.2f" % (r, time.time() - t1))
                        if not dropped:
                            # unknown (or an undetermined model): one by one
                            for i in idx:
                                r, m, _ = s.solve(hy + [guard], T, z3.Not(goals[i]), s.timeout, not s.fast)
                                if r != "unsat": dropped.append(own[i])
                            if not dropped: break
                        for c in dropped:
                            c.alive = False; c.why = (k, r); changed = True; drops.append(c)
                            s.log("    drop [%s] %s at %s" % (st["L"].header, c.name, "entry" if k is None else "iteration"))
                    settled[id(st), si] = len(drops)
        s.rounds += rounds
        for st in vc.loops:
            s.log("  loop %s: %s" % (st["L"].header, "; ".join(c.name for c in s.cands if c.alive and c.st is st)))

    # ------------------------------------------------------------------ termination
    def termination(s):
        """every loop has a variable that strictly advances towards a bound it cannot pass"""
        vc = s.vc
        for st in vc.loops:
            goalsets = []
            for x in s.lv[id(st)]:
                for e in s.bnd[id(st)] + [bvc(2**64-1, 64)]:
                    gs = []
                    for k, (cond, vals, mem, seq) in enumerate(st["backs"]):
                        gs.append((cond, seq, z3.And(z3.UGT(x[3][k], x[2]), z3.ULE(x[3][k], e))))
                    goalsets.append(gs)
                    gs2 = [(c, q, z3.ULT(x[3][k], x[2])) for k, (c, v, m, q) in enumerate(st["backs"])]
                goalsets.append(gs2)
            ok = False
            t0 = time.time()
            for gs in goalsets:
                good = True
                for cond, seq, g in gs:
                    hy, T = s.facts_upto(seq, [], [c for c in s.cands if not c.generic], cond)
                    r, m, _ = s.solve(hy + [cond], T, z3.Not(g), s.timeout, not s.fast)
                    if r != "unsat": good = False; break
                if good: ok = True; break
            yield ("loop at %s terminates" % st["L"].header, "termination", ok, time.time() - t0, st)

    # ------------------------------------------------------------------ main
    def run(s, fail_fast=False):
        t0 = time.time()
        s.execute()
        uf = s.vc.fpmode != "fp" and s.vc.opts.get("int", True)
        plans = [(uf, False)]
        if s.vc.loops:
            if any(t[3] > 0 for t in s.vc.templates): plans.append((uf, True))     # templates for every choice of enclosing loops
            if uf: plans.append((False, True))                                     # bit-precise
        R = None
        for s.fast, s.full in plans:
            if R is not None:
                if uf and not s.fast and not s.enc.opaque: break
                s.log("  again: %s" % ("bit-precise" if uf and not s.fast else "all templates"))
            R2 = s.attempt(fail_fast, t0)
            if R is None or len(R2.failures) < len(R.failures): R = R2
            if not any(f["kind"] != "vacuity" for f in R.failures): break
        return R

    def attempt(s, fail_fast, t0):
        R = Result()
        s.houdini()
        vc = s.vc
        for st in vc.loops:
            for c in s.cands:
                if c.st is st and c.alive:
                    R.obls.append(("invariant %s: %s" % (st["L"].header, c.name), "invariant", "proved", 0.0, "z3", ""))
        for name, kind, ok, dt, st in s.termination():
            R.obls.append((name, kind, "proved" if ok else "failed", dt, "z3", ""))
            if not ok: R.failures.append({"obligation": name, "kind": kind, "status": "unknown", "where": s.fn, "model": None})
        batch = s.batches()
        for o in vc.obls:
            t1 = time.time()
            if is_true(o.cond) or is_false(o.reach):
                R.obls.append((o.name, o.kind, "proved", 0.0, "simplifier", o.text or "")); continue
            if id(o) in batch:
                R.obls.append((o.name, o.kind, "proved") + batch[id(o)] + (o.text or "",)); continue
            hy, T = s.facts_upto(o.seq, vc.skolems, s.cands, o.reach)
            r, m, sol = s.solve(hy + [o.reach], T, mk_not(o.cond), min(s.timeout, 6))
            be = s.last_be
            if r == "unknown":
                r2 = s.cvc5(sol)
                if r2 != "unknown": r, be = r2, "cvc5"
                else:
                    r, m, sol = s.solve(hy + [o.reach], T, mk_not(o.cond), s.timeout)
                    be = s.last_be
            R.obls.append((o.name, o.kind, "proved" if r == "unsat" else "failed", time.time() - t1, be, o.text or ""))
            if r != "unsat":
                f = {"obligation": o.name, "kind": o.kind, "status": r, "where": o.text or s.fn, "model": s.model(m)}
                R.failures.append(f)
                if fail_fast: break
        # vacuity: the declared covers and the end of the driver must be reachable
        for name, reach, seq in vc.covers + [("end of driver", s.exit_reach, vc.seq + 1)]:
            hy, T = s.facts_upto(seq, vc.skolems, s.cands)
            r = "unknown"
            if s.fast and not s.enc.opaque: r, _, _, _ = s.refute(hy, T, [mk_not(reach)], s.timeout)
            if r == "unknown": r, m, _ = s.solve(hy, T, reach, min(s.timeout, 8))
            R.obls.append(("reachable: " + name, "vacuity", "proved" if r == "sat" else ("failed" if r == "unsat" else "unknown"), 0, "z3", ""))
            if r == "unsat":
                R.failures.append({"obligation": "reachable: " + name, "kind": "vacuity", "status": "vacuous", "where": s.fn, "model": None})
        R.status = "failed" if R.failures else "proved"
        R.stats = {"queries": s.nq, "z3_s": round(s.times["z3"], 2), "cvc5_s": round(s.times["cvc5"], 2), "wall_s": round(time.time()-t0, 2),
                   "loops": len(vc.loops), "candidates": len(s.cands), "invariants": sum(c.alive for c in s.cands),
                   "trusted": sorted(vc.trusted), "functions": sorted(vc.executed)}
        return R

    def batches(s):
        """obligations with the same path condition are tried together first"""
        groups, out = {}, {}
        for o in s.vc.obls:
            if not is_true(o.cond) and not is_false(o.reach):
                # between two loop heads nothing but the obligations themselves is learnt
                k = (o.reach.get_id(), sum(st["head_seq"] < o.seq for st in s.vc.loops))
                groups.setdefault(k, []).append(o)
        for g in groups.values():
            if len(g) < 2: continue
            t1 = time.time()
            hy, T = s.facts_upto(g[0].seq, s.vc.skolems, s.cands, g[0].reach)
            r, m, sol = s.solve(hy + [g[0].reach], T, z3.Not(z3.And(*[o.cond for o in g])), min(s.timeout, 6), not s.fast)
            if r == "unsat":
                for o in g: out[id(o)] = ((time.time() - t1) / len(g), s.last_be)
        return out

    def cvc5(s, sol):
        t0 = time.time()
        txt = sol.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + txt)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(s.timeout*1000), f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=s.timeout + 10)
            o = p.stdout.strip().split("\n")[0]
        except Exception:
            o = "unknown"
        os.unlink(f.name)
        s.times["cvc5"] += time.time() - t0
        return o if o in ("sat", "unsat") else "unknown"

    def model(s, m):
        if m is None: return None
        out = []
        for nm, kind, v in s.vc.anys:
            x = m.eval(v, model_completion=True)
            out.append((nm, kind, fmt(x, kind)))
        return out

def fmt(x, kind):
    if z3.is_bv_value(x):
        return str(x.as_signed_long() if kind.startswith("i") and kind != "index" else x.as_long())
    if z3.is_fp(x):
        b = z3.simplify(z3.fpToIEEEBV(x))
        if z3.is_bv_value(b): return "0x%x" % b.as_long()
        return "0x7ff8000000000000" if kind == "f64" else "0x7fc00000"
    return str(x)

def short(n):
    m = re.match(r"_ZN?(.*)", n)
    if not m: return n
    ids = re.findall(r"\d+([A-Za-z_]\w*?)(?=\d|E|I|$)", n)
    r = re.search(r"(\d+)(\w+)", n[2:])
    import subprocess
    try: return subprocess.run(["c++filt", n], stdout=subprocess.PIPE, text=True).stdout.replace("(anonymous namespace)", "anon").split("(")[0].strip().split("::")[-1]
    except Exception: return n
