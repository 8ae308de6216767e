"""Verification-condition generator: symbolic semantics of LLVM IR + loop cutting.

One driver function is turned into
  * a set of facts (assumptions, in program order),
  * a set of named obligations (asserts, memory safety, arithmetic UB, unreachable code), in program order,
  * for every loop: the symbolic state on entry, at an arbitrary iteration, and after one iteration.
Every loop is cut at its header, every path is merged with if-then-else: no unrolling, no bound.
"""
import re, itertools
import z3
from .ir import *

BV64 = z3.BitVecSort(64)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

def is_true(e): return z3.is_true(e)
def is_false(e): return z3.is_false(e)
def mk_and(*a):
    out = []
    for x in a:
        if is_false(x): return FALSE
        if is_true(x): continue
        out.append(x)
    if not out: return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)
def mk_or(*a):
    out = []
    for x in a:
        if is_true(x): return TRUE
        if is_false(x): continue
        out.append(x)
    if not out: return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)
def mk_not(a):
    if is_true(a): return FALSE
    if is_false(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def mk_implies(a, b): return mk_or(mk_not(a), b)
def mk_ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a.eq(b): return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b): return c
        if is_false(a) and is_true(b): return mk_not(c)
        if is_true(a): return mk_or(c, b)
        if is_false(a): return mk_and(mk_not(c), b)
        if is_true(b): return mk_or(mk_not(c), a)
        if is_false(b): return mk_and(c, a)
    return z3.If(c, a, b)
def bvc(v, n): return z3.BitVecVal(v, n)
def isnum(e): return isinstance(e, z3.BitVecNumRef)
def cf(e, *args):
    """constant fold when all arguments are numerals"""
    if all(isnum(x) or z3.is_true(x) or z3.is_false(x) for x in args):
        return z3.simplify(e)
    return e
def add64(a, b):
    if isnum(a) and a.as_long() == 0: return b
    if isnum(b) and b.as_long() == 0: return a
    if isnum(a) and isnum(b): return bvc(a.as_long()+b.as_long(), 64)
    return a + b

class Ptr:
    """alternatives: (guard, region, idx BV64|None, off int); region None = null; str = function"""
    __slots__ = ("alts",)
    def __init__(s, alts): s.alts = alts
    @staticmethod
    def mk(r, idx=None, off=0): return Ptr([(TRUE, r, idx, off)])
    def single(s): return s.alts[0] if len(s.alts) == 1 else None
    def __repr__(s): return "Ptr%r" % (s.alts,)
NULL = Ptr([(TRUE, None, None, 0)])

class IntPtr:
    __slots__ = ("p",)
    def __init__(s, p): s.p = p

class Undef: pass

class Region:
    def __init__(s, name, kind, elem=1, length=None, const=False, align=1):
        s.name, s.kind, s.elem, s.length, s.const = name, kind, elem, length, const
        s.alloca = False
        s.layout = {}      # for arrays: off -> type key
    def __repr__(s): return "<%s>" % s.name

class Obl:
    def __init__(s, name, kind, reach, cond, seq, text=None):
        s.name, s.kind, s.reach, s.cond, s.seq, s.text = name, kind, reach, cond, seq, text

class LoopInfo:
    def __init__(s, header): s.header, s.body, s.latches, s.parent = header, set(), [], None
    def depth(s):
        d, p = 1, s.parent
        while p: d += 1; p = p.parent
        return d

def cfg_info(f):
    """reachable RPO order, dominators, natural loops"""
    if hasattr(f, "_cfg"): return f._cfg
    entry = f.order[0]
    succ = {b: f.blocks[b].succs() for b in f.order}
    # RPO
    seen, post = set(), []
    stack = [(entry, iter(succ[entry]))]; seen.add(entry)
    while stack:
        b, it = stack[-1]
        for n in it:
            if n not in seen:
                seen.add(n); stack.append((n, iter(succ[n]))); break
        else:
            post.append(b); stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for n in succ[b]: preds[n].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for n in succ[b]:
            if num[n] <= num[b]:
                if not dom(n, b): raise Unsupported("irreducible control flow")
                L = loops.setdefault(n, LoopInfo(n))
                L.latches.append(b)
                L.body.add(n)
                st = [b]
                while st:
                    x = st.pop()
                    if x in L.body: continue
                    L.body.add(x); st += preds[x]
    for h, L in loops.items():
        best = None
        for h2, M in loops.items():
            if M is not L and h in M.body and (best is None or len(M.body) < len(best.body)): best = M
        L.parent = best
    # a topological order that keeps loop bodies contiguous is not needed: RPO without back edges is topological
    f._cfg = (rpo, preds, loops)
    return f._cfg

class VC:
    """state shared by one verification run"""
    def __init__(s, mod, fpmode="fp", opts=None):
        s.mod, s.fpmode, s.opts = mod, fpmode, opts or {}
        s.modsets, s.ptr_shapes, s.field_types = {}, {}, {}
        s.task_reads, s.task_writes, s.task_zone = set(), set(), set()      # of pool tasks: (region, offset or "[]"); loops that submit
        s.reset()
    def reset(s):
        s.seq = 0
        s.facts = []        # (seq, z3)
        s.obls = []
        s.regions = {}
        s.names = itertools.count()
        s.fresh_ct = {}
        s.terms = {}        # instantiation terms: id -> (expr, seq)
        s.skolems = []
        s.templates = []    # (fn, ctxptr, arity, seq, kind)
        s.axioms = []
        s.loops = []
        s.anys = []         # (name, kind, z3) in draw order
        s.arrays = []
        s.covers = []
        s.footprints = []
        s.task_seen = False
        s.prod = {}
        s.stores = None
        s.trusted = set()
        s.purefns = {}
        s.executed = set()
        s.globals_done = {}
        s.ghost = {}
        s.first_fields = {}
        s.purecalls = {}    # name -> list of argument tuples
        s.undef_region = Region("#undef", "cells"); s.undef_region.size = 0
        s.regions["#undef"] = s.undef_region
    def task_number(s, ex):
        """value of the ghost counter of submitted tasks (specs/shadow/fern/core/thread_pool.h)"""
        for n in s.mod.globals:
            if "fv_submitted" in n:
                return ex.content(ex.global_ptr(n).single()[1])[0][2]
        raise Unsupported("no task counter")
    def joined(s, ex):
        """every task submitted so far has been waited for"""
        v = {k: ex.content(ex.global_ptr(n).single()[1])[0][2] for n in s.mod.globals for k in ("fv_submitted", "fv_joined") if k in n}
        return v["fv_submitted"] == v["fv_joined"]
    # -- helpers
    def fresh(s, base, sort):
        n = s.fresh_ct.get(base, 0); s.fresh_ct[base] = n + 1
        return z3.Const("%s!%d" % (base, n), sort)
    def fpsort(s, k):
        if s.fpmode == "fp":
            return {"float": z3.Float32(), "double": z3.Float64(), "x86_fp80": z3.FPSort(15, 64)}[k]
        return z3.DeclareSort({"float": "F32", "double": "F64", "x86_fp80": "F80"}[k])
    def sort(s, t):
        if t.k == "int": return z3.BoolSort() if t.n == 1 else z3.BitVecSort(t.n)
        if t.k in FLOATS: return s.fpsort(t.k)
        raise Unsupported("sort of %r" % t)
    def fact(s, e):
        if is_true(e): return
        s.seq += 1
        s.facts.append((s.seq, e))
    def oblige(s, name, kind, reach, cond, text=None):
        if is_true(cond) or is_false(reach):
            s.seq += 1
            s.obls.append(Obl(name, kind, reach, cond, s.seq, text)) if kind in ("assert",) else None
            return
        s.seq += 1
        s.obls.append(Obl(name, kind, reach, cond, s.seq, text))
    def term(s, e):
        if isnum(e) and s.opts.get("no_const_terms", False): return
        s.terms.setdefault(e.get_id(), (e, s.seq))

class Mem:
    """persistent map region -> content"""
    __slots__ = ("d",)
    def __init__(s, d): s.d = d
    def get(s, r): return s.d[r.name]
    def set(s, r, c):
        d = dict(s.d); d[r.name] = c; return Mem(d)

def tykey(t, mod):
    t = mod.resolve(t)
    if t.k == "ptr": return "ptr"
    return repr(t)

class Exec:
    def __init__(s, vc, fn, args, mem, reach, pure=False, prefix="", depth=0):
        s.vc, s.mod = vc, vc.mod
        s.f = parse_body(vc.mod, vc.mod.funcs[fn]) if isinstance(fn, str) else fn
        s.env = {}
        s.prefix = prefix
        s.deferred = {}
        s.pure = pure
        s.depth = depth
        for (n, t), a in zip(s.f.params, args): s.env[n] = a
        s.mem0, s.reach0 = mem, reach
        s.task = None
        if not pure: vc.executed.add(s.f.name)
        s.fname = s.f.name

    # ------------------------------------------------------------ values
    def const(s, ty, v):
        vc, mod = s.vc, s.mod
        t = mod.resolve(ty)
        k = v[0]
        if k == "l":
            if v[1] not in s.env: raise Unsupported("undefined value %s" % v[1])
            return s.env[v[1]]
        if k == "i":
            if t.k == "int":
                return z3.BoolVal(bool(v[1] & 1)) if t.n == 1 else bvc(v[1], t.n)
        if k == "f": return s.fconst(t, v[1])
        if k == "null": return NULL
        if k == "g": return s.global_ptr(v[1])
        if k == "undef":
            if t.k in ("int",) or t.k in FLOATS: return vc.fresh("undef", vc.sort(t))
            if t.k == "ptr": return Ptr.mk(vc.undef_region)
            if t.k == "struct": return [s.const(e, v) for e in t.els]
            if t.k == "array": return [s.const(t.el, v) for _ in range(t.n)]
            return None
        if k == "zero":
            if t.k == "int": return s.const(t, ("i", 0))
            if t.k in FLOATS: return s.fconst(t, "0.0")
            if t.k == "ptr": return NULL
            if t.k == "struct": return [s.const(e, v) for e in t.els]
            if t.k == "array": return [s.const(t.el, v) for _ in range(t.n)]
        if k == "agg":
            return [s.const(a, b) for a, b in v[1]]
        if k == "cgep":
            ops = [(t2, s.const(t2, x)) for t2, x in v[2]]
            return s.gep(v[1], ops)
        if k == "ccast":
            return s.cast(v[1], v[2], s.const(v[2], v[3]), v[4], TRUE, ())
        if k == "cbin":
            return s.binop(v[1], v[2], s.const(v[2], v[3]), s.const(v[2], v[4]), (), TRUE)
        raise Unsupported("constant %r of %r" % (v, t))

    def fconst(s, t, w):
        import struct
        vc = s.vc
        if w.startswith("0xK"):
            bits = int(w[3:], 16)
            if vc.fpmode == "fp":
                # x86_fp80: explicit integer bit
                sign, exp, man = bits >> 79, (bits >> 64) & 0x7fff, bits & ((1 << 64)-1)
                frac = man & ((1 << 63)-1)
                b = z3.Concat(bvc(sign, 1), bvc(exp, 15), bvc(frac, 63))
                return z3.fpBVToFP(z3.simplify(b), z3.FPSort(15, 64))
            return z3.Const("f80_%x" % bits, vc.fpsort(t.k))
        if w.startswith("0x"):
            d = struct.unpack(">d", bytes.fromhex(w[2:].rjust(16, "0")))[0]
            bits = int(w[2:], 16)
        else:
            d = float(w)
            bits = struct.unpack(">Q", struct.pack(">d", d))[0]
        if vc.fpmode == "fp":
            e = z3.fpBVToFP(bvc(bits, 64), z3.Float64())
            if t.k == "float": e = z3.fpFPToFP(z3.RNE(), e, z3.Float32())
            return z3.simplify(e)
        return z3.Const("%s_%x" % (t.k, bits), vc.fpsort(t.k))

    def global_ptr(s, name):
        vc, mod = s.vc, s.mod
        if name in mod.funcs or name in mod.decls:
            return Ptr.mk("fn:" + name)
        key = "@" + name
        if key not in vc.regions:
            t, init, const = mod.globals.get(name, (None, None, False))
            r = Region(key, "cells", const=const)
            vc.regions[key] = r
            r.gtype = t; r.ginit = init
        return Ptr.mk(vc.regions[key], None, 0)

    def global_cells(s, r):
        cells = {}
        def put(off, t, v):
            t = s.mod.resolve(t)
            if v[0] == "str":
                raw = bytes(v[1], "latin1")
                body = v[1][2:-1]
                bs, i = [], 0
                while i < len(body):
                    if body[i] == "\\":
                        if body[i+1] == "\\": bs.append(92); i += 2
                        else: bs.append(int(body[i+1:i+3], 16)); i += 3
                    else: bs.append(ord(body[i])); i += 1
                for j, b in enumerate(bs): cells[off+j] = (1, "i8", bvc(b, 8))
                return
            if t.k == "struct" and v[0] in ("agg", "zero", "undef"):
                for i, e in enumerate(t.els):
                    put(off + s.mod.field_off(t, i), e, v[1][i][1] if v[0] == "agg" else v)
            elif t.k == "array" and v[0] in ("agg", "zero", "undef"):
                n = s.mod.sizeof(t.el)
                if t.n > 100000: raise Unsupported("large global")
                for i in range(t.n):
                    put(off + i*n, t.el, v[1][i][1] if v[0] == "agg" else v)
            else:
                cells[off] = (s.mod.sizeof(t), tykey(t, s.mod), s.const(t, v))
        if r.gtype is not None and r.ginit is not None:
            put(0, r.gtype, r.ginit)
        return cells

    def content(s, r):
        c = s.mem.d.get(r.name)
        if c is None:
            if r.kind == "cells":
                c = s.global_cells(r) if r.name.startswith("@") and (r.const or getattr(r, "ginit", None) is not None) else {}
            else:
                c = {}
            s.mem = s.mem.set(r, c)
        return c

    # ------------------------------------------------------------ pointers
    def gep(s, ety, ops, inbounds=True):
        p = ops[0][1]
        if not isinstance(p, Ptr): raise Unsupported("gep on non pointer")
        const, var = 0, []     # var: (term, scale)
        t = ety
        first = True
        for (it, iv) in ops[1:]:
            if first:
                sc = s.mod.sizeof(t); first = False
            else:
                t = s.mod.resolve(t)
                if t.k == "struct":
                    i = iv.as_long()
                    const += s.mod.field_off(t, i); t = t.els[i]
                    continue
                t = t.el; sc = s.mod.sizeof(t)
            if isinstance(iv, IntPtr): raise Unsupported("pointer as index")
            if iv.size() < 64: iv = z3.SignExt(64-iv.size(), iv); iv = cf(iv, *iv.children()) if isnum(iv.arg(0)) else iv
            if isnum(iv):
                x = iv.as_signed_long()
                const += x*sc
            else:
                var.append((iv, sc))
        alts = []
        for g, r, idx, off in p.alts:
            if r is None and not var and const == 0:
                alts.append((g, r, idx, off)); continue
            if r is None or isinstance(r, str):
                alts.append((g, r, idx, off)); continue
            o2 = off + const; i2 = idx
            if r.kind == "array":
                E = r.elem
                for v, sc in var:
                    if sc % E == 0:
                        m = sc//E
                        i2 = add64(i2, v if m == 1 else v*bvc(m, 64))
                    else:
                        pr = s.vc.prod.get(v.get_id())
                        if sc == 1 and pr and pr[2] % E == 0:
                            m = pr[2]//E
                            i2 = add64(i2, pr[1] if m == 1 else pr[1]*bvc(m, 64))
                        else:
                            raise Unsupported("scaled index %d into element size %d" % (sc, E))
                q, rem = divmod(o2, E)
                if q: i2 = add64(i2, bvc(q, 64))
                o2 = rem
            elif var:
                # variable index into a cell region: keep symbolic byte offset (small regions: case split on access)
                z = i2 if i2 is not None else bvc(0, 64)
                for v, sc in var: z = add64(z, v*bvc(sc, 64) if sc != 1 else v)
                i2 = z
            alts.append((g, r, i2, o2))
        return Ptr(alts)

    def ptr_eq(s, a, b):
        out = []
        for g1, r1, i1, o1 in a.alts:
            for g2, r2, i2, o2 in b.alts:
                g = mk_and(g1, g2)
                if is_false(g): continue
                if s.vc.undef_region in (r1, r2): e = s.vc.fresh("ptrcmp", z3.BoolSort())
                elif r1 is not r2 and r1 != r2: e = FALSE
                elif r1 is None or isinstance(r1, str): e = TRUE
                elif i1 is None and i2 is None: e = z3.BoolVal(o1 == o2)
                else:
                    if r1.kind == "array":
                        e = mk_and(z3.BoolVal(o1 == o2), i1 == i2 if not i1.eq(i2) else TRUE)
                        if isnum(i1) and isnum(i2): e = z3.BoolVal(o1 == o2 and i1.as_long() == i2.as_long())
                    else:
                        x = i1 if i1 is not None else bvc(0, 64); y = i2 if i2 is not None else bvc(0, 64)
                        e = (x + o1) == (y + o2)
                out.append(mk_and(g, e))
        return mk_or(*out)

    def ptr_cmp(s, pred, a, b):
        if pred == "eq": return s.ptr_eq(a, b)
        if pred == "ne": return mk_not(s.ptr_eq(a, b))
        out = []
        for g1, r1, i1, o1 in a.alts:
            for g2, r2, i2, o2 in b.alts:
                g = mk_and(g1, g2)
                if is_false(g): continue
                if r1 is None and r2 is None:
                    e = z3.BoolVal(pred in ("ule", "uge", "sle", "sge")); out.append(mk_and(g, e)); continue
                if r1 is not r2:
                    e = s.vc.fresh("ptrcmp", z3.BoolSort())
                else:
                    x = i1 if i1 is not None else bvc(0, 64); y = i2 if i2 is not None else bvc(0, 64)
                    if r1.kind != "array" or (o1 == 0 and o2 == 0):
                        if r1.kind != "array": x, y = x + o1, y + o2
                        e = {"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[pred](x, y)
                        e = cf(e, x, y)
                    else: raise Unsupported("ptr cmp inside element")
                out.append(mk_and(g, e))
        return mk_or(*out)

    def ptr_diff(s, a, b):
        """byte difference"""
        res = None
        for g1, r1, i1, o1 in a.alts:
            for g2, r2, i2, o2 in b.alts:
                g = mk_and(g1, g2)
                if is_false(g): continue
                if r1 is None and r2 is None: d = bvc(0, 64)
                elif r1 is not r2: d = s.vc.fresh("ptrdiff", BV64)
                elif r1.kind == "array":
                    n = i1 - i2
                    n = cf(n, i1, i2)
                    if isnum(i2) and i2.as_long() == 0: n = i1
                    d = n*bvc(r1.elem, 64) if r1.elem != 1 else n
                    d = cf(d, n)
                    if o1 != o2: d = d + bvc(o1-o2, 64)
                    elif r1.elem != 1 and not isnum(d): s.vc.prod[d.get_id()] = (d, n, r1.elem)
                else:
                    x = i1 if i1 is not None else bvc(0, 64); y = i2 if i2 is not None else bvc(0, 64)
                    d = cf(x - y + bvc(o1-o2, 64), x, y)
                if res is None: res = d
                else:
                    nres = mk_ite(g, d, res)
                    pa, pb = s.vc.prod.get(d.get_id()), s.vc.prod.get(res.get_id())
                    if pa and pb and pa[2] == pb[2]:
                        nres = mk_ite(g, pa[1], pb[1])*bvc(pa[2], 64)
                        s.vc.prod[nres.get_id()] = (nres, nres.arg(0), pa[2])
                    res = nres
        return res

    # ------------------------------------------------------------ memory
    def ite_val(s, c, a, b):
        if is_true(c): return a
        if is_false(c): return b
        if a is b: return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            alts = []
            for g, r, i, o in a.alts: alts.append((mk_and(c, g), r, i, o))
            nc = mk_not(c)
            for g, r, i, o in b.alts: alts.append((mk_and(nc, g), r, i, o))
            merged = []
            for g, r, i, o in alts:
                if is_false(g): continue
                for j, (g2, r2, i2, o2) in enumerate(merged):
                    if r2 is r or (isinstance(r, str) and r == r2):
                        if o == o2 and (i is None) == (i2 is None):
                            if i is None or i.eq(i2):
                                merged[j] = (mk_or(g2, g), r, i2, o); break
                            if r is not None and not isinstance(r, str) and r.kind == "array":
                                merged[j] = (mk_or(g2, g), r, mk_ite(g2, i2, i), o); break
                else:
                    merged.append((g, r, i, o))
            if len(merged) == 1: merged[0] = (TRUE,) + merged[0][1:]
            return Ptr(merged)
        if isinstance(a, IntPtr) and isinstance(b, IntPtr): return IntPtr(s.ite_val(c, a.p, b.p))
        if isinstance(a, list): return [s.ite_val(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, (Ptr, IntPtr)) or isinstance(b, (Ptr, IntPtr)):
            raise Unsupported("merge of pointer and integer")
        if a is None: return b
        if b is None: return a
        r = mk_ite(c, a, b)
        if z3.is_bv(r) and not r.eq(a) and not r.eq(b):
            pa, pb = s.vc.prod.get(a.get_id()), s.vc.prod.get(b.get_id())
            if pa and pb and pa[2] == pb[2]:
                r = mk_ite(c, pa[1], pb[1])*bvc(pa[2], 64)
                s.vc.prod[r.get_id()] = (r, r.arg(0), pa[2])
        return r

    def conv(s, val, key, ty):
        """reinterpret val stored with type key `key` as IR type ty (same size)"""
        k2 = tykey(ty, s.mod)
        if key == k2: return val
        t = s.mod.resolve(ty)
        if isinstance(val, (Ptr,)):
            if t.k == "int" and t.n == 64: return IntPtr(val)
            raise Unsupported("pointer reinterpretation %s->%s" % (key, k2))
        if isinstance(val, IntPtr):
            if t.k == "ptr": return val.p
            raise Unsupported("intptr reinterpretation")
        if t.k == "ptr":
            if isnum(val) and val.as_long() == 0: return NULL
            raise Unsupported("integer reinterpreted as pointer")
        if t.k == "int" and z3.is_bv(val):
            n = 8*((t.n+7)//8)
            if val.size() == t.n: return val
            if t.n == 1: return z3.Extract(0, 0, val) == bvc(1, 1)
        if t.k == "int" and z3.is_bool(val) and t.n == 8: return z3.If(val, bvc(1, 8), bvc(0, 8))
        if s.vc.fpmode == "fp":
            if t.k in FLOATS and z3.is_bv(val): return z3.fpBVToFP(val, s.vc.fpsort(t.k))
            if t.k == "int" and z3.is_fp(val): return z3.fpToIEEEBV(val)
        else:
            if t.k in FLOATS and z3.is_bv(val):
                if isnum(val) and val.as_long() == 0: return s.fconst(t, "0.0")
                return z3.Function("bits2%s" % t.k, val.sort(), s.vc.fpsort(t.k))(val)
            if t.k == "int" and not z3.is_bv(val):
                return z3.Function("%s2bits" % key, val.sort(), z3.BitVecSort(t.n))(val)
        raise Unsupported("reinterpretation %s -> %s" % (key, k2))

    def cells_load(s, r, cells, off, ty):
        n = s.mod.sizeof(ty)
        c = cells.get(off)
        if c and c[0] == n: return s.conv(c[2], c[1], ty)
        t = s.mod.resolve(ty)
        if t.k == "struct":
            return [s.cells_load(r, cells, off + s.mod.field_off(t, i), e) for i, e in enumerate(t.els)]
        if t.k == "array":
            m = s.mod.sizeof(t.el)
            return [s.cells_load(r, cells, off + i*m, t.el) for i in range(t.n)]
        # compose integers out of smaller cells, or extract from a bigger one
        if t.k == "int" or (t.k in FLOATS and s.vc.fpmode == "fp"):
            parts, o, ok = [], off, True
            while o < off + n:
                c = cells.get(o)
                if c and c[0] <= off + n - o and not isinstance(c[2], (Ptr, IntPtr)):
                    parts.append(s.conv(c[2], c[1], Ty("int", n=8*c[0]))); o += c[0]
                else: ok = False; break
            if ok and parts:
                v = parts[0] if len(parts) == 1 else z3.Concat(*parts[::-1])
                v = cf(v, *parts)
                return s.conv(v, "i%d" % (8*n), ty)
            for o, c in cells.items():
                if o <= off and off + n <= o + c[0] and not isinstance(c[2], (Ptr, IntPtr)):
                    v = s.conv(c[2], c[1], Ty("int", n=8*c[0]))
                    v = cf(z3.Extract(8*(off-o+n)-1, 8*(off-o), v), v)
                    return s.conv(v, "i%d" % (8*n), ty)
        # uninitialised: arbitrary
        if t.k == "ptr":
            return Ptr.mk(s.vc.undef_region)
        v = s.vc.fresh("uninit", s.vc.sort(t) if not (t.k == "int" and t.n == 1) else z3.BoolSort())
        return v

    def cells_store(s, cells, off, ty, val):
        t = s.mod.resolve(ty)
        if t.k == "struct":
            for i, e in enumerate(t.els): cells = s.cells_store(cells, off + s.mod.field_off(t, i), e, val[i])
            return cells
        if t.k == "array":
            m = s.mod.sizeof(t.el)
            for i in range(t.n): cells = s.cells_store(cells, off + i*m, t.el, val[i])
            return cells
        n = s.mod.sizeof(t)
        out = {}
        for o, c in cells.items():
            if o + c[0] <= off or o >= off + n: out[o] = c
            elif o == off and c[0] == n: pass
            else:
                # partial overlap: split what remains into bytes
                if isinstance(c[2], (Ptr, IntPtr)): continue
                v = s.conv(c[2], c[1], Ty("int", n=8*c[0]))
                for j in range(c[0]):
                    if not (off <= o + j < off + n):
                        out[o+j] = (1, "i8", cf(z3.Extract(8*j+7, 8*j, v), v))
        out[off] = (n, tykey(t, s.mod), val)
        return out

    def alt_offsets(s, r, idx, off, n, cells):
        """possible constant byte offsets of a symbolic access to a cell region"""
        cand = sorted(o for o in cells if (o - off) % 1 == 0)
        return cand

    def load(s, p, ty, reach, what="load"):
        if isinstance(p, IntPtr): p = p.p
        if not isinstance(p, Ptr): raise Unsupported("load through a non-pointer")
        res = None
        t = s.mod.resolve(ty)
        n = s.mod.sizeof(ty)
        for g, r, idx, off in reversed(p.alts):
            if r is None:
                s.oblige_mem(mk_and(reach, g), FALSE, "null dereference"); continue
            if isinstance(r, str):
                raise Unsupported("load from function")
            if r.kind == "cells":
                cells = s.content(r)
                s.task_access(r, None if idx is not None else off, None, mk_and(reach, g))
                s.main_access(r, off, mk_and(reach, g), False)
                if idx is not None:
                    v = s.sym_cells_load(r, cells, idx, off, ty, mk_and(reach, g))
                else:
                    size = getattr(r, "size", None)
                    if size is not None and not (0 <= off and off + n <= size):
                        s.oblige_mem(mk_and(reach, g), FALSE, "out of bounds access to %s" % r.name)
                    v = s.cells_load(r, cells, off, ty)
            else:
                v = s.array_load(r, idx, off, t, mk_and(reach, g))
            res = v if res is None else s.ite_val(g, v, res)
        if res is None:
            if t.k == "ptr": return NULL
            if t.k in ("struct", "array"): return s.const(t, ("undef",))
            res = s.vc.fresh("nullload", s.vc.sort(t))
        return res

    def sym_cells_load(s, r, cells, idx, off, ty, reach):
        n = s.mod.sizeof(ty)
        cand = [o for o, c in sorted(cells.items()) if c[0] == n]
        if len(cand) > 600: raise Unsupported("symbolic index into a large object")
        res = None; conds = []
        for o in cand:
            try: v = s.cells_load(r, cells, o, ty)
            except Unsupported: continue
            c = (idx == bvc(o - off, 64)); conds.append(c)
            res = v if res is None else s.ite_val(c, v, res)
        s.oblige_mem(reach, mk_or(*conds), "out of bounds access to %s" % r.name)
        if res is None: raise Unsupported("symbolic index into unknown object")
        return res

    def array_field(s, r, off, t):
        c = s.content(r)
        k = tykey(t, s.mod)
        if off in c:
            return c[off]
        srt = s.vc.sort(t) if not (t.k == "int" and t.n == 1) else z3.BitVecSort(8)
        if t.k == "int" and t.n == 1: k = "i8"
        s.vc.field_types[(r.name, off)] = k
        a = z3.Const("%s+%d" % (getattr(r, "alias", r.name), off), z3.ArraySort(BV64, srt))
        ent = (k, a)
        s.mem = s.mem.set(r, {**c, off: ent})
        s.vc.first_fields.setdefault(r.name, {})[off] = ent
        return ent

    def array_load(s, r, idx, off, t, reach):
        n = s.mod.sizeof(t)
        if off + n > r.elem: raise Unsupported("access across elements")
        s.oblige_mem(reach, z3.ULT(idx, r.length), "index within %s" % r.name)
        s.task_access(r, off, idx, reach); s.main_access(r, "[]", reach, False)
        if t.k == "struct":
            return [s.array_load(r, idx, off + s.mod.field_off(t, i), s.mod.resolve(e), reach) for i, e in enumerate(t.els)]
        if t.k == "ptr": raise Unsupported("pointer stored in array region")
        if not s.pure: s.vc.term(idx)
        k, a = s.array_field(r, off, t)
        return s.conv(z3.Select(a, idx), k, t)

    def array_store(s, r, idx, off, t, val, reach, guard):
        n = s.mod.sizeof(t)
        if off + n > r.elem: raise Unsupported("access across elements")
        if r.const: s.oblige_mem(mk_and(reach, guard), FALSE, "write to read-only %s" % r.name)
        s.oblige_mem(mk_and(reach, guard), z3.ULT(idx, r.length), "index within %s" % r.name)
        s.task_access(r, off, idx, mk_and(reach, guard), True); s.main_access(r, "[]", mk_and(reach, guard), True)
        if t.k == "struct":
            for i, e in enumerate(t.els):
                s.array_store(r, idx, off + s.mod.field_off(t, i), s.mod.resolve(e), val[i], reach, guard)
            return
        if t.k == "ptr": raise Unsupported("pointer stored in array region")
        if not s.pure: s.vc.term(idx)
        k, a = s.array_field(r, off, t)
        v = s.conv(val, tykey(t, s.mod), s.key2ty(k)) if k != tykey(t, s.mod) else val
        na = z3.Store(a, idx, v)
        if not is_true(guard): na = z3.If(guard, na, a)
        c = s.content(r)
        s.mem = s.mem.set(r, {**c, off: (k, na)})
        s.note_store(r, off)

    def key2ty(s, k):
        m = re.fullmatch(r"i(\d+)", k)
        if m: return Ty("int", n=int(m.group(1)))
        return Ty(k)

    def note_store(s, r, off):
        if s.vc.stores is not None and not s.pure:
            s.vc.stores.append((s.cur_path(), r.name, off))

    def store(s, p, ty, val, reach):
        if isinstance(p, IntPtr): p = p.p
        if not isinstance(p, Ptr): raise Unsupported("store through a non-pointer")
        t = s.mod.resolve(ty)
        n = s.mod.sizeof(ty)
        single = len(p.alts) == 1
        for g, r, idx, off in p.alts:
            guard = TRUE if single else g
            if r is None or isinstance(r, str):
                s.oblige_mem(mk_and(reach, g), FALSE, "null dereference"); continue
            if r.kind == "array":
                # memory after a merge is selected by path conditions, so a store needs no guard by `reach`
                s.array_store(r, idx, off, t, val, reach, guard)
                continue
            if r.const: s.oblige_mem(mk_and(reach, guard), FALSE, "write to constant %s" % r.name)
            s.task_write_cells(r, off, mk_and(reach, guard))
            cells = s.content(r)
            if idx is not None:
                cand = [o for o, c in sorted(cells.items()) if c[0] == n]
                if len(cand) > 600: raise Unsupported("symbolic index into a large object")
                conds = []
                for o in cand:
                    c = (idx == bvc(o - off, 64)); conds.append(c)
                    old = s.cells_load(r, cells, o, ty)
                    cells = s.cells_store(cells, o, ty, s.ite_val(mk_and(guard, c), val, old))
                    s.note_store(r, o)
                s.oblige_mem(mk_and(reach, guard), mk_or(*conds), "out of bounds access to %s" % r.name)
                s.mem = s.mem.set(r, cells)
                continue
            size = getattr(r, "size", None)
            if size is not None and not (0 <= off and off + n <= size):
                s.oblige_mem(mk_and(reach, guard), FALSE, "out of bounds access to %s" % r.name)
                continue
            if not single:
                old = s.cells_load(r, cells, off, ty)
                v = s.ite_val(guard, val, old)
            else: v = val
            s.mem = s.mem.set(r, s.cells_store(cells, off, ty, v))
            def leaf(off, t):
                t = s.mod.resolve(t)
                if t.k == "struct":
                    for i, e in enumerate(t.els): leaf(off + s.mod.field_off(t, i), e)
                elif t.k == "array":
                    for i in range(t.n): leaf(off + i*s.mod.sizeof(t.el), t.el)
                else: s.note_store(r, off)
            leaf(off, t)

    def oblige_mem(s, reach, cond, what):
        if s.pure: return
        s.vc.oblige("memory: " + what, "memory", reach, cond, s.where())

    def spec_select(s, ins):
        """the select instruction that alone decides whether the value of ins is used (the optimiser speculates arithmetic)"""
        m = getattr(s.f, "_spec", None)
        if m is None:
            uses, m = {}, {}
            for bn in s.f.order:
                for i in s.f.blocks[bn].ins:
                    txt = repr(i)
                    body = txt.split(" = ", 1)[1] if i.res and " = " in txt else txt
                    for x in set(re.findall(r'%(?:"[^"]*"|[-\w.$]+)', body)): uses.setdefault(x, []).append((bn, i))
            pure = set(BIN) | set(CAST)
            def final(r, bn, depth=0):
                us = uses.get(r, [])
                if len(us) != 1 or us[0][0] != bn or depth > 6: return None
                i = us[0][1]
                if i.op == "select":
                    if i.a[0][1] == ("l", r): return None
                    k = [j for j in (0, 1) if i.a[j + 1][1] == ("l", r)]
                    return (i.res, k[0] == 0) if len(k) == 1 else None
                if i.op in pure and i.op not in ("udiv", "sdiv", "urem", "srem"): return final(i.res, bn, depth + 1)
                return None
            for bn in s.f.order:
                for i in s.f.blocks[bn].ins:
                    if i.res and i.op in pure:
                        g = final(i.res, bn)
                        if g: m[i.res] = g
            s.f._spec = m
        return m.get(ins.res)

    def oblige_ub(s, reach, cond, what):
        if s.pure: return
        ins = getattr(s, "cur_ins", None)
        g = s.spec_select(ins) if ins is not None and ins.res and ins.op not in ("udiv", "sdiv", "urem", "srem") else None
        if g:
            s.deferred.setdefault(g[0], []).append((g[1], reach, cond, what, s.where())); return
        s.vc.oblige("arithmetic: " + what, "ub", reach, cond, s.where())

    def where(s):
        return "%s: %s" % (s.fname, getattr(s, "cur_ins", None) and s.cur_ins.text)

    def cur_path(s):
        return s.curblock_path

    # ------------------------------------------------------------ copying
    def memcpy(s, dst, src, n, reach):
        if isnum(n): n = n.as_long()
        else: raise Unsupported("memcpy of symbolic length")
        if n == 0: return
        sd, ss = dst.single(), src.single()
        if sd is None or ss is None: raise Unsupported("memcpy through merged pointers")
        _, dr, di, do = sd; _, sr, si, so = ss
        if dr is None or sr is None: s.oblige_mem(reach, FALSE, "null memcpy"); return
        items = []
        if sr.kind == "cells":
            if si is not None: raise Unsupported("memcpy symbolic")
            cells = s.content(sr)
            for o, c in sorted(cells.items()):
                if so <= o and o + c[0] <= so + n:
                    items.append((o - so, c[0], c[1], c[2]))
                    s.task_access(sr, o, None, reach); s.main_access(sr, o, reach, False)
        else:
            if n > sr.elem:
                raise Unsupported("memcpy of several elements")
            s.oblige_mem(reach, z3.ULT(si, sr.length), "index within %s" % sr.name)
            known = s.content(sr)
            o = so
            while o < so + n:
                if o in known: t = s.key2ty(known[o][0])
                else: t = Ty("int", n=64) if (so + n - o) >= 8 and o % 8 == 0 else Ty("int", n=8)
                v = s.array_load(sr, si, o, t, reach)
                items.append((o - so, s.mod.sizeof(t), tykey(t, s.mod), v))
                o += s.mod.sizeof(t)
        if dr.kind == "cells":
            if di is not None: raise Unsupported("memcpy symbolic")
            cells = s.content(dr)
            out = {o: c for o, c in cells.items() if o + c[0] <= do or o >= do + n}
            for o, sz, k, v in items:
                out[do + o] = (sz, k, v); s.note_store(dr, do + o); s.task_write_cells(dr, do + o, reach)
            s.mem = s.mem.set(dr, out)
        else:
            for o, sz, k, v in items:
                if isinstance(v, (Ptr, IntPtr)): raise Unsupported("pointer copied into array region")
                s.array_store(dr, di, do + o, s.key2ty(k), v, reach, TRUE)

    def memset(s, dst, val, n, reach):
        if not isnum(n): raise Unsupported("memset of symbolic length")
        n = n.as_long()
        if n == 0: return
        sd = dst.single()
        if sd is None: raise Unsupported("memset through merged pointers")
        _, r, idx, off = sd
        if r is None: s.oblige_mem(reach, FALSE, "null memset"); return
        if r.kind == "cells" and idx is None:
            o = off
            cells = s.content(r)
            # keep the granularity of known cells; fill gaps with the widest aligned ints
            out = {a: c for a, c in cells.items() if a + c[0] <= off or a >= off + n}
            while o < off + n:
                c = cells.get(o)
                w = c[0] if c and c[0] <= off + n - o and c[0] in (1, 2, 4, 8) else next(k for k in (8, 4, 2, 1) if o % k == 0 and o + k <= off + n)
                v = val if w == 1 else z3.Concat(*[val]*w)
                out[o] = (w, "i%d" % (8*w), cf(v, val)); s.note_store(r, o); s.task_write_cells(r, o, reach)
                o += w
            s.mem = s.mem.set(r, out)
            return
        raise Unsupported("memset on array region")

    # ------------------------------------------------------------ arithmetic
    def binop(s, op, ty, a, b, flags, reach):
        t = s.mod.resolve(ty)
        if t.k in FLOATS:
            return s.fbin(op, t, a, b)
        if isinstance(a, IntPtr) or isinstance(b, IntPtr):
            if op == "sub" and isinstance(a, IntPtr) and isinstance(b, IntPtr): return s.ptr_diff(a.p, b.p)
            if op == "add" and isinstance(a, IntPtr) and not isinstance(b, IntPtr):
                return IntPtr(s.gep(Ty("int", n=8), [(PTR, a.p), (ty, b)]))
            if op == "and" or op == "urem":   # alignment tests
                return s.vc.fresh("align", z3.BitVecSort(64))
            raise Unsupported("integer arithmetic on pointer (%s)" % op)
        if t.k == "int" and t.n == 1:
            if op == "and" or op == "mul": return mk_and(a, b)
            if op == "or": return mk_or(a, b)
            if op in ("xor", "add", "sub"):
                if is_true(b): return mk_not(a)
                if is_false(b): return a
                if is_true(a): return mk_not(b)
                if is_false(a): return b
                return z3.Xor(a, b)
            raise Unsupported("i1 %s" % op)
        n = t.n
        if op == "add":
            r = add64(a, b) if n == 64 else cf(a + b, a, b)
            if "nsw" in flags:
                s.oblige_ub(reach, mk_and(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)) if not (isnum(a) and isnum(b)) else TRUE, "signed overflow in addition")
            return r
        if op == "sub":
            if "nsw" in flags:
                s.oblige_ub(reach, mk_and(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)) if not (isnum(a) and isnum(b)) else TRUE, "signed overflow in subtraction")
            if isnum(b) and b.as_long() == 0: return a
            if a.eq(b): return bvc(0, n)
            return cf(a - b, a, b)
        if op == "mul":
            if "nsw" in flags and not (isnum(a) and isnum(b)):
                s.oblige_ub(reach, s.mul_no_ovf(a, b, n), "signed overflow in multiplication")
            r = cf(a*b, a, b)
            if not isnum(r):
                if isnum(b): s.vc.prod[r.get_id()] = (r, a, b.as_long())
                elif isnum(a): s.vc.prod[r.get_id()] = (r, b, a.as_long())
            return r
        if op in ("udiv", "sdiv", "urem", "srem"):
            if not (isnum(b) and b.as_long() != 0):
                s.oblige_ub(reach, b != bvc(0, n), "division by zero")
            if op in ("sdiv", "srem"):
                if not (isnum(b) and b.as_signed_long() != -1):
                    s.oblige_ub(reach, mk_not(mk_and(a == bvc(1 << (n-1), n), b == bvc(-1, n))), "signed overflow in division")
            if isnum(b):
                pr = s.vc.prod.get(a.get_id())
                d = b.as_signed_long()
                if pr and d > 0 and pr[2] % d == 0 and ("exact" in flags):
                    m = pr[2]//d
                    r = pr[1] if m == 1 else pr[1]*bvc(m, 64)
                    if m != 1: s.vc.prod[r.get_id()] = (r, pr[1], m)
                    return r
            return cf({"udiv": z3.UDiv, "sdiv": lambda x, y: x/y, "urem": z3.URem, "srem": z3.SRem}[op](a, b), a, b)
        if op in ("and", "or", "xor"):
            return cf({"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op](a, b), a, b)
        if op in ("shl", "lshr", "ashr"):
            if not isnum(b):
                s.oblige_ub(reach, z3.ULT(b, bvc(n, n)), "shift amount")
            if op == "shl" and "nsw" in flags:
                s.oblige_ub(reach, ((a << b) >> b) == a, "signed overflow in shift") if not (isnum(a) and isnum(b)) else None
            r = cf({"shl": lambda x, y: x << y, "lshr": z3.LShR, "ashr": lambda x, y: x >> y}[op](a, b), a, b)
            if op == "shl" and isnum(b) and not isnum(a):
                s.vc.prod[r.get_id()] = (r, a, 1 << b.as_long())
            if op in ("lshr", "ashr") and isnum(b):
                pr = s.vc.prod.get(a.get_id()); d = 1 << b.as_long()
                if pr and pr[2] % d == 0 and "exact" in flags:
                    m = pr[2]//d
                    return pr[1] if m == 1 else pr[1]*bvc(m, 64)
            return r
        raise Unsupported("binop %s" % op)

    def mul_no_ovf(s, a, b, n):
        w = z3.SignExt(n, a)*z3.SignExt(n, b)
        return w == z3.SignExt(n, z3.Extract(n-1, 0, w))

    def fbin(s, op, t, a, b):
        if s.vc.fpmode == "fp":
            rm = z3.RNE()
            if op == "fadd": return z3.fpAdd(rm, a, b)
            if op == "fsub": return z3.fpSub(rm, a, b)
            if op == "fmul": return z3.fpMul(rm, a, b)
            if op == "fdiv": return z3.fpDiv(rm, a, b)
            raise Unsupported(op)
        srt = a.sort()
        if op in ("fadd", "fmul") and a.get_id() > b.get_id() and s.vc.opts.get("commute", True):
            a, b = b, a     # IEEE addition and multiplication are commutative
        return z3.Function("%s_%s" % (op, t.k), srt, srt, srt)(a, b)

    def fcmp(s, pred, a, b):
        if pred == "true": return TRUE
        if pred == "false": return FALSE
        if s.vc.fpmode == "fp":
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
            if pred == "ord": return z3.Not(un)
            if pred == "uno": return un
            o = pred[1:]
            if pred[0] == "o":
                if o == "ne": return z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
                return base[o](a, b)
            if o == "ne": return z3.Not(z3.fpEQ(a, b))
            return z3.Or(un, base[o](a, b))
        srt = a.sort()
        def R(n, x, y): return z3.Function("f%s_%s" % (n, srt.name()), srt, srt, z3.BoolSort())(x, y)
        def eq(x, y):
            if x.get_id() > y.get_id(): x, y = y, x
            return R("oeq", x, y)
        nan = lambda x: z3.Function("fnan_%s" % srt.name(), srt, z3.BoolSort())(x)
        un = mk_or(nan(a), nan(b))
        if pred == "uno": return un if not a.eq(b) else nan(a)
        if pred == "ord": return mk_not(un)
        o = pred[1:]
        table = {"eq": lambda: eq(a, b), "lt": lambda: R("olt", a, b), "gt": lambda: R("olt", b, a),
                 "le": lambda: R("ole", a, b), "ge": lambda: R("ole", b, a)}
        if pred == "une": return mk_not(eq(a, b))
        if pred == "one": return mk_and(mk_not(un), mk_not(eq(a, b)))
        if pred[0] == "o": return table[o]()
        return mk_or(un, table[o]())

    def cast(s, op, t0, v, t1, reach, flags):
        a, b = s.mod.resolve(t0), s.mod.resolve(t1)
        if op in ("bitcast", "addrspacecast"):
            if a.k == b.k == "ptr": return v
            return s.conv(v, tykey(a, s.mod), b)
        if op == "ptrtoint": return IntPtr(v)
        if op == "inttoptr":
            if isinstance(v, IntPtr): return v.p
            if isnum(v) and v.as_long() == 0: return NULL
            raise Unsupported("inttoptr")
        if op in ("trunc", "zext", "sext"):
            if isinstance(v, IntPtr): raise Unsupported("cast of pointer bits")
            if op == "trunc":
                if b.n == 1: return cf(z3.Extract(0, 0, v), v) == bvc(1, 1) if s.is_b2i(v) is None else s.is_b2i(v)
                return cf(z3.Extract(b.n-1, 0, v), v)
            if a.n == 1:
                x = bvc(1 if op == "zext" else -1, b.n)
                return mk_ite(v, x, bvc(0, b.n))
            k = b.n - a.n
            return cf((z3.ZeroExt if op == "zext" else z3.SignExt)(k, v), v)
        vc = s.vc
        if vc.fpmode == "fp":
            if op in ("fptrunc", "fpext"): return z3.fpFPToFP(z3.RNE(), v, vc.fpsort(b.k))
            if op in ("sitofp", "uitofp"):
                if z3.is_bool(v): v = z3.If(v, bvc(1, 8), bvc(0, 8)); op = "uitofp" if op == "uitofp" else op
                return (z3.fpSignedToFP if op == "sitofp" else z3.fpUnsignedToFP)(z3.RNE(), v, vc.fpsort(b.k))
            if op in ("fptosi", "fptoui"):
                n = b.n
                # defined only when the truncated value is representable
                if n == 1: raise Unsupported("fp to i1")
                rt = z3.fpRoundToIntegral(z3.RTZ(), v)
                if op == "fptosi":
                    lo, hi = -(1 << (n-1)), (1 << (n-1))
                else: lo, hi = 0, 1 << n
                S = v.sort()
                ok = z3.And(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)),
                            z3.fpGEQ(rt, z3.fpRealToFP(z3.RNE(), z3.RealVal(lo), S)) if True else TRUE,
                            z3.fpLT(rt, z3.fpRealToFP(z3.RNE(), z3.RealVal(hi), S)))
                s.oblige_ub(reach, ok, "float to integer conversion out of range")
                return (z3.fpToSBV if op == "fptosi" else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(n))
        else:
            if z3.is_bool(v): v = z3.If(v, bvc(1, 8), bvc(0, 8))
            return z3.Function("%s_%s_%r" % (op, v.sort().name() if not z3.is_bv(v) else "i%d" % v.size(), b), v.sort(), vc.sort(b))(v)
        raise Unsupported("cast %s" % op)

    def is_b2i(s, v):
        """v is If(c,1,0): the boolean it came from"""
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and isnum(v.arg(1)) and isnum(v.arg(2)) \
                and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
            return v.arg(0)
        return None

    def icmp(s, pred, t, a, b):
        t = s.mod.resolve(t)
        if isinstance(a, IntPtr) or isinstance(b, IntPtr):
            if isinstance(a, IntPtr) and isinstance(b, IntPtr): return s.ptr_cmp(pred, a.p, b.p)
            raise Unsupported("icmp pointer bits")
        if t.k == "ptr": return s.ptr_cmp(pred, a, b)
        if t.n == 1:
            if pred == "eq": return s.binop("xor", t, s.binop("xor", t, a, b, (), TRUE), TRUE, (), TRUE)
            if pred == "ne": return s.binop("xor", t, a, b, (), TRUE)
            a = z3.If(a, bvc(1, 8), bvc(0, 8)); b = z3.If(b, bvc(1, 8), bvc(0, 8))
            if pred[0] == "s": a, b = -a, -b
        # (b ? 1 : 0) != 0  ->  b
        if pred in ("ne", "eq") and isnum(b) and b.as_long() == 0:
            x = a
            while z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT): x = x.arg(0)
            c = s.is_b2i(x)
            if c is not None: return c if pred == "ne" else mk_not(c)
            # (x * k) == 0 with k != 0 -- pointer difference tests: exact for our bounded lengths only, keep as is
        if a.eq(b): return z3.BoolVal(pred in ("eq", "ule", "uge", "sle", "sge"))
        f = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT,
             "uge": z3.UGE, "slt": lambda x, y: x < y, "sle": lambda x, y: x <= y, "sgt": lambda x, y: x > y,
             "sge": lambda x, y: x >= y}[pred]
        return cf(f(a, b), a, b)

    # ------------------------------------------------------------ calls
    def call(s, ins, reach):
        cal = ins.extra
        rt = ins.ty
        args = [(t, s.const(t, v) if t.k != "metadata" else None) for t, v in ins.a]
        if cal[0] == "g": name = cal[1]
        elif cal[0] == "l":
            p = s.env[cal[1]]
            fns = [(g, r) for g, r, i, o in p.alts if isinstance(r, str)]
            if len(p.alts) == 1 and fns: name = fns[0][1][3:]
            else: raise Unsupported("indirect call: %s" % ins.text)
        else: raise Unsupported("call %r" % (cal,))
        return s.call_named(name, rt, args, reach, ins)

    def call_named(s, name, rt, args, reach, ins):
        from . import contracts
        h = contracts.lookup(s.vc, name)
        if h is not None:
            return h(s, name, rt, args, reach, ins)
        if name in s.mod.funcs:
            if s.depth > 200: raise Unsupported("recursion: %s" % name)
            e = Exec(s.vc, name, [a for _, a in args], s.mem, reach, s.pure, s.prefix + name + "/", s.depth + 1)
            e.base_path = getattr(s, "curblock_path", ())
            e.outer_loops = s.active_loops()
            e.task = s.task
            if "fv_task_run" in name: e.task = s.start_task(args, e)
            rv, mem, rreach = e.run()
            s.mem = mem
            s.after_call_reach = rreach
            return rv
        raise Unsupported("call to %s (no contract)" % name)

    def errno_region(s):
        r = s.vc.regions.get("#errno")
        if r is None:
            r = Region("#errno", "cells"); r.size = 4; s.vc.regions["#errno"] = r
        if r.name not in s.mem.d: s.mem = s.mem.set(r, {0: (4, "i32", s.vc.fresh("errno", z3.BitVecSort(32)))})
        return r

    # ------------------------------------------------------------ tasks of the thread pool
    def active_loops(s):
        out = list(getattr(s, "outer_loops", []))
        chain, L = [], getattr(s, "cur_loop", None)
        while L: chain.append(s.loopstates[L.header]); L = L.parent
        return out + chain[::-1]

    def start_task(s, args, e):
        vc = s.vc
        mod = set()
        for st in e.outer_loops: mod |= vc.modsets.get(st["key"], set())
        # the function object and, if returned in memory, its result
        own = {r.name for a in args[:2] if isinstance(a[1], Ptr) for g, r, i, o in a[1].alts if r is not None and not isinstance(r, str)}
        vc.task_seen = True
        vc.task_zone |= {st["key"] for st in e.outer_loops}
        return {"mod": mod, "own": own, "regions": set(vc.regions), "footprints": list(vc.footprints), "number": vc.task_number(s)}

    def task_access(s, r, off, idx, reach, write=False):
        """access to r by a pool task: rules that make the result independent of the schedule"""
        t = s.task
        if t is None or s.pure or r.name not in t["regions"]: return
        vc = s.vc
        if r.kind == "cells":
            if r.name in t["own"] or r.const: return
            vc.task_reads.add((r.name, off))
            if (r.name, off) in t["mod"] or off is None:
                vc.oblige("task reads no variable that changes while it may run", "task", reach, FALSE, s.where())
        elif not r.const:
            (vc.task_writes if write else vc.task_reads).add((r.name, "[]"))
            if not write and (r.name, "[]") not in vc.task_writes: return       # nobody changes it: see main_access
            if r.name.startswith("vec#"):       # a vector made by the operation: a task may write the element with its own number
                vc.oblige("task touches only its own element of a vector: %s" % r.name, "task", reach, idx == t["number"], s.where()); return
            if not t["footprints"]: vc.oblige("task touches only elements of its own block: %s" % r.name, "task", reach, FALSE, s.where())
            for fn, ctx in t["footprints"]:
                e = Exec(vc, fn, [ctx, idx, t["number"]], s.mem, TRUE, pure=True)
                rv, _, _ = e.run()
                vc.oblige("task touches only elements of its own block: %s" % r.name, "task", reach, rv, s.where())

    def task_write_cells(s, r, off, reach):
        if s.task is not None and not s.pure and r.name in s.task["regions"] and r.name not in s.task["own"]:
            s.vc.oblige("task writes no shared variable", "task", reach, FALSE, s.where())
        s.main_access(r, off, reach, True)

    def main_access(s, r, off, reach, write):
        """access to r by the submitting thread, once tasks may be running: not to anything a task writes, no write to anything a task reads"""
        vc = s.vc
        if s.task is not None or s.pure or r.const: return
        if not (vc.task_seen or any(k in vc.task_zone for k in s.cur_path())): return
        k = (r.name, off)
        if k in vc.task_writes or (write and k in vc.task_reads):
            c = vc.joined(s)
            vc.oblige("nothing shared with tasks that may be running: %s" % r.name, "task", reach, c, s.where())

    # ------------------------------------------------------------ execution
    def run(s):
        f, vc = s.f, s.vc
        rpo, preds, loops = cfg_info(f)
        if loops and s.pure: raise Unsupported("loop in specification function %s" % f.name)
        bp = getattr(s, "base_path", ())
        edge = {}      # (pred, succ) -> (cond, mem)
        rets = []
        inloop = {b: None for b in rpo}
        for b in rpo:
            best = None
            for L in loops.values():
                if b in L.body and (best is None or len(L.body) < len(best.body)): best = L
            inloop[b] = best
        s.loopstates = {}
        for b in rpo:
            blk = f.blocks[b]
            path = list(bp); L = inloop[b]
            chain = []
            while L: chain.append(s.prefix + f.name + ":" + L.header); L = L.parent
            s.curblock_path = tuple(bp) + tuple(reversed(chain))
            s.cur_loop = inloop[b]
            if b == rpo[0]:
                reach, mem = s.reach0, s.mem0
                inc = None
            else:
                inc = [(p,) + edge[(p, b)] for p in dict.fromkeys(preds[b]) if (p, b) in edge]
                inc = [x for x in inc if not is_false(x[1])]
                if not inc: continue
                reach = mk_or(*[c for _, c, _ in inc])
                mem = s.merge_mem([(c, m) for _, c, m in inc])
            s.mem = mem
            phis = [i for i in blk.ins if i.op == "phi"]
            if b in loops:
                s.enter_loop(loops[b], blk, phis, inc, reach)
            else:
                vals = []
                for ph in phis:
                    v = None
                    src = {l: x for x, l in ph.a}
                    for p, c, m in reversed(inc):
                        x = s.const(ph.ty, src[p])
                        v = x if v is None else s.ite_val(c, x, v)
                    vals.append((ph.res, v))
                for r, v in vals: s.env[r] = v
            dead = False
            for ins in blk.ins[len(phis):]:
                s.cur_ins = ins
                op = ins.op
                if op in ("br", "switch"):
                    break
                if op == "ret":
                    rets.append((reach, s.const(*ins.a[0]) if ins.a else None, s.mem)); break
                if op == "unreachable":
                    if not dead and not s.pure:
                        vc.oblige("unreachable code reached", "unreachable", reach, FALSE, s.where())
                    break
                if op == "call" :
                    s.after_call_reach = None
                    v = s.call(ins, reach)
                    if isinstance(v, str) and v == "noreturn": dead = True; break
                    if ins.res: s.env[ins.res] = v
                    if s.after_call_reach is not None: reach = s.after_call_reach
                    continue
                s.step(ins, reach)
            if dead: continue
            t = blk.ins[-1]
            if t.op == "br":
                if not t.a: outs = [(t.extra[0], reach)]
                else:
                    c = s.const(*t.a[0])
                    if t.extra[0] == t.extra[1]: outs = [(t.extra[0], reach)]
                    else: outs = [(t.extra[0], mk_and(reach, c)), (t.extra[1], mk_and(reach, mk_not(c)))]
            elif t.op == "switch":
                v = s.const(*t.a[0])
                d, cases = t.extra
                m = {}; anyc = []
                for cv, l in cases:
                    c = s.icmp("eq", t.a[0][0], v, s.const(t.a[0][0], cv)); anyc.append(c)
                    m.setdefault(l, []).append(c)
                m.setdefault(d, []).append(mk_not(mk_or(*anyc)))
                outs = [(l, mk_and(reach, mk_or(*cs))) for l, cs in m.items()]
            else: outs = []
            for l, c in outs:
                if l in loops and b in loops[l].latches:
                    s.back_edge(loops[l], b, c)
                else:
                    if (b, l) in edge:
                        c0, m0 = edge[(b, l)]; c = mk_or(c0, c)
                    edge[(b, l)] = (c, s.mem)
        if not rets: return None, s.mem0, FALSE
        rv = None
        for c, v, m in reversed(rets):
            rv = v if rv is None else (s.ite_val(c, v, rv) if v is not None else None)
        return rv, s.merge_mem([(c, m) for c, _, m in rets]), mk_or(*[c for c, _, _ in rets])

    def merge_mem(s, lst):
        lst = [x for x in lst if not is_false(x[0])] or lst[:1]
        if len(lst) == 1: return lst[0][1]
        names = []
        for c, m in lst:
            for n in m.d:
                if n not in names: names.append(n)
        out = {}
        for n in names:
            cs = [m.d.get(n) for _, m in lst]
            if all(x is cs[0] for x in cs): out[n] = cs[0]; continue
            r = s.vc.regions[n]
            if r.kind == "array":
                offs = []
                for x in cs:
                    if x:
                        for o in x:
                            if o not in offs: offs.append(o)
                res = {}
                for o in offs:
                    ent = None
                    for (c, m), x in reversed(list(zip(lst, cs))):
                        e = (x or {}).get(o) or s.vc.first_fields[n][o]
                        if ent is None: ent = e
                        else:
                            ent = (ent[0], mk_ite(c, e[1], ent[1]))
                    res[o] = ent
                out[n] = res
            else:
                s.mem = lst[0][1]
                cs = [x if x is not None else (s.global_cells(r) if n.startswith("@") else None) for x in cs]
                live = [((c, m), x) for (c, m), x in zip(lst, cs) if x is not None]
                keys = None
                res = {}
                offs = []
                for _, x in live:
                    for o in x:
                        if o not in offs: offs.append(o)
                for o in offs:
                    if not all(o in x and x[o][0] == live[0][1].get(o, (None,))[0] for _, x in live):
                        # present on some paths only: keep it when nothing overlaps elsewhere (uninitialised there)
                        have = [((c, m), x) for (c, m), x in live if o in x]
                        e0 = have[0][1][o]
                        if any(o not in x and any(p < o + e0[0] and o < p + y[0] for p, y in x.items()) for _, x in live) \
                           or any(x[o][0] != e0[0] for _, x in have):
                            continue
                    else: have = live
                    ent = None
                    ok = True
                    for (c, m), x in reversed(have):
                        e = x[o]
                        if ent is None: ent = e
                        else:
                            try:
                                v = e[2] if e[1] == ent[1] else s.conv(e[2], e[1], s.key2ty(ent[1]))
                                ent = (ent[0], ent[1], s.ite_val(c, v, ent[2]))
                            except Unsupported:
                                ok = False; break
                    if ok: res[o] = ent
                out[n] = res
        return Mem(out)

    def step(s, ins, reach):
        op = ins.op
        E = s.env
        if op in BIN:
            a, b = s.const(*ins.a[0]), s.const(*ins.a[1])
            E[ins.res] = s.binop(op, ins.ty, a, b, ins.flags, reach)
        elif op == "fneg":
            a = s.const(*ins.a[0])
            E[ins.res] = z3.fpNeg(a) if s.vc.fpmode == "fp" else z3.Function("fneg_" + ins.ty.k, a.sort(), a.sort())(a)
        elif op in CAST:
            E[ins.res] = s.cast(op, ins.a[0][0], s.const(*ins.a[0]), ins.ty, reach, ins.flags)
        elif op == "icmp":
            E[ins.res] = s.icmp(ins.extra, ins.a[0][0], s.const(*ins.a[0]), s.const(*ins.a[1]))
        elif op == "fcmp":
            E[ins.res] = s.fcmp(ins.extra, s.const(*ins.a[0]), s.const(*ins.a[1]))
        elif op == "select":
            c = s.const(*ins.a[0])
            for pol, rc, cond, what, where in s.deferred.pop(ins.res, ()):
                s.vc.oblige("arithmetic: " + what, "ub", mk_and(rc, c if pol else mk_not(c)), cond, where)
            E[ins.res] = s.ite_val(c, s.const(*ins.a[1]), s.const(*ins.a[2]))
        elif op == "freeze":
            E[ins.res] = s.const(*ins.a[0])
        elif op == "alloca":
            n = s.const(Ty("int", n=64), ins.a[0])
            if not isnum(n) or n.as_long() != 1: raise Unsupported("dynamic alloca")
            nm = s.prefix + s.f.name + ":" + ins.res
            r = s.vc.regions.get(nm)
            if r is None:
                r = Region(nm, "cells"); r.alloca = True; r.size = s.mod.sizeof(ins.ty); s.vc.regions[nm] = r
            if r.name not in s.mem.d: s.mem = s.mem.set(r, {})
            E[ins.res] = Ptr.mk(r)
        elif op == "load":
            E[ins.res] = s.load(s.const(*ins.a[0]), ins.ty, reach)
        elif op == "store":
            s.store(s.const(*ins.a[1]), ins.a[0][0], s.const(*ins.a[0]), reach)
        elif op == "getelementptr":
            E[ins.res] = s.gep(ins.ty, [(t, s.const(t, v)) for t, v in ins.a])
        elif op == "extractvalue":
            v = s.const(*ins.a[0])
            for i in ins.extra: v = v[i]
            E[ins.res] = v
        elif op == "insertvalue":
            v = s.const(*ins.a[0])
            def put(v, idx, x):
                if not idx: return x
                v = list(v); v[idx[0]] = put(v[idx[0]], idx[1:], x); return v
            E[ins.res] = put(v, ins.extra, s.const(*ins.a[1]))
        elif op == "nop": pass
        else:
            raise Unsupported("instruction %s" % ins.text)

    # ------------------------------------------------------------ loops
    def havoc_like(s, base, v, t=None):
        """(new value, constraints?) of the same shape as v"""
        vc = s.vc
        if isinstance(v, Ptr):
            if len(v.alts) != 1:
                regs = {id(r) for g, r, i, o in v.alts}
                raise Unsupported("loop-carried pointer into several objects")
            g, r, i, o = v.alts[0]
            if r is None or isinstance(r, str): return v
            if r.kind == "array":
                return Ptr.mk(r, vc.fresh(base, BV64), o)
            return Ptr.mk(r, vc.fresh(base, BV64), o)
        if isinstance(v, IntPtr): return IntPtr(s.havoc_like(base, v.p))
        if isinstance(v, list): return [s.havoc_like(base, x) for x in v]
        return vc.fresh(base, v.sort())

    def enter_loop(s, L, blk, phis, inc, reach):
        vc = s.vc
        key = s.prefix + s.f.name + ":" + L.header
        entry = {}
        for ph in phis:
            src = {l: x for x, l in ph.a}
            v = None
            for p, c, m in reversed(inc):
                x = s.const(ph.ty, src[p])
                v = x if v is None else s.ite_val(c, x, v)
            entry[ph.res] = v
        st = {"entry_mem_": None, "key": key, "L": L, "entry": entry, "entry_mem": s.mem, "entry_reach": reach,
              "entry_seq": None, "phis": [p.res for p in phis], "phitys": {p.res: p.ty for p in phis},
              "backs": [], "exec": s, "path": s.curblock_path, "env_out": s.env}
        vc.seq += 1; st["entry_seq"] = vc.seq
        head = {}
        shapes = vc.ptr_shapes.get(key, {})
        for ph in phis:
            if ph.res in shapes:   # pointer that does not stay in one object: shape recorded by an earlier pass
                head[ph.res] = entry[ph.res]
            head[ph.res] = s.havoc_like("phi%s" % ph.res, entry[ph.res])
            s.env[ph.res] = head[ph.res]
        # memory the loop may write (fixpoint over passes)
        mod = vc.modsets.get(key, set())
        mem = s.mem
        hav = {}
        for (rn, off) in sorted(mod, key=str):
            if rn.startswith("@") and rn not in vc.regions: s.global_ptr(rn[1:])
            if rn == "#errno": s.mem = mem; s.errno_region(); mem = s.mem
            r = vc.regions.get(rn)
            if r is None: continue                                      # object created inside the loop
            c = mem.d.get(rn)
            if c is None:
                if not (rn.startswith("@") or rn.startswith("#")): continue     # object created inside the loop
                s.mem = mem
                if rn == "#errno": s.errno_region()
                c = s.content(r)
                mem = s.mem
                st["entry_mem"] = st["entry_mem"].set(r, c)
            if r.kind == "array":
                if off not in c:
                    s.mem = mem
                    s.array_field(r, off, s.key2ty(vc.field_types[(rn, off)]))
                    mem = s.mem
                    c = mem.d[rn]
                k, a = c[off]
                na = vc.fresh("%s+%d@" % (rn, off), a.sort())
                mem = mem.set(r, {**c, off: (k, na)})
                hav[(rn, off)] = na
            else:
                if off in c:
                    sz, k, v = c[off]
                    nv = s.havoc_like("%s+%d@" % (rn, off), v)
                    mem = mem.set(r, {**c, off: (sz, k, nv)})
                    hav[(rn, off)] = nv
        s.mem = mem
        # fields materialised just above belong to the entry state as well
        em = st["entry_mem"]
        for (rn, off) in mod:
            r = vc.regions.get(rn)
            if r is not None and r.kind == "array" and rn in em.d and off not in em.d[rn] and off in vc.first_fields.get(rn, {}):
                em = em.set(r, {**em.d[rn], off: vc.first_fields[rn][off]})
        st["entry_mem"] = em
        st.update(head=head, head_mem=mem, reach=reach, hav=hav, mod=mod)
        vc.seq += 1; st["head_seq"] = vc.seq
        s.loopstates[L.header] = st
        vc.loops.append(st)
        # parent loop states, outermost first
        par = []
        P = L.parent
        while P:
            par.append(s.loopstates[P.header]); P = P.parent
        st["parents"] = list(getattr(s, "outer_loops", [])) + par[::-1]

    def back_edge(s, L, latch, cond):
        st = s.loopstates[L.header]
        vals = {}
        for ph in [i for i in s.f.blocks[L.header].ins if i.op == "phi"]:
            for x, l in ph.a:
                if l == latch: vals[ph.res] = s.const(ph.ty, x)
        s.vc.seq += 1
        # loop-carried pointers must stay in the object they started in (checked here, statically)
        for n, v in vals.items():
            h = st["head"][n]
            if isinstance(h, IntPtr) and isinstance(v, IntPtr): h, v = h.p, v.p
            if isinstance(h, Ptr):
                r = h.alts[0][1]
                for g, r2, i2, o2 in v.alts:
                    if r2 is not r or o2 != h.alts[0][3]:
                        s.vc.oblige("loop-carried pointer stays in its object", "pointer", mk_and(cond, g), FALSE, s.where())
        st["backs"].append((cond, vals, s.mem, s.vc.seq))
