"""Integer back end: a bit-vector formula is translated to integer arithmetic with explicit ranges, products of variables
are treated as opaque terms constrained by ground instances of the laws of ordered rings (monotonicity, sign, and the
distribution laws among the products that occur).  What cannot be translated becomes an unconstrained variable, so an
"unsat" answer is an answer about the bit-vector formula; "sat" is not, and is never reported."""
import itertools, time
import z3

class Giveup(Exception): pass

class Num:
    """an integer with a known interval"""
    __slots__ = ("e", "lo", "hi")
    def __init__(s, e, lo, hi): s.e, s.lo, s.hi = e, lo, hi

def K(n): return Num(z3.IntVal(n), n, n)

class Enc:
    """Encodings are memoised.  A node [side constraints, nodes used, products] per memoised term says what a query that uses
    the term must also assert: side constraints are true of some extension of any bit-vector model."""
    def __init__(s):
        s.U, s.S, s.B, s.I, s.L = {}, {}, {}, {}, {}
        s.keep = []
        s.n = 0
        s.prod = {}             # (id,id) -> ((Num, Num, Num), node)
        s.top = [[], [], []]
        s.stack = [s.top]
        s.lawmemo = {}
        s.opaque = False        # something was translated to an unconstrained value

    def memo(s, table, key, t, fn):
        e = table.get(key)
        if e is None:
            s.keep.append(t)
            node = [[], [], []]
            s.stack.append(node)
            try: v = fn()
            finally: s.stack.pop()
            e = table[key] = (v, node)
        s.stack[-1][1].append(e[1])
        return e[0]
    def emit(s, *cs): s.stack[-1][0].extend(cs)

    def fresh(s, lo, hi, nm="i"):
        s.n += 1
        v = z3.Int("%s!%d" % (nm, s.n))
        if lo is not None: s.emit(v >= lo)
        if hi is not None: s.emit(v <= hi)
        return Num(v, lo, hi)

    # ---- arithmetic on Num
    def add(s, a, b): return Num(a.e + b.e, a.lo + b.lo, a.hi + b.hi)
    def sub(s, a, b): return Num(a.e - b.e, a.lo - b.hi, a.hi - b.lo)
    def mul(s, a, b):
        if a.lo == a.hi: return s.scale(b, a.lo)
        if b.lo == b.hi: return s.scale(a, b.lo)
        k = tuple(sorted((a.e.get_id(), b.e.get_id())))
        def new():
            c = [a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi]
            p = s.fresh(min(c), max(c), "prod")
            s.stack[-1][2].append((a, b, p))
            s.opaque = True
            return p
        return s.memo(s.prod, k, (a.e, b.e), new)
    def scale(s, a, c): return Num(a.e * c, min(a.lo*c, a.hi*c), max(a.lo*c, a.hi*c))
    def wrapU(s, x, w):
        """x mod 2^w"""
        M = 1 << w
        if x.lo >= 0 and x.hi < M: return x
        if x.lo >= 0 and x.hi < 2*M: 
            return Num(z3.If(x.e >= M, x.e - M, x.e), 0, M - 1)
        if x.lo >= -M and x.hi < M: return Num(z3.If(x.e < 0, x.e + M, x.e), 0, M - 1)
        q = s.fresh(x.lo // M, x.hi // M, "q"); r = s.fresh(0, M - 1, "r")
        s.emit(x.e == q.e * M + r.e)
        return r
    def wrapS(s, x, w):
        M, H = 1 << w, 1 << (w-1)
        if x.lo >= -H and x.hi < H: return x
        if x.lo >= -M - H and x.hi < M + H:
            return Num(z3.If(x.e >= H, x.e - M, z3.If(x.e < -H, x.e + M, x.e)), -H, H - 1)
        q = s.fresh((x.lo + H) // M, (x.hi + H) // M, "q"); r = s.fresh(-H, H - 1, "r")
        s.emit(x.e == q.e * M + r.e)
        return r

    # ---- terms
    def u(s, t): return s.memo(s.U, t.get_id(), t, lambda: s._u(t))
    def sg(s, t): return s.memo(s.S, t.get_id(), t, lambda: s._s(t))
    def b(s, f): return s.memo(s.B, f.get_id(), f, lambda: s._b(f))

    def var(s, t):
        """the variable behind an atomic term: unsigned view primary"""
        w = t.size()
        ch = t.children()
        if t.decl().kind() == z3.Z3_OP_SELECT: return s.select(ch[0], ch[1], 0, (1 << w) - 1, "u")
        if ch:
            if t.decl().kind() != z3.Z3_OP_UNINTERPRETED: s.opaque = True
            return s.ranged(s.app(t, z3.IntSort()), 0, (1 << w) - 1)
        return s.fresh(0, (1 << w) - 1, "u")

    # ---- uninterpreted functions, arrays, other sorts: congruence
    def ranged(s, e, lo, hi):
        if lo is not None: s.emit(e >= lo, e <= hi)
        return Num(e, lo, hi)
    def ident(s, t):
        """identity of a term of any sort, as an integer"""
        if z3.is_bv(t): return s.u(t).e
        if z3.is_bool(t): return z3.If(s.b(t), z3.IntVal(1), z3.IntVal(0))
        return s.memo(s.I, t.get_id(), t, lambda: s._ident(t))
    def _ident(s, t):
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_ITE:
            r = s.fresh(None, None, "ite").e
            s.emit(r == z3.If(s.b(ch[0]), s.ident(ch[1]), s.ident(ch[2])))
            return r
        if k == z3.Z3_OP_SELECT: return s.select(ch[0], ch[1], None, None, "id").e
        if ch and not z3.is_array(t): return s.app(t, z3.IntSort())
        return s.fresh(None, None, "id").e
    def app(s, t, rng):
        d = t.decl()
        args = [s.ident(c) for c in t.children()]
        nm = "%s|%s|%s" % (d.name(), d.kind(), ",".join(str(p) for p in d.params())) + "|" + ",".join(str(c.sort()) for c in t.children())
        return z3.Function(nm, *([z3.IntSort()] * len(args) + [rng]))(*args)
    def select(s, a, j, lo, hi, tag): return s.memo(s.L, (a.get_id(), j.get_id(), tag), (a, j), lambda: s._select(a, j, lo, hi, tag))
    def _select(s, a, j, lo, hi, tag):
        k = a.decl().kind(); ch = a.children()
        def f(v): return s.u(v) if tag == "u" else Num(s.ident(v), lo, hi)
        if k == z3.Z3_OP_STORE:
            x, y = f(ch[2]), s.select(ch[0], j, lo, hi, tag)
            v = s.fresh(lo, hi, "sel")
            s.emit(v.e == z3.If(s.u(ch[1]).e == s.u(j).e, x.e, y.e))
            return v
        if k == z3.Z3_OP_ITE:
            x, y = s.select(ch[1], j, lo, hi, tag), s.select(ch[2], j, lo, hi, tag)
            v = s.fresh(lo, hi, "sel")
            s.emit(v.e == z3.If(s.b(ch[0]), x.e, y.e))
            return v
        if k == z3.Z3_OP_CONST_ARRAY: return f(ch[0])
        F = z3.Function("arr!%d" % a.get_id(), z3.IntSort(), z3.IntSort())
        return s.ranged(F(s.u(j).e), lo, hi)

    def _u(s, t):
        w = t.size(); k = t.decl().kind(); M = 1 << w
        if z3.is_bv_value(t): return K(t.as_long())
        ch = t.children()
        if k == z3.Z3_OP_ITE: return s.ite(t, s.u)
        if k == z3.Z3_OP_ZERO_EXT: return s.u(ch[0])
        if k == z3.Z3_OP_CONCAT and len(ch) == 2 and z3.is_bv_value(ch[0]) and ch[0].as_long() == 0: return s.u(ch[1])
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            if lo == 0:
                x = s.u(ch[0])
                return s.wrapU(x, w)
            x = s.u(ch[0])
            q = s.fresh(0, x.hi >> lo, "sh"); r = s.fresh(0, (1 << lo) - 1, "lo")
            s.emit(x.e == q.e * (1 << lo) + r.e)
            return s.wrapU(q, w)
        if k == z3.Z3_OP_BADD: 
            x = s.u(ch[0])
            for c in ch[1:]:
                # a constant close to 2^w is a subtraction
                if z3.is_bv_value(c) and c.as_long() >= M//2: x = s.wrapU(s.add(x, K(c.as_long() - M)), w)
                else: x = s.wrapU(s.add(x, s.u(c)), w)
            return x
        if k == z3.Z3_OP_BSUB: return s.wrapU(s.sub(s.u(ch[0]), s.u(ch[1])), w)
        if k == z3.Z3_OP_BNEG: return s.wrapU(s.sub(K(0), s.u(ch[0])), w)
        if k == z3.Z3_OP_BNOT: return s.sub(K(M - 1), s.u(ch[0]))
        if k == z3.Z3_OP_BMUL:
            if s.prefer_signed(t): return s.wrapU(s.sg(t), w)
            x = s.u(ch[0])
            for c in ch[1:]:
                if z3.is_bv_value(c) and c.as_long() >= M//2: x = s.wrapU(s.scale(x, c.as_long() - M), w)
                else: x = s.wrapU(s.mul(x, s.u(c)), w)
            return x
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            q, r = s.udivrem(ch[0], ch[1])
            return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < w: return s.wrapU(s.scale(s.u(ch[0]), 1 << ch[1].as_long()), w)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            n = ch[1].as_long(); x = s.u(ch[0])
            q = s.fresh(0, x.hi >> n, "sh"); r = s.fresh(0, (1 << n) - 1, "lo")
            s.emit(x.e == q.e * (1 << n) + r.e)
            return q
        if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I): return s.wrapU(s.sg(t), w)
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and len(ch) == 2:
            x, y = s.u(ch[0]), s.u(ch[1])
            if x.hi <= 1 and y.hi <= 1:
                p, q = x.e == 1, y.e == 1
                return Num(z3.If(z3.And(p, q) if k == z3.Z3_OP_BAND else z3.Or(p, q) if k == z3.Z3_OP_BOR else z3.Xor(p, q), z3.IntVal(1), z3.IntVal(0)), 0, 1)
            for a, b, tb in ((x, y, ch[1]), (y, x, ch[0])):
                if k == z3.Z3_OP_BAND and z3.is_bv_value(tb) and (tb.as_long() & (tb.as_long() + 1)) == 0:
                    return s.wrapU(a, tb.as_long().bit_length())
                if k == z3.Z3_OP_BOR and s.lowzeros(tb) >= a.hi.bit_length(): return s.add(a, b)
        return s.var(t)

    def lowzeros(s, t):
        k = t.decl().kind()
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.children()[1]): return t.children()[1].as_long()
        if z3.is_bv_value(t): 
            v = t.as_long(); return t.size() if v == 0 else (v & -v).bit_length() - 1
        return 0

    def prefer_signed(s, t):
        return any(c.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) for c in t.children())

    def _s(s, t):
        w = t.size(); k = t.decl().kind(); M, H = 1 << w, 1 << (w-1)
        if z3.is_bv_value(t): return K(t.as_signed_long())
        ch = t.children()
        if k == z3.Z3_OP_ITE: return s.ite(t, s.sg)
        if k == z3.Z3_OP_SIGN_EXT: return s.sg(ch[0])
        if k == z3.Z3_OP_BMUL and s.prefer_signed(t):
            x = s.sg(ch[0])
            for c in ch[1:]: x = s.wrapS(s.mul(x, s.sg(c)), w)
            return x
        if k == z3.Z3_OP_BADD:
            x = s.sg(ch[0])
            for c in ch[1:]: x = s.wrapS(s.add(x, s.sg(c)), w)
            return x
        if k == z3.Z3_OP_BSUB: return s.wrapS(s.sub(s.sg(ch[0]), s.sg(ch[1])), w)
        if k == z3.Z3_OP_BNEG: return s.wrapS(s.sub(K(0), s.sg(ch[0])), w)
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            q, r = s.sdivrem(ch[0], ch[1])
            return s.wrapS(q, w) if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else r
        if k == z3.Z3_OP_EXTRACT and t.params()[1] == 0 and s.signedish(ch[0]): return s.wrapS(s.sg(ch[0]), w)
        return s.wrapS(s.u(t), w)

    def signedish(s, t):
        return t.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) or (t.decl().kind() == z3.Z3_OP_BMUL and s.prefer_signed(t))

    def ite(s, t, f):
        c, a, b = t.children()
        x, y = f(a), f(b)
        # name it: products and quotients must stay over shared atoms
        v = s.fresh(min(x.lo, y.lo), max(x.hi, y.hi), "ite")
        s.emit(v.e == z3.If(s.b(c), x.e, y.e))
        return v

    def udivrem(s, ta, tb):
        return s.memo(s.U, ("u", ta.get_id(), tb.get_id()), (ta, tb), lambda: s._udivrem(ta, tb))
    def _udivrem(s, ta, tb):
        a, b = s.u(ta), s.u(tb); w = ta.size()
        q = s.fresh(0, (1 << w) - 1, "quo"); r = s.fresh(0, a.hi, "rem")
        p = s.mul(q, b)
        s.emit(z3.Implies(b.e > 0, z3.And(a.e == p.e + r.e, r.e < b.e, q.e <= a.e)))
        s.emit(z3.Implies(b.e == 0, z3.And(q.e == (1 << w) - 1, r.e == a.e)))
        return q, r

    def sdivrem(s, ta, tb):
        return s.memo(s.S, ("s", ta.get_id(), tb.get_id()), (ta, tb), lambda: s._sdivrem(ta, tb))
    def _sdivrem(s, ta, tb):
        a, b = s.sg(ta), s.sg(tb); w = ta.size(); H = 1 << (w-1)
        q = s.fresh(-H, H, "quo"); r = s.fresh(-H, H, "rem")
        p = s.mul(q, b)
        ab = z3.If(b.e < 0, -b.e, b.e)
        s.emit(z3.Implies(b.e != 0, z3.And(a.e == p.e + r.e, r.e < ab, -r.e < ab, z3.Implies(a.e >= 0, r.e >= 0), z3.Implies(a.e <= 0, r.e <= 0))))
        s.emit(z3.Implies(b.e == 0, z3.And(q.e == z3.If(a.e >= 0, -1, 1), r.e == a.e)))
        return q, r

    # ---- formulas
    def _b(s, f):
        k = f.decl().kind(); ch = f.children()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return f
        if k == z3.Z3_OP_AND: return z3.And(*[s.b(c) for c in ch])
        if k == z3.Z3_OP_OR: return z3.Or(*[s.b(c) for c in ch])
        if k == z3.Z3_OP_NOT: return z3.Not(s.b(ch[0]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.b(ch[0]), s.b(ch[1]))
        if k == z3.Z3_OP_XOR: return z3.Xor(s.b(ch[0]), s.b(ch[1]))
        if k == z3.Z3_OP_ITE: return z3.If(*[s.b(c) for c in ch])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bool(ch[0]): e = s.b(ch[0]) == s.b(ch[1])
            elif z3.is_bv(ch[0]):
                if any(s.signedish(c) or (c.decl().kind() == z3.Z3_OP_BADD and any(s.signedish(d) for d in c.children())) for c in ch): e = s.sg(ch[0]).e == s.sg(ch[1]).e
                else: e = s.u(ch[0]).e == s.u(ch[1]).e
            elif z3.is_array(ch[0]): return z3.FreshConst(z3.BoolSort(), "p")
            else: e = s.ident(ch[0]) == s.ident(ch[1])
            return z3.Not(e) if k == z3.Z3_OP_DISTINCT else e
        cmp = {z3.Z3_OP_ULEQ: (s.u, "<="), z3.Z3_OP_ULT: (s.u, "<"), z3.Z3_OP_UGEQ: (s.u, ">="), z3.Z3_OP_UGT: (s.u, ">"),
               z3.Z3_OP_SLEQ: (s.sg, "<="), z3.Z3_OP_SLT: (s.sg, "<"), z3.Z3_OP_SGEQ: (s.sg, ">="), z3.Z3_OP_SGT: (s.sg, ">")}
        if k in cmp:
            g, o = cmp[k]
            x, y = g(ch[0]).e, g(ch[1]).e
            return x <= y if o == "<=" else x < y if o == "<" else x >= y if o == ">=" else x > y
        if k == z3.Z3_OP_SELECT: return s.select(ch[0], ch[1], 0, 1, "id").e == 1
        if ch and k not in (z3.Z3_OP_DISTINCT, z3.Z3_OP_EQ):
            if k != z3.Z3_OP_UNINTERPRETED: s.opaque = True
            return s.app(f, z3.BoolSort())
        if ch: s.opaque = True
        return z3.FreshConst(z3.BoolSort(), "p")

    def laws(s, ps):
        """ground instances of ring laws over the products that occur"""
        out = []
        for t in ps:
            k = t[2].e.get_id()
            if k not in s.lawmemo: s.lawmemo[k] = s.laws1(*t)
            out += s.lawmemo[k]
        for t, t2 in itertools.combinations(ps, 2):
            k = (t[2].e.get_id(), t2[2].e.get_id())
            if k[1] < k[0]: t, t2, k = t2, t, (k[1], k[0])
            if k not in s.lawmemo: s.lawmemo[k] = s.laws2(*t, *t2)
            out += s.lawmemo[k]
        return out

    def laws1(s, a, b, p):
        out = []
        for x, y in ((a, b), (b, a)):
            out.append(z3.Implies(x.e == 0, p.e == 0))
            out.append(z3.Implies(x.e == 1, p.e == y.e))
            if x.lo < 0: out.append(z3.Implies(x.e == -1, p.e == -y.e))
            # p >= y when x >= 1 and y >= 0 ...
            out.append(z3.Implies(z3.And(x.e >= 1, y.e >= 0), p.e >= y.e))
        if a.lo < 0 or b.lo < 0:
            out.append(z3.Implies(z3.And(a.e >= 0, b.e >= 0), p.e >= 0))
            out.append(z3.Implies(z3.And(a.e <= 0, b.e <= 0), p.e >= 0))
            out.append(z3.Implies(z3.And(a.e >= 0, b.e <= 0), p.e <= 0))
            out.append(z3.Implies(z3.And(a.e <= 0, b.e >= 0), p.e <= 0))
        return out

    def laws2(s, a, b, p, c, d, q):
        out = []
        signed = any(x.lo < 0 for x in (a, b, c, d))
        for x, y in ((a, b), (b, a)):
            for u, v in ((c, d), (d, c)):
                # x*y = p and u*v = q; y == +-v: compare x and +-u
                if min(y.hi, v.hi) < max(y.lo, v.lo) and (not signed or min(-y.lo, v.hi) < max(-y.hi, v.lo)): continue
                def mono(X, U, P, Q, V):
                    # P = X*V, Q = U*V
                    return [z3.Implies(z3.And(X == U), P == Q), z3.Implies(X + 1 == U, P + V == Q), z3.Implies(X == U + 1, P == Q + V),
                            z3.Implies(z3.And(X < U, V > 0), P + V <= Q), z3.Implies(z3.And(X > U, V > 0), P >= Q + V)] + ([
                            z3.Implies(z3.And(X < U, V < 0), P + V >= Q), z3.Implies(z3.And(X > U, V < 0), P <= Q + V)] if signed else [])
                cases = [(y.e == v.e, mono(x.e, u.e, p.e, q.e, v.e) + (mono(-x.e, u.e, -p.e, q.e, v.e) if signed else []))]
                if signed: cases.append((y.e == -v.e, mono(-x.e, u.e, p.e, q.e, v.e) + mono(x.e, u.e, p.e, -q.e, y.e)))
                for g, L in cases:
                    gg = z3.simplify(g)
                    if z3.is_false(gg): continue
                    out += L if z3.is_true(gg) else [z3.Implies(g, l) for l in L]
        return out

    def closure(s, nodes):
        """side constraints and products of everything used"""
        seen, side, prods, st = set(), [], {}, list(nodes)
        while st:
            n = st.pop()
            if id(n) in seen: continue
            seen.add(id(n))
            side += n[0]
            for p in n[2]: prods[p[2].e.get_id()] = p
            st += n[1]
        return side, list(prods.values())

    def solver(s, fs, timeout):
        """a solver with the encoding of fs"""
        gs = [s.b(f) for f in fs]
        side, ps = s.closure([s.B[f.get_id()][1] for f in fs])
        s.top[1].clear()
        sol = z3.Solver()
        sol.set("timeout", int(timeout*1000))
        sol.add(*gs); sol.add(*side)
        if ps: sol.add(*s.laws(ps))
        return sol

PROD = (z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I)

def has_products(fs, cache, keep):
    """is there a product or quotient with a non-constant factor?  (answers cached per formula)"""
    res = False
    for f in fs:
        i = f.get_id()
        r = cache.get(i)
        if r is None:
            r = cache[i] = _has_product(f, cache)
            keep.append(f)
        if r: res = True
    return res

def _has_product(f, cache):
    ctx = f.ctx; ref = ctx.ref()
    loc, st = set(), [f.as_ast()]
    while st:
        x = st.pop()
        j = z3.Z3_get_ast_id(ref, x)
        if j in loc: continue
        loc.add(j)
        c = cache.get(j)
        if c is True: return True
        if c is False: continue
        if z3.Z3_get_ast_kind(ref, x) != z3.Z3_APP_AST: continue
        app = z3.Z3_to_app(ref, x)
        n = z3.Z3_get_app_num_args(ref, app)
        if not n: continue
        if z3.Z3_get_decl_kind(ref, z3.Z3_get_app_decl(ref, app)) in PROD:
            e = z3.z3._to_expr_ref(x, ctx)
            if sum(not z3.is_bv_value(k) for k in e.children()) >= 1 and e.size() > 8: return True
        for k in range(n): st.append(z3.Z3_get_app_arg(ref, app, k))
    return False

def prove(fs, timeout, enc=None):
    """True when the conjunction of fs is unsatisfiable for sure"""
    try: return (enc or Enc()).solver(fs, timeout).check() == z3.unsat
    except (Giveup, RecursionError): return False
