"""Contracts of everything that is called but not defined in the translated module.

 * fv_*      the specification primitives of specs/fv.h
 * fvp_*     uninterpreted pure functions (stand for *any* operation / policy / layout)
 * llvm.*    compiler intrinsics
 * libm      correctly-rounded operations are exact; the others are uninterpreted (trusted: pure functions)
"""
import re
import z3
from .ir import *
from .sym import *

TABLE = []
def contract(pat):
    rx = re.compile(pat + r"\Z")
    def deco(f):
        TABLE.append((rx, f)); return f
    return deco

_cache = {}
def lookup(vc, name):
    if name in _cache: return _cache[name]
    r = None
    for rx, f in TABLE:
        if rx.match(name): r = f; break
    _cache[name] = r
    return r

def cstr(ex, p):
    g, r, i, o = p.single()
    cells = ex.content(r)
    out = []
    while True:
        c = cells[o][2].as_long()
        if c == 0: return bytes(out).decode()
        out.append(c); o += 1

# ------------------------------------------------------------------ spec primitives
@contract(r"fv_assume")
def _(ex, n, rt, a, reach, ins):
    ex.vc.fact(mk_implies(reach, a[0][1])); return None

@contract(r"fv_assert")
def _(ex, n, rt, a, reach, ins):
    if ex.pure: return None
    ex.vc.oblige(cstr(ex, a[1][1]), "assert", reach, a[0][1]); return None

@contract(r"fv_same_f(32|64)")
def _(ex, n, rt, a, reach, ins):
    return a[0][1] == a[1][1]

@contract(r"fv_cover")
def _(ex, n, rt, a, reach, ins):
    ex.vc.covers.append((cstr(ex, a[0][1]), reach, ex.vc.seq)); return None

@contract(r"fv_any_(u8|u16|u32|u64|i8|i16|i32|i64|f32|f64|b)")
def _(ex, n, rt, a, reach, ins):
    nm = cstr(ex, a[0][1])
    v = ex.vc.fresh("any." + nm, ex.vc.sort(rt))
    ex.vc.anys.append((nm, n[7:], v))
    return v

@contract(r"fv_index_")
def _(ex, n, rt, a, reach, ins):
    nm = cstr(ex, a[0][1])
    v = ex.vc.fresh("index." + nm, BV64)
    ex.vc.anys.append((nm, "index", v))
    ex.vc.fact(mk_implies(reach, z3.ULT(v, a[1][1])))
    ex.vc.skolems.append(v); ex.vc.term(v)
    return v

@contract(r"fv_term")
def _(ex, n, rt, a, reach, ins):
    ex.vc.term(a[0][1]); return None

def new_array(ex, nm, length, elem, alias=None):
    vc = ex.vc
    c = vc.fresh_ct.get("region." + nm, 0); vc.fresh_ct["region." + nm] = c + 1
    rn = "%s#%d" % (nm, c)
    r = Region(rn, "array", elem=elem, length=length)
    r.alias = alias or rn
    vc.regions[rn] = r
    ex.mem = ex.mem.set(r, {})
    return r

@contract(r"fv_array_")
def _(ex, n, rt, a, reach, ins):
    nm = cstr(ex, a[0][1])
    ln, el = a[1][1], a[2][1].as_long()
    r = new_array(ex, nm, ln, el)
    ex.vc.arrays.append((nm, r))
    # allocation: at most 2^40 elements, so that no index arithmetic wraps
    ex.vc.fact(z3.ULE(ln, bvc(1 << 40, 64)))
    return Ptr.mk(r, bvc(0, 64), 0)

@contract(r"fv_snapshot_")
def _(ex, n, rt, a, reach, ins):
    p = a[0][1].single()
    r0 = p[1]
    r = new_array(ex, r0.name + ".old", r0.length, r0.elem, alias=r0.alias)
    r.const = True
    ex.mem = ex.mem.set(r, ex.content(r0))
    return Ptr.mk(r, p[2], p[3])

@contract(r"fv_readonly_")
def _(ex, n, rt, a, reach, ins):
    a[0][1].single()[1].const = True; return None

@contract(r"fv_inv_")
def _(ex, n, rt, a, reach, ins):
    fn = a[0][1].single()[1][3:]
    ex.vc.templates.append(("inv", fn, a[1][1], a[2][1].as_long(), ex.vc.seq)); return None

@contract(r"fv_footprint_")
def _(ex, n, rt, a, reach, ins):
    ex.vc.footprints.append((a[0][1].single()[1][3:], a[1][1])); return None

@contract(r"fv_phi_")
def _(ex, n, rt, a, reach, ins):
    fn = a[0][1].single()[1][3:]
    ex.vc.templates.append(("phi", fn, a[1][1], a[2][1].as_long(), ex.vc.seq)); return None

@contract(r"fv_axiom_")
def _(ex, n, rt, a, reach, ins):
    fn = a[0][1].single()[1][3:]
    ex.vc.axioms.append((fn, a[1][1], a[2][1].as_long(), cstr(ex, a[3][1]), ex.mem)); return None

@contract(r"fvp_.*")
def _(ex, n, rt, a, reach, ins):
    args = [v for _, v in a]
    for v in args:
        if isinstance(v, (Ptr, IntPtr)): raise Unsupported("pointer argument of pure function")
    vc = ex.vc
    if not ex.pure or vc.opts.get("record_pure"): vc.purecalls.setdefault(n, []).append(tuple(args))
    vc.purefns.setdefault(n, []).append(tuple(args))
    srts = [v.sort() for v in args] + [vc.sort(rt)]
    return z3.Function(n, *srts)(*args)

@contract(r"fv_unreachable")
def _(ex, n, rt, a, reach, ins):
    if not ex.pure: ex.vc.oblige("code that must not be reached", "assert", reach, FALSE, ex.where())
    return "noreturn"

# ------------------------------------------------------------------ abort-like
@contract(r"__assert_fail|abort|_ZSt9terminatev|__clang_call_terminate|_ZSt\d+__throw_.*|__cxa_throw|__cxa_rethrow|_ZN5boost15throw_exception.*|__cxa_pure_virtual|_ZSt21__glibcxx_assert_fail.*|__cxa_throw_bad_array_new_length")
def _(ex, n, rt, a, reach, ins):
    what = n
    if n == "__assert_fail":
        try: what = "assert(%s)" % cstr(ex, a[0][1])
        except Exception: pass
    if not ex.pure: ex.vc.oblige("no abort: " + what, "abort", reach, FALSE, ex.where())
    return "noreturn"

# ------------------------------------------------------------------ intrinsics
@contract(r"llvm\.(lifetime\.(start|end)|dbg\.|invariant\.|experimental\.noalias|donothing|stacksave|stackrestore|prefetch|var\.annotation|sideeffect).*")
def _(ex, n, rt, a, reach, ins): return None

@contract(r"llvm\.assume")
def _(ex, n, rt, a, reach, ins):
    if not ex.pure: ex.vc.oblige("llvm.assume", "ub", reach, a[0][1], ex.where())
    return None

@contract(r"llvm\.mem(cpy|move)\..*|memcpy|memmove")
def _(ex, n, rt, a, reach, ins):
    ex.memcpy(a[0][1], a[1][1], a[2][1], reach); return a[0][1]

@contract(r"llvm\.memset\..*|memset")
def _(ex, n, rt, a, reach, ins):
    v = a[1][1]
    if v.size() > 8: v = cf(z3.Extract(7, 0, v), v)
    ex.memset(a[0][1], v, a[2][1], reach); return a[0][1]

@contract(r"llvm\.expect\..*")
def _(ex, n, rt, a, reach, ins): return a[0][1]

@contract(r"llvm\.is\.constant\..*")
def _(ex, n, rt, a, reach, ins): return FALSE

@contract(r"llvm\.objectsize\..*")
def _(ex, n, rt, a, reach, ins): return bvc(-1, 64)

@contract(r"llvm\.(umin|umax|smin|smax)\..*")
def _(ex, n, rt, a, reach, ins):
    x, y = a[0][1], a[1][1]
    k = n.split(".")[1]
    c = {"umin": z3.ULE(x, y), "umax": z3.UGE(x, y), "smin": x <= y, "smax": x >= y}[k]
    return mk_ite(cf(c, x, y), x, y)

@contract(r"llvm\.abs\..*")
def _(ex, n, rt, a, reach, ins):
    x = a[0][1]
    if is_true(a[1][1]): ex.oblige_ub(reach, x != bvc(1 << (x.size()-1), x.size()), "signed overflow in abs")
    return z3.If(x < 0, -x, x)

@contract(r"abs|labs|llabs")
def _(ex, n, rt, a, reach, ins):
    x = a[0][1]
    ex.oblige_ub(reach, x != bvc(1 << (x.size()-1), x.size()), "signed overflow in abs")
    return z3.If(x < 0, -x, x)

@contract(r"llvm\.ctpop\..*")
def _(ex, n, rt, a, reach, ins):
    x = a[0][1]; w = x.size()
    r = bvc(0, w)
    for i in range(w): r = r + z3.ZeroExt(w-1, z3.Extract(i, i, x))
    return cf(r, x)

@contract(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\..*")
def _(ex, n, rt, a, reach, ins):
    m = re.match(r"llvm\.(u|s)(add|sub|mul)", n)
    sg = m.group(1) == "s"
    x, y = a[0][1], a[1][1]
    w = x.size()
    E = (lambda v: z3.SignExt(w, v)) if sg else (lambda v: z3.ZeroExt(w, v))
    op = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p*q}[m.group(2)]
    full = op(E(x), E(y))
    r = z3.Extract(w-1, 0, full)
    return [r, E(r) != full]

@contract(r"llvm\.fabs\.f(32|64|80)|fabsf?|fabsl")
def _(ex, n, rt, a, reach, ins):
    x = a[0][1]
    return z3.fpAbs(x) if ex.vc.fpmode == "fp" else z3.Function("fabs_%s" % x.sort().name(), x.sort(), x.sort())(x)

@contract(r"llvm\.(sqrt)\.f(32|64)|sqrtf?")
def _(ex, n, rt, a, reach, ins):
    x = a[0][1]
    ex.vc.trusted.add("sqrt (IEEE correctly rounded)")
    if ex.vc.fpmode == "fp" and ex.vc.opts.get("sqrt", "uf") == "exact": return z3.fpSqrt(z3.RNE(), x)
    return z3.Function("libm_sqrt_%d" % (32 if n.endswith("32") or n.endswith("f") else 64), x.sort(), x.sort())(x)

@contract(r"llvm\.fmuladd\.f(32|64)")
def _(ex, n, rt, a, reach, ins):
    x, y, z = [v for _, v in a]
    t = rt
    return ex.fbin("fadd", t, ex.fbin("fmul", t, x, y), z)

@contract(r"llvm\.(floor|ceil|trunc|round|rint|nearbyint|roundeven)\.f(32|64|80)|(floor|ceil|trunc|round|rint|nearbyint)[fl]?")
def _(ex, n, rt, a, reach, ins):
    x = a[0][1]
    m = re.search(r"(floor|ceil|trunc|roundeven|round|rint|nearbyint)", n).group(1)
    if ex.vc.fpmode == "fp":
        rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA(), "rint": z3.RNE(),
              "nearbyint": z3.RNE(), "roundeven": z3.RNE()}[m]
        return z3.fpRoundToIntegral(rm, x)
    return z3.Function("libm_%s_%s" % (m, x.sort().name()), x.sort(), x.sort())(x)

@contract(r"llvm\.(minnum|maxnum|copysign)\.f(32|64)|(fmin|fmax|copysign)f?")
def _(ex, n, rt, a, reach, ins):
    x, y = a[0][1], a[1][1]
    if ex.vc.fpmode == "fp":
        if "min" in n: return z3.fpMin(x, y)
        if "max" in n: return z3.fpMax(x, y)
    m = re.search(r"(min|max|copysign)", n).group(1)
    return z3.Function("libm_%s_%s" % (m, x.sort().name()), x.sort(), x.sort(), x.sort())(x, y)

@contract(r"llvm\.is\.fpclass\.f(32|64|80)")
def _(ex, n, rt, a, reach, ins):
    x, mask = a[0][1], a[1][1].as_long()
    vc = ex.vc
    if vc.fpmode == "fp":
        neg = z3.fpIsNegative(x)
        pos = z3.And(z3.Not(neg), z3.Not(z3.fpIsNaN(x)))
        neg = z3.And(neg, z3.Not(z3.fpIsNaN(x)))
        cls = []
        if mask & 3: cls.append(z3.fpIsNaN(x))
        for bit, sgn, c in ((4, neg, z3.fpIsInf), (8, neg, z3.fpIsNormal), (16, neg, z3.fpIsSubnormal), (32, neg, z3.fpIsZero),
                            (64, pos, z3.fpIsZero), (128, pos, z3.fpIsSubnormal), (256, pos, z3.fpIsNormal), (512, pos, z3.fpIsInf)):
            if mask & bit: cls.append(z3.And(sgn, c(x)))
        return z3.Or(*cls)
    if mask == 3: return z3.Function("fnan_%s" % x.sort().name(), x.sort(), z3.BoolSort())(x)
    return z3.Function("fpclass%d_%s" % (mask, x.sort().name()), x.sort(), z3.BoolSort())(x)

@contract(r"tgamma")
def _(ex, n, rt, a, reach, ins):
    x = a[0][1]
    r = z3.Function("libm_tgamma_%s" % str(x.sort()).replace(" ", ""), x.sort(), ex.vc.sort(rt))(x)
    ex.vc.trusted.add("libm tgamma (uninterpreted; tgamma(n + 1) == n! for n <= 20 after rounding, and larger than 2e19 beyond 21)")
    if ex.vc.fpmode == "fp":
        import math
        rnd = z3.fpRoundToIntegral(z3.RNA(), r)
        if z3.is_fprm_value(x) or z3.is_fp_value(x):
            for k in range(0, 21): ex.vc.fact(z3.Implies(x == z3.FPVal(float(k + 1), x.sort()), rnd == z3.FPVal(float(math.factorial(k)), x.sort())))
        ex.vc.fact(z3.Implies(z3.fpGEQ(x, z3.FPVal(22.0, x.sort())), z3.fpGEQ(r, z3.FPVal(5e19, x.sort()))))
    return r

# libm functions that are not correctly rounded: uninterpreted pure functions (trusted)
@contract(r"(exp|exp2|log|log2|log10|log1p|pow|sin|cos|tan|asin|acos|atan|atan2|sinh|cosh|tanh|tgamma|lgamma|fmod|remainder|hypot|cbrt)[fl]?|llvm\.(exp|exp2|log|log2|log10|pow|sin|cos|powi)\..*")
def _(ex, n, rt, a, reach, ins):
    nm = n.replace("llvm.", "").split(".")[0]
    args = [v for _, v in a]
    nm = re.sub(r"[fl]$", "", nm) if re.match(r".*[fl]$", nm) and nm not in ("ceil",) else nm
    ex.vc.trusted.add("libm %s (uninterpreted)" % nm)
    return z3.Function("libm_%s_%s" % (nm, "_".join(str(v.sort()).replace(" ", "") for v in args)), *[v.sort() for v in args], ex.vc.sort(rt))(*args)

@contract(r"__errno_location")
def _(ex, n, rt, a, reach, ins):
    return Ptr.mk(ex.errno_region())

@contract(r"modff?")
def _(ex, n, rt, a, reach, ins):
    x = a[0][1]
    if ex.vc.fpmode != "fp": raise Unsupported("modf outside fp mode")
    i = z3.fpRoundToIntegral(z3.RTZ(), x)
    ex.store(a[1][1], rt, i, reach)
    zero = z3.If(z3.fpIsNegative(x), z3.fpMinusZero(x.sort()), z3.fpPlusZero(x.sort()))
    return z3.If(z3.fpIsInf(x), zero, z3.fpSub(z3.RNE(), x, i))
