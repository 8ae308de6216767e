"""Parser for the textual LLVM 18 IR that clang emits from the real fern sources."""
import re

class IRError(Exception):
    pass

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "els", "packed", "name")
    def __init__(s, k, n=0, el=None, els=None, packed=False, name=None):
        s.k, s.n, s.el, s.els, s.packed, s.name = k, n, el, els, packed, name
    def __repr__(s):
        if s.k == "int": return "i%d" % s.n
        if s.k == "array": return "[%d x %r]" % (s.n, s.el)
        if s.k == "vec": return "<%d x %r>" % (s.n, s.el)
        if s.k == "struct": return "{%s}" % ", ".join(map(repr, s.els))
        if s.k == "named": return s.name
        return s.k
    def key(s):
        return repr(s)

VOID, PTR = Ty("void"), Ty("ptr")
FLOATS = {"float": 4, "double": 8, "x86_fp80": 16, "half": 2, "fp128": 16}

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gid>@(?:"[^"]*"|[-\w.$]+))
 | (?P<lid>%(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>![\w.]*(?:\([^)]*\))?)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[\w.$]+)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise IRError("token: %r" % s[i:i+40])
        i = m.end()
        if m.lastgroup:
            t = m.group()
            if m.lastgroup in ("gid", "lid") and t[1] == '"':
                t = t[0] + t[2:-1]
            out.append((m.lastgroup, t))
    return out

class P:
    """token cursor"""
    def __init__(s, toks, mod):
        s.t, s.i, s.mod = toks, 0, mod
    def peek(s, o=0):
        return s.t[s.i+o][1] if s.i+o < len(s.t) else None
    def kind(s, o=0):
        return s.t[s.i+o][0] if s.i+o < len(s.t) else None
    def next(s):
        v = s.t[s.i][1]; s.i += 1; return v
    def acc(s, v):
        if s.peek() == v:
            s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v):
            raise IRError("expected %r got %r in %r" % (v, s.peek(), " ".join(x[1] for x in s.t)[:300]))
    def type(s):
        w = s.peek()
        if w == "{" or (w == "<" and s.peek(1) == "{"):
            packed = s.acc("<"); s.exp("{")
            els = []
            while not s.acc("}"):
                els.append(s.type()); s.acc(",")
            if packed: s.exp(">")
            t = Ty("struct", els=els, packed=packed)
        elif w in ("[", "<"):
            s.next(); n = int(s.next()); s.exp("x"); el = s.type(); s.exp("]" if w == "[" else ">")
            t = Ty("array" if w == "[" else "vec", n=n, el=el)
        elif s.kind() == "lid":
            t = Ty("named", name=s.next())
        else:
            s.next()
            if re.fullmatch(r"i\d+", w): t = Ty("int", n=int(w[1:]))
            elif w in FLOATS: t = Ty(w)
            elif w == "ptr": t = PTR
            elif w == "void": t = VOID
            elif w in ("label", "metadata", "token", "opaque"): t = Ty(w)
            else: raise IRError("type %r" % w)
        if s.peek() == "(" :   # function type
            s.next()
            while not s.acc(")"):
                if s.acc("..."): continue
                s.type(); s.acc(",")
            t = Ty("func", el=t)
        return t
    ATTRS1 = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "readnone",
              "writeonly", "returned", "inreg", "nofree", "immarg", "noreturn", "nounwind", "swiftself", "allocptr",
              "dead_on_unwind", "writable", "nest", "allocalign"}
    def skip_attrs(s):
        while True:
            w = s.peek()
            if w in s.ATTRS1:
                s.next()
            elif w in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype",
                       "nofpclass", "range", "captures", "initializes", "inalloca", "preallocated"):
                s.next()
                if s.acc("("):
                    d = 1
                    while d:
                        x = s.next()
                        d += (x == "(") - (x == ")")
                elif w == "align":
                    s.next()
            else:
                return
    def value(s, ty):
        k, w = s.kind(), s.peek()
        if k == "lid": s.next(); return ("l", w)
        if k == "gid": s.next(); return ("g", w[1:])
        if k == "num":
            s.next()
            if ty.k in FLOATS: return ("f", w)
            return ("i", int(w))
        if w in ("true", "false"): s.next(); return ("i", 1 if w == "true" else 0)
        if w == "null": s.next(); return ("null",)
        if w in ("undef", "poison"): s.next(); return ("undef",)
        if w == "zeroinitializer": s.next(); return ("zero",)
        if k == "str":
            s.next(); return ("str", w)
        if w in ("{", "["):
            close = {"{": "}", "[": "]"}[w]
            s.next(); els = []
            while not s.acc(close):
                t = s.type(); els.append((t, s.value(t))); s.acc(",")
            return ("agg", els)
        if w == "<":
            s.next()
            close = ">"
            if s.acc("{"): close = "}"
            els = []
            while not s.acc(close):
                t = s.type(); els.append((t, s.value(t))); s.acc(",")
            if close == "}": s.exp(">")
            return ("agg", els)
        if w == "getelementptr":
            s.next()
            while s.peek() in ("inbounds", "nuw", "nusw", "inrange"): s.next()
            s.exp("("); ety = s.type(); s.exp(",")
            ops = []
            while not s.acc(")"):
                s.acc("inrange"); t = s.type(); ops.append((t, s.value(t))); s.acc(",")
            return ("cgep", ety, ops)
        if w in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc"):
            s.next(); s.exp("("); t = s.type(); v = s.value(t); s.exp("to"); t2 = s.type(); s.exp(")")
            return ("ccast", w, t, v, t2)
        if w in ("add", "sub", "mul"):
            s.next()
            while s.peek() in ("nuw", "nsw"): s.next()
            s.exp("("); t = s.type(); a = s.value(t); s.exp(","); t2 = s.type(); b = s.value(t2); s.exp(")")
            return ("cbin", w, t, a, b)
        raise IRError("value %r (%s) in %r" % (w, k, " ".join(x[1] for x in s.t)[:400]))
    def tval(s):
        t = s.type(); s.skip_attrs()
        return (t, s.value(t))

class Inst:
    __slots__ = ("op", "res", "ty", "a", "flags", "text", "extra")
    def __init__(s, op, res, ty, a, flags=(), extra=None):
        s.op, s.res, s.ty, s.a, s.flags, s.extra, s.text = op, res, ty, a, flags, extra, None
    def __repr__(s):
        return s.text or "%s %s" % (s.res, s.op)

class Block:
    def __init__(s, name): s.name, s.ins = name, []
    def succs(s):
        t = s.ins[-1]
        if t.op == "br": return t.extra
        if t.op == "switch": return list(dict.fromkeys([t.extra[0]] + [l for _, l in t.extra[1]]))
        return []

class Func:
    def __init__(s): s.blocks, s.order, s.params = {}, [], []

class Module:
    def __init__(s): s.types, s.funcs, s.decls, s.globals = {}, {}, {}, {}
    # --- layout
    def resolve(s, t):
        while t.k == "named":
            t = s.types[t.name]
        return t
    def size_align(s, t):
        t = s.resolve(t)
        if t.k == "int":
            n = (t.n + 7)//8
            p = 1
            while p < n: p *= 2
            if t.n > 64: return ((n+15)//16*16, 16)
            return (p, p)
        if t.k in FLOATS:
            n = FLOATS[t.k]; return (n, n)
        if t.k == "ptr": return (8, 8)
        if t.k == "array":
            n, a = s.size_align(t.el); return (n*t.n, a)
        if t.k == "vec":
            n, a = s.size_align(t.el); return (n*t.n, n*t.n)
        if t.k == "struct":
            off, al = 0, 1
            for e in t.els:
                n, a = s.size_align(e)
                if t.packed: a = 1
                off = (off + a - 1)//a*a + n
                al = max(al, a)
            return ((off + al - 1)//al*al, al)
        raise Unsupported("size of %r" % t)
    def sizeof(s, t): return s.size_align(t)[0]
    def field_off(s, t, i):
        t = s.resolve(t)
        off = 0
        for j, e in enumerate(t.els):
            n, a = s.size_align(e)
            if t.packed: a = 1
            off = (off + a - 1)//a*a
            if j == i: return off
            off += n
        raise IRError("field")

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr",
        "bitcast", "addrspacecast"}
FASTF = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint",
         "nneg", "samesign", "nusw"}

def parse_inst(line, mod):
    p = P(tokenize(line), mod)
    res = None
    if p.kind() == "lid" and p.peek(1) == "=":
        res = p.next(); p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    fl = []
    if op in BIN or op in CAST or op in ("icmp", "fcmp", "getelementptr", "fneg", "select", "phi", "call"):
        while p.peek() in FASTF: fl.append(p.next())
    if op in BIN:
        t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
        return Inst(op, res, t, [(t, a), (t, b)], fl)
    if op in CAST:
        t = p.type(); a = p.value(t); p.exp("to"); t2 = p.type()
        return Inst(op, res, t2, [(t, a)], fl)
    if op in ("icmp", "fcmp"):
        pred = p.next(); t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
        return Inst(op, res, Ty("int", n=1), [(t, a), (t, b)], fl, pred)
    if op in ("fneg", "freeze"):
        t = p.type(); a = p.value(t)
        return Inst(op, res, t, [(t, a)], fl)
    if op == "select":
        c = p.tval(); p.exp(","); a = p.tval(); p.exp(","); b = p.tval()
        return Inst(op, res, a[0], [c, a, b], fl)
    if op == "phi":
        t = p.type(); inc = []
        while p.acc("["):
            v = p.value(t); p.exp(","); l = p.next()[1:]; p.exp("]"); inc.append((v, l)); p.acc(",")
        return Inst(op, res, t, inc, fl)
    if op == "alloca":
        t = p.type(); n = ("i", 1)
        if p.acc(",") and p.peek() not in ("align", "addrspace"):
            tt = p.type(); n = p.value(tt)
        return Inst(op, res, t, [n])
    if op == "load":
        p.acc("volatile")
        if p.acc("atomic"): fl.append("atomic")
        t = p.type(); p.exp(","); a = p.tval()
        return Inst(op, res, t, [a], fl)
    if op == "store":
        p.acc("volatile")
        if p.acc("atomic"): fl.append("atomic")
        v = p.tval(); p.exp(","); a = p.tval()
        return Inst(op, None, None, [v, a], fl)
    if op == "getelementptr":
        t = p.type(); ops = []
        while p.acc(","):
            if p.kind() == "meta": break
            ops.append(p.tval())
        return Inst(op, res, t, ops, fl)
    if op == "br":
        if p.acc("label"):
            return Inst(op, None, None, [], extra=[p.next()[1:]])
        c = p.tval(); p.exp(","); p.exp("label"); a = p.next()[1:]; p.exp(","); p.exp("label"); b = p.next()[1:]
        return Inst(op, None, None, [c], extra=[a, b])
    if op == "switch":
        c = p.tval(); p.exp(","); p.exp("label"); d = p.next()[1:]; p.exp("[")
        cases = []
        while not p.acc("]"):
            t = p.type(); v = p.value(t); p.exp(","); p.exp("label"); cases.append((v, p.next()[1:]))
        return Inst(op, None, None, [c], extra=(d, cases))
    if op == "ret":
        t = p.type()
        return Inst(op, None, t, [] if t.k == "void" else [(t, p.value(t))])
    if op == "unreachable":
        return Inst(op, None, None, [])
    if op in ("call",):
        while p.peek() in ("fastcc", "ccc", "coldcc"): p.next()
        p.skip_attrs()
        rt = p.type(); p.skip_attrs()
        if rt.k == "func": rt = rt.el
        callee = p.value(PTR); p.exp("(")
        args = []
        while not p.acc(")"):
            t = p.type(); p.skip_attrs()
            if t.k == "metadata":
                while p.peek() not in (",", ")"): p.next()
                args.append((t, ("undef",)))
            else:
                args.append((t, p.value(t)))
            p.acc(",")
        return Inst(op, res, rt, args, fl, callee)
    if op == "extractvalue":
        a = p.tval(); idx = []
        while p.acc(","): idx.append(int(p.next()))
        return Inst(op, res, None, [a], extra=idx)
    if op == "insertvalue":
        a = p.tval(); p.exp(","); b = p.tval(); idx = []
        while p.acc(","): idx.append(int(p.next()))
        return Inst(op, res, a[0], [a, b], extra=idx)
    if op in ("fence",):
        return Inst("nop", None, None, [])
    if op in ("atomicrmw", "cmpxchg", "va_arg", "extractelement", "insertelement", "shufflevector", "landingpad", "resume",
              "invoke", "indirectbr"):
        return Inst("unsupported", res, None, [], extra=op)
    raise IRError("instruction %r" % line)

def parse_module(text):
    mod = Module()
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("%"):
            p = P(tokenize(l), mod); n = p.next(); p.exp("="); p.exp("type")
            mod.types[n] = p.type()
        elif l.startswith("@"):
            p = P(tokenize(l), mod); n = p.next()[1:]; p.exp("=")
            const = False; ext = False
            while True:
                w = p.peek()
                if w in ("constant", "global", "alias", "ifunc"):
                    const = w == "constant"; kind = p.next(); break
                if w in ("external", "extern_weak"): ext = True
                p.next()
            if kind in ("constant", "global"):
                t = p.type()
                init = None
                if not ext and p.peek() is not None and p.peek() not in (",",):
                    try: init = p.value(t)
                    except IRError: init = None
                mod.globals[n] = (t, init, const)
        elif l.startswith("declare"):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            n = m.group(1).strip('"')
            mod.decls[n] = l
        elif l.startswith("define"):
            f = Func()
            hdr = l
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', hdr)
            f.name = m.group(1).strip('"')
            f.hdr = hdr
            p = P(tokenize(hdr), mod)
            while not (p.kind() == "gid" and p.peek()[1:] == f.name): p.next()
            p.next(); p.exp("(")
            pn = 0
            while not p.acc(")"):
                if p.acc("..."): continue
                t = p.type(); p.skip_attrs()
                if p.kind() == "lid": nm = p.next()
                else: nm = "%%%d" % pn
                pn += 1
                f.params.append((nm, t)); p.acc(",")
            i += 1
            cur = None
            body = []
            while lines[i] != "}":
                s = lines[i]
                i += 1
                if not s.strip(): continue
                if s[0] not in " \t":
                    lab = s.split(";")[0].strip().rstrip(":").strip('"')
                    body.append(("label", lab)); continue
                s2 = s.strip()
                if s2.startswith(";"): continue
                if re.match(r"(%\S+ = )?(switch|landingpad)", s2) and s2.startswith("switch"):
                    while "]" not in s2:
                        s2 += " " + lines[i].strip(); i += 1
                elif "landingpad" in s2.split("=")[-1][:14]:
                    while i < len(lines) and re.match(r"\s+(catch|cleanup|filter)", lines[i]): i += 1
                elif re.match(r"(%\S+ = )?invoke", s2):
                    while "unwind label" not in s2:
                        s2 += " " + lines[i].strip(); i += 1
                body.append(("ins", s2))
            f.raw = body
            f.parsed = False
            mod.funcs[f.name] = f
        i += 1
    return mod

def parse_body(mod, f):
    if f.parsed: return f
    f.parsed = True
    cur = None
    for k, s in f.raw:
        if k == "label":
            cur = Block(s); f.blocks[s] = cur; f.order.append(s); continue
        if cur is None:
            # entry block label is implicit: number after the unnamed parameters
            n = sum(1 for nm, _ in f.params if re.fullmatch(r"%\d+", nm))
            cur = Block(str(n)); f.blocks[cur.name] = cur; f.order.append(cur.name)
        s2 = re.sub(r"(, ![\w.]+ ![\w.]+)+\s*$", "", s)
        ins = parse_inst(s2, mod)
        ins.text = s
        cur.ins.append(ins)
    return f
