"""Contracts of the functions that the code under analysis calls but does not define: the C library,
libpng, libjpeg, FFmpeg, MagickWand, FFTW - and the __sa_* primitives of the client drivers."""
import re
from eng import *

REG = {}
def model(*names):
    def deco(fn):
        for n in names: REG[n] = fn
        return fn
    return deco

class Models:
    def __init__(self, force=()):
        self.force = set(force)
    def find(self, name):
        m = REG.get(name)
        if m: return m
        if name.startswith("llvm."):
            base = ".".join(name.split(".")[:2])
            m = REG.get(base)
            if m: return m
            if name.startswith(("llvm.lifetime.start", "llvm.lifetime.end")): return REG[name.rsplit(".", 1)[0]]
            if name.startswith("llvm.is.fpclass"): return REG["llvm.is.fpclass"]
        return None

def ok(v, st): return [("ok", v, st)]
def i32(c): return I(const(c), 32)
def i64(p): return I(p, 64)
def ipoly(p, w=32): return I(p, w)

def clone(E, st):
    E.undecided += 1
    return st.copy()

def ev(st, name, what=None):
    st.ghost[("ev", name if name in ("nomem", "eof") else "fail")] = True

def site(E):
    return tuple(E.cur.loc) if E.cur and E.cur.loc else None

def errno_obj(E, st):
    for oid, o in st.mem.items():
        if o.kind == "root" and o.label == "errno": return oid
    o = mkobj("root", "errno", 4, "unk")
    st.new(o)
    o.cells[0] = (4, I(fresh("errno", 0, 4095), 32))
    return o.id

def set_errno(E, st, lo=1):
    oid = errno_obj(E, st)
    w = st.w(oid)
    w.cells[0] = (4, I(fresh("errno", lo, 4095), 32))

@model("__errno_location")
def m_errno(E, st, ins, a, *r):
    return ok(P(errno_obj(E, st)), st)

# ------------------------------------------------------------ allocation
def newheap(E, st, size, base, fam="malloc", label="allocation"):
    o = mkobj("heap", label, size, base, site=site(E))
    o.attrs["owned"] = True; o.attrs["fam"] = fam
    st.new(o)
    return o

def alloc(E, st, n, base, fam="malloc", fail=True):
    E.stats["allocs"][site(E)] = E.stats["allocs"].get(site(E), 0) + 1
    outs = []
    if fail and not E.nofail:
        s = clone(E, st)
        set_errno(E, s); ev(s, "nomem"); s.note(E.cur.loc, "allocation fails")
        outs.append(("ok", NULL, s))
    if st.f.add(const(2**63 - 1) - n):
        o = newheap(E, st, n, base, fam)
        outs.append(("ok", P(o.id), st))
    return outs

@model("malloc")
def m_malloc(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[0], 64))
    return alloc(E, st, n, "uninit")

@model("calloc")
def m_calloc(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[0], 64)); m = E.U(st, E.toint(st, a[1], 64))
    return alloc(E, st, n * m, "zero")

@model("strdup")
def m_strdup(E, st, ins, a, *r):
    return alloc(E, st, ONE * 1, "unk")

@model("realloc")
def m_realloc(E, st, ins, a, *r):
    p = a[0]
    n = E.U(st, E.toint(st, a[1], 64))
    z = E.isnull(st, p)
    if z is True: return alloc(E, st, n, "uninit")
    if isinstance(p, XP) and z is None:
        raise Fork([[(("u", ("null", p.id)), True)], [(("u", ("null", p.id)), False)]], "realloc(NULL)")
    chkfree(E, st, p, "malloc", "realloc")
    outs = []
    s = clone(E, st)
    set_errno(E, s); ev(s, "nomem"); s.note(E.cur.loc, "realloc fails")
    outs.append(("ok", NULL, s))
    if not st.f.add(const(2**63 - 1) - n): return outs
    o = st.w(p.o)
    old = o.size
    o.gen += 1
    grow = st.f.entails(n - old)
    o.size = n
    if not grow:
        o.regs = tuple((lo, hi, v) for lo, hi, v in o.regs if st.f.entails(n - hi))
        o.sym = {k: x for k, x in o.sym.items() if st.f.entails(n - k - x[0])}
        o.cells = {k: x for k, x in o.cells.items() if st.f.entails(n - k - x[0])}
    elif o.base != "uninit":
        o.regs = E.addreg(st, o.regs, ZERO, old, E.vjoin(st, o.base, o.base)) if not o.regs else o.regs
        o.base = "uninit"
        # cells below the old size stay
    outs.append(("ok", P(o.id, ZERO, o.gen), st))
    return outs

def chkfree(E, st, p, fam, what):
    if p is UN: E.report(st, "uninit", "%s of an uninitialised pointer" % what)
    if isinstance(p, FN) or (isinstance(p, I)): E.report(st, "badfree", "%s of something that is not a heap pointer" % what)
    if not isinstance(p, P): return
    o = st.mem.get(p.o)
    if o is None: E.report(st, "uaf", "%s of an object that no longer exists" % what)
    if not o.alive:
        E.report(st, "doublefree", "%s of %s from %s, which was already released" % (what, o.label, o.site))
    if p.gen != o.gen: E.report(st, "uaf", "%s of a pointer from before its reallocation" % what)
    if o.attrs.get("fam") != fam:
        E.report(st, "badfree", "%s of %s '%s', which that function does not own" % (what, o.kind, o.label))
    if E.decide(st, ("eq", p.off)) is not True:
        E.report(st, "badfree", "%s of a pointer into the middle of an object" % what)

def release(E, st, o):
    E.stats["frees"] += 1
    w = st.w(o)
    w.alive = False
    w.cells = {}; w.sym = {}; w.regs = (); w.segs = (); w.attrs = {k: v for k, v in w.attrs.items() if not isinstance(v, (P, AG))}

def dofree(E, st, p, fam, what="free"):
    z = E.isnull(st, p)
    if z is True: return
    if isinstance(p, XP) and z is None: return
    chkfree(E, st, p, fam, what)
    if isinstance(p, P): release(E, st, p.o)

@model("free")
def m_free(E, st, ins, a, *r):
    dofree(E, st, a[0], "malloc")
    return ok(None, st)

# ------------------------------------------------------------ memory / strings
@model("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")
def m_memcpy(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[2], 64))
    E.memcpy(st, a[0], a[1], n)
    return ok(a[0], st)

@model("llvm.memset", "memset")
def m_memset(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[2], 64))
    x = E.access(st, a[0], n, True, "write")
    if x:
        o, off = x
        if o.const and o.kind == "global": E.report(st, "constwrite", "write to constant '%s'" % o.label)
        v = E.toint(st, a[1], 8)
        E.fill(st, o, off, n, "zero" if v.p == ZERO else "unk")
    return ok(a[0], st)

def cstring(E, st, p):
    """bytes of a fully known string, or None"""
    if not isinstance(p, P): return None
    o = st.mem.get(p.o)
    if o is None or p.off.t: return None
    if o.data is not None:
        d = o.data[p.off.c:]
        return d[:d.index(0)] if 0 in d else None
    out = []
    i = p.off.c
    while len(out) < 300:
        c = o.cells.get(i)
        if c is None:
            if o.base == "zero" and not o.regs: return bytes(out)
            return None
        if not isinstance(c[1], I) or c[0] != 1 or not c[1].p.isconst():
            if isinstance(c[1], I) and c[1].p.isconst():
                v = c[1].p.c & ((1 << (8 * c[0])) - 1)
                for j in range(c[0]):
                    b = (v >> (8 * j)) & 255
                    if b == 0: return bytes(out)
                    out.append(b)
                i += c[0]
                continue
            return None
        b = c[1].p.c & 255
        if b == 0: return bytes(out)
        out.append(b); i += 1
    return None

def chkstr(E, st, p, what):
    """p must point to a NUL-terminated string"""
    if p is UN: E.report(st, "uninit", "%s of an uninitialised pointer" % what)
    z = E.isnull(st, p)
    if z is True: E.report(st, "null", "%s of a null pointer" % what)
    if not isinstance(p, P): return
    E.access(st, p, 1, False, what)
    o = st.mem[p.o]
    if o.kind == "cstr":
        if not st.f.entails(o.attrs["len"] - p.off): E.report(st, "oob", "%s beyond the end of the string" % what)
        return
    if cstring(E, st, p) is not None: return
    nul = o.attrs.get("nul")
    if nul is not None and st.f.entails(nul - p.off): return
    if o.kind == "ext" or o.size is None: return
    if o.base == "uninit": E.report(st, "uninit", "%s of a buffer that may not hold a terminated string" % what)
    E.report(st, "oob", "%s of '%s', which may lack a terminator" % (what, o.label))

def skey(E, st, p):
    if isinstance(p, P): return ("s", p.o, p.off, st.mem[p.o].ver if p.o in st.mem and st.mem[p.o].kind not in ("cstr",) and st.mem[p.o].data is None else 0)
    return ("x", repr(p))

def streq(E, st, a, b, n=None):
    """three-valued equality of two strings (of their first n bytes)"""
    x, y = cstring(E, st, a), cstring(E, st, b)
    if x is not None and y is not None:
        if n is not None: x, y = x[:n], y[:n]
        return x == y, (x > y) - (x < y)
    if x is not None: a, b, x, y = b, a, y, x
    key = ("streq", skey(E, st, a), y if y is not None else skey(E, st, b), n)
    d = st.unk.get(key)
    if d is None and y is not None:
        for k, v in st.unk.items():
            if k[0] == "streq" and k[1] == key[1] and isinstance(k[2], bytes):
                full = k[2] if k[3] is None else None
                if v and full is not None:
                    z = y if n is None else y[:n]; q = full if n is None else full[:n]
                    return z == q, 1 if z != q else 0
                if v and k[3] is not None:
                    m = min(k[3], n if n is not None else 10**9, len(k[2]), len(y))
                    if k[2][:m] != y[:m]: return False, 1
                    if n is not None and n <= k[3] and len(k[2]) >= n and k[2][:n] == y[:n]: return True, 0
    if d is None:
        raise Fork([[(("u", key), True)], [(("u", key), False)]], "string comparison")
    return d, 0 if d else None

def cmpresult(E, d, s):
    if d: return i32(0)
    if s is not None and s != 0: return i32(s)
    p = fresh("cmp", -255, 255)
    return I(p, 32), p

@model("strcmp", "strcasecmp")
def m_strcmp(E, st, ins, a, *r):
    chkstr(E, st, a[0], "strcmp"); chkstr(E, st, a[1], "strcmp")
    d, s = streq(E, st, a[0], a[1])
    if d: return ok(i32(0), st)
    if s: return ok(i32(s), st)
    p = fresh("cmp", -255, 255); st.f.add_neq(p)
    return ok(I(p, 32), st)

@model("strncmp", "strncasecmp")
def m_strncmp(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[2], 64))
    chkstr(E, st, a[0], "strncmp"); chkstr(E, st, a[1], "strncmp")
    if not n.isconst():
        return ok(I(fresh("cmp", -255, 255), 32), st)
    d, s = streq(E, st, a[0], a[1], n.c)
    if d: return ok(i32(0), st)
    if s: return ok(i32(s), st)
    p = fresh("cmp", -255, 255); st.f.add_neq(p)
    return ok(I(p, 32), st)

@model("memcmp")
def m_memcmp(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[2], 64))
    x = E.access(st, a[0], n, False, "memcmp"); y = E.access(st, a[1], n, False, "memcmp")
    if n.isconst() and n.c <= 64 and x and y:
        eqs = []
        for i in range(n.c):
            p = E.peek(st, x[0], x[1] + i, 1, "i8"); q = E.peek(st, y[0], y[1] + i, 1, "i8")
            if p is UN or q is UN: E.report(st, "uninit", "memcmp of uninitialised bytes")
            p = E.U(st, p); q = E.U(st, q)
            if p == q: continue
            if p.isconst() and q.isconst():
                return ok(i32(1 if p.c > q.c else -1), st)
            eqs.append(p - q)
        if not eqs: return ok(i32(0), st)
        s = clone(E, st)
        good = all(E.assume(s, ("eq", e), True) for e in eqs)
        outs = []
        if good: outs.append(("ok", i32(0), s))
        p = fresh("cmp", -255, 255); st.f.add_neq(p)
        st.note(E.cur.loc, "memcmp: different")
        outs.append(("ok", I(p, 32), st))
        return outs
    return ok(I(fresh("cmp", -255, 255), 32), st)

@model("strlen")
def m_strlen(E, st, ins, a, *r):
    chkstr(E, st, a[0], "strlen")
    s = cstring(E, st, a[0])
    if s is not None: return ok(i64(const(len(s))), st)
    if isinstance(a[0], P):
        o = st.mem[a[0].o]
        if o.kind == "cstr": return ok(i64(o.attrs["len"] - a[0].off), st)
        if o.size is not None:
            n = fresh("strlen", 0, 2**40); st.f.add(o.size - a[0].off - 1 - n)
            return ok(i64(n), st)
    return ok(i64(fresh("strlen", 0, 2**40)), st)

def within(E, st, p, name):
    """NULL or a pointer into the string p"""
    s = clone(E, st)
    outs = [("ok", NULL, s)]
    if isinstance(p, P):
        o = st.mem[p.o]
        j = fresh("at", 0, 2**40)
        if o.kind == "cstr":
            st.f.add(o.attrs["len"] - 1 - p.off - j)
        elif o.size is not None: st.f.add(o.size - 2 - p.off - j)
        if not st.f.bot: outs.append(("ok", P(p.o, p.off + j, p.gen), st))
    else:
        _id = E.newunk()
        outs.append(("ok", XP(_id, True), st))
    return outs

@model("strchr", "strrchr", "strstr", "strpbrk")
def m_strchr(E, st, ins, a, *r):
    chkstr(E, st, a[0], "strchr")
    s = cstring(E, st, a[0])
    if s is not None and isinstance(a[1], I) and a[1].p.isconst():
        i = s.find(bytes([a[1].p.c & 255])) if E.curcallee == "strchr" else s.rfind(bytes([a[1].p.c & 255]))
        return ok(NULL if i < 0 else P(a[0].o, a[0].off + i, a[0].gen), st)
    key = ("strchr", E.curcallee, skey(E, st, a[0]), repr(a[1]))
    d = st.unk.get(key)
    if d is None:
        raise Fork([[(("u", key), True)], [(("u", key), False)]], E.curcallee)
    if not d: return ok(NULL, st)
    outs = within(E, st, a[0], "strchr")
    return outs[1:]

@model("strtoul", "strtol", "strtoull", "strtoll")
def m_strtoul(E, st, ins, a, *r):
    chkstr(E, st, a[0], "strtoul")
    if isinstance(a[1], P) and a[1].o != 0:
        for o in within(E, st, a[0], "strtoul")[1:]:
            E.store(st, a[1], 8, o[1])
    s = cstring(E, st, a[0])
    if s is not None and isinstance(a[2], I) and a[2].p == const(10):
        m = re.match(rb"\s*\+?(\d+)", s)
        return ok(i64(const(int(m.group(1)) if m else 0)), st)
    return ok(i64(fresh("strtoul", 0, 2**64 - 1)), st)

@model("strtof", "strtod")
def m_strtof(E, st, ins, a, *r):
    chkstr(E, st, a[0], "strtod")
    if isinstance(a[1], P) and a[1].o != 0:
        for o in within(E, st, a[0], "strtod")[1:]:
            E.store(st, a[1], 8, o[1])
    return ok(FL(), st)

@model("atoi")
def m_atoi(E, st, ins, a, *r):
    chkstr(E, st, a[0], "atoi")
    return ok(I(fresh("atoi", -2**31, 2**31 - 1), 32), st)

def extstr(E, st, label="string"):
    o = mkobj("cstr", label, None, "unk")
    n = fresh("len", 0, 2**30)
    o.size = n + 1
    o.attrs["len"] = n
    st.new(o)
    return P(o.id)

@model("strerror", "getenv", "setlocale")
def m_strerror(E, st, ins, a, *r):
    key = ("extstr", E.curcallee)
    for oid, o in st.mem.items():
        if o.kind == "cstr" and o.label == E.curcallee: return ok(P(oid), st)
    p = extstr(E, st, E.curcallee)
    return ok(p, st)

@model("tolower", "toupper")
def m_tolower(E, st, ins, a, *r):
    v = E.toint(st, a[0], 32)
    p = E.S(st, v)
    if p.isconst():
        c = p.c
        if E.curcallee == "tolower" and 65 <= c <= 90: c += 32
        if E.curcallee == "toupper" and 97 <= c <= 122: c -= 32
        return ok(i32(c), st)
    return ok(I(E.memofresh((E.curcallee, p), "lower", -128, 255), 32), st)

@model("__ctype_b_loc")
def m_ctype(E, st, ins, a, *r):
    for oid, o in st.mem.items():
        if o.kind == "root" and o.label == "ctype_loc": return ok(P(oid), st)
    t = mkobj("ctype", "ctype table", None, "unk")
    st.new(t)
    l = mkobj("root", "ctype_loc", 8, "unk")
    st.new(l)
    l.cells[0] = (8, P(t.id))
    return ok(P(l.id), st)

@model("isspace", "isdigit", "isalpha", "isalnum")
def m_isx(E, st, ins, a, *r):
    v = E.toint(st, a[0], 32)
    p = E.S(st, v)
    return ok(I(E.memofresh((E.curcallee, p), "isx", 0, 1), 32), st)

@model("llvm.stacksave")
def m_stacksave(E, st, ins, a, f, fid, *r):
    o = mkobj("mark", "stack mark", None, "unk", fid)
    o.attrs["vlas"] = tuple(oid for oid, x in st.mem.items() if x.kind == "vla" and x.frame is fid)
    st.new(o)
    return ok(P(o.id), st)

@model("llvm.stackrestore")
def m_stackrestore(E, st, ins, a, f, fid, *r):
    if isinstance(a[0], P) and a[0].o in st.mem:
        keep = st.mem[a[0].o].attrs.get("vlas", ())
        for oid, x in list(st.mem.items()):
            if x.kind == "vla" and x.frame is fid and oid not in keep and x.alive:
                st.w(oid).alive = False
    return ok(None, st)

@model("llvm.lifetime.start")
def m_ltstart(E, st, ins, a, *r):
    p = a[1]
    if isinstance(p, P) and p.o in st.mem:
        w = st.w(p.o)
        w.cells = {}; w.sym = {}; w.regs = (); w.segs = (); w.base = "uninit"; w.attrs = {k: v for k, v in w.attrs.items() if k == "scope"}
        w.attrs.pop("scope", None)
    return ok(None, st)

@model("llvm.lifetime.end")
def m_ltend(E, st, ins, a, *r):
    p = a[1]
    if isinstance(p, P) and p.o in st.mem:
        w = st.w(p.o)
        w.cells = {}; w.sym = {}; w.regs = (); w.segs = (); w.base = "uninit"; w.attrs = {"scope": "ended"}
    return ok(None, st)

@model("llvm.assume", "llvm.donothing", "llvm.dbg", "llvm.experimental", "llvm.prefetch", "llvm.va_start", "llvm.va_end")
def m_nop(E, st, ins, a, *r):
    return ok(None, st)

@model("llvm.expect")
def m_expect(E, st, ins, a, *r):
    return ok(a[0], st)

@model("llvm.trap", "abort", "exit", "_exit", "__assert_fail")
def m_exit(E, st, ins, a, *r):
    if E.curcallee in ("exit", "_exit"):
        v = a[0] if a else None
        return [("exit", v, st)]
    if E.curcallee == "__assert_fail":
        E.report(st, "abort", "assertion can fail")
    E.report(st, "abort", "call of %s" % E.curcallee)

# ------------------------------------------------------------ floating point
def fl(a): return a if isinstance(a, FL) else FL()

@model("llvm.fabs", "fabs", "fabsf", "fabsl")
def m_fabs(E, st, ins, a, *r):
    x = fl(a[0])
    if a[0] is UN: E.report(st, "uninit", "use of an uninitialised value")
    lo, hi, nan = E.frng(st, x)
    if lo >= 0: return ok(FL(lo, hi, nan, x.lb, x.ub, x.num, ex=("fabs", x.ex)), st)
    l = 0.0 if hi >= 0 else -hi
    return ok(FL(l, max(-lo, hi), nan, ex=("fabs", x.ex)), st)

@model("llvm.copysign")
def m_copysign(E, st, ins, a, *r):
    x, y = fl(a[0]), fl(a[1])
    lo, hi, nan = E.frng(st, x)
    m = max(abs(lo), abs(hi))
    mn = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
    yl, yh, yn = E.frng(st, y)
    if mn > 0 and yl >= 0 and not yn: return ok(FL(mn, m, nan), st)
    v = FL(-m, m, nan, ex=("copysign", x.ex, y.ex))
    return ok(v, st)

@model("llvm.round", "llvm.floor", "llvm.ceil", "llvm.rint", "round", "floor", "ceil", "roundf", "floorf", "ceilf", "lround")
def m_round(E, st, ins, a, *r):
    x = fl(a[0])
    lo, hi, nan = E.frng(st, x)
    n = E.curcallee
    f = (lambda v: v if abs(v) == INF else float(math.floor(v))); c = (lambda v: v if abs(v) == INF else float(math.ceil(v)))
    return ok(FL(f(lo), c(hi), nan, ex=(n.replace("llvm.", "").split(".")[0], x.ex)), st)

@model("llvm.fmuladd", "llvm.fma")
def m_fma(E, st, ins, a, *r):
    t = E.fbin(st, "fmul", a[0], a[1], ins.ty)
    return ok(E.fbin(st, "fadd", t, a[2], ins.ty), st)

@model("sin", "cos", "sinf", "cosf", "sinl", "cosl")
def m_sin(E, st, ins, a, *r): return ok(FL(-1.0, 1.0, True), st)

@model("atan", "atanf", "atanl", "atan2")
def m_atan(E, st, ins, a, *r): return ok(FL(-3.2, 3.2, True), st)

@model("sqrt", "llvm.sqrt", "sqrtf")
def m_sqrt(E, st, ins, a, *r):
    lo, hi, nan = E.frng(st, fl(a[0]))
    return ok(FL(0.0, math.sqrt(hi) if 0 <= hi < INF else INF, nan or lo < 0), st)

@model("log", "log10", "exp", "pow", "logf", "expf", "powf", "fmod", "hypot", "sinh", "cosh", "log2")
def m_math(E, st, ins, a, *r): return ok(FL(), st)

@model("llvm.minnum", "llvm.maxnum", "fmin", "fmax", "fminf", "fmaxf")
def m_minmax(E, st, ins, a, *r):
    x, y = fl(a[0]), fl(a[1])
    return ok(E.fjoin(st, x, y), st)

@model("frexp", "frexpf", "frexpl")
def m_frexp(E, st, ins, a, *r):
    if a[0] is UN: E.report(st, "uninit", "use of an uninitialised value")
    E.store(st, a[1], 4, I(fresh("exp", -20000, 20000), 32))
    return ok(FL(-1.0, 1.0, True), st)

@model("llvm.is.fpclass")
def m_fpclass(E, st, ins, a, *r):
    if a[0] is UN: E.report(st, "uninit", "use of an uninitialised value")
    m = a[1].p.c & 0x3ff
    return ok(B(("fk", m, fl(a[0]))), st)

@model("llvm.umul", "llvm.smul", "llvm.uadd", "llvm.sadd", "llvm.usub", "llvm.ssub")
def m_ovf(E, st, ins, a, *r):
    n = E.curcallee
    sg = n.split(".")[1][0] == "s"; op = n.split(".")[1][1:]
    w = a[0].w
    x, y = (E.S(st, a[0]), E.S(st, a[1])) if sg else (E.U(st, a[0]), E.U(st, a[1]))
    p = x * y if op == "mul" else x + y if op == "add" else x - y
    L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if "sat" in n: return ok(I(fresh("sat", L, H), w), st)
    outs = []
    s = clone(E, st)
    if E.assume(s, ("ge", p - L), True) and E.assume(s, ("ge", const(H) - p), True):
        outs.append(("ok", AG((I(p, w), bconst(False))), s))
    for c in (("ge", const(H) - p), ("ge", p - L)):
        s = st.copy()
        if E.assume(s, c, False): outs.append(("ok", AG((I(fresh("wrapped", 0, (1 << w) - 1), w), bconst(True))), s))
    return outs

@model("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")
def m_imm(E, st, ins, a, *r):
    n = E.curcallee.split(".")[1]
    x, y = (E.S(st, a[0]), E.S(st, a[1])) if n[0] == "s" else (E.U(st, a[0]), E.U(st, a[1]))
    d = E.decide(st, ("ge", x - y))
    if d is None: raise Fork([[(("ge", x - y), True)], [(("ge", x - y), False)]], n)
    return ok(a[0] if d == (n[1:] == "max") else a[1], st)

# ------------------------------------------------------------ setjmp
@model("_setjmp", "setjmp", "__sigsetjmp", "sigsetjmp")
def m_setjmp(E, st, ins, a, f, fid, b, idx):
    return E.do_setjmp(st, ins, a[0], f, fid, b, idx)

@model("longjmp", "siglongjmp", "_longjmp")
def m_longjmp(E, st, ins, a, f, fid, b, idx):
    p = a[0]
    if p is UN: E.report(st, "uninit", "longjmp through an uninitialised buffer pointer")
    if isinstance(p, P):
        E.access(st, p, 8, False, "longjmp buffer read")
        key = (p.o, p.off)
    else: key = ("x", repr(p))
    return [E.longjmp_outs(st, key, jval(E, st, a[1]))]

def jval(E, st, v):
    v = E.toint(st, v, 32)
    d = E.decide(st, ("eq", v.p))
    return i32(1) if d is not False and v.p == ZERO else v

# ------------------------------------------------------------ stdio
def mkfile(E, st, label, std=False):
    o = mkobj("FILE", label, None, "unk", site=site(E))
    o.attrs.update(eof=False, pos=ZERO, bulk=ZERO, std=std)
    if not std: o.attrs["owned"] = True
    st.new(o)
    return o

@model("fopen", "fdopen")
def m_fopen(E, st, ins, a, *r):
    chkstr(E, st, a[0], "fopen"); chkstr(E, st, a[1], "fopen")
    s = clone(E, st)
    set_errno(E, s); ev(s, "open"); s.note(E.cur.loc, "fopen fails")
    o = mkfile(E, st, "stream")
    m = cstring(E, st, a[1])
    o.attrs["mode"] = m.decode() if m is not None else "?"
    return [("ok", NULL, s), ("ok", P(o.id), st)]

def getfile(E, st, p, what):
    if p is UN: E.report(st, "uninit", "%s on an uninitialised stream" % what)
    if E.isnull(st, p) is True: E.report(st, "null", "%s on a null stream" % what)
    if isinstance(p, P):
        o = st.mem.get(p.o)
        if o is None or not o.alive: E.report(st, "uaf", "%s on a stream that was closed" % what)
        if o.kind != "FILE": E.report(st, "oob", "%s on something that is not a stream" % what)
        return o
    return None

@model("fclose")
def m_fclose(E, st, ins, a, *r):
    p = a[0]
    if p is UN: E.report(st, "uninit", "fclose of an uninitialised stream")
    if E.isnull(st, p) is True: E.report(st, "null", "fclose of a null stream")
    if isinstance(p, P):
        o = st.mem.get(p.o)
        if o is None or not o.alive: E.report(st, "doublefree", "fclose of a stream that was already closed")
        if o.kind != "FILE": E.report(st, "badfree", "fclose of something that is not a stream")
        if o.attrs.get("std"): E.report(st, "stdclose", "fclose of a standard stream")
        release(E, st, p.o)
    return ok(i32(0), st)

def newbyte(E, st, o, i):
    k = ("byte", i)
    b = o.attrs.get(k)
    if b is None:
        b = fresh("byte%d" % i, 0, 255)
        st.w(o.id, False).attrs[k] = b
    return b

@model("fgetc", "getc", "_IO_getc", "getchar")
def m_fgetc(E, st, ins, a, *r):
    o = getfile(E, st, a[0], "fgetc")
    if o is None: return ok(I(fresh("getc", -1, 255), 32), st)
    outs = []
    if o.attrs["eof"] is True:
        return ok(i32(-1), st)
    s = clone(E, st)
    s.w(o.id, False).attrs["eof"] = True; s.note(E.cur.loc, "fgetc: end of file")
    s.ghost[("ev", "eof")] = True
    outs.append(("ok", i32(-1), s))
    s = st.copy()
    ev(s, "io"); s.note(E.cur.loc, "fgetc: read error")
    outs.append(("ok", i32(-1), s))
    pos = o.attrs["pos"]
    b = newbyte(E, st, o, pos.c) if pos.isconst() and pos.c < 64 else fresh("getc", 0, 255)
    w = st.w(o.id)
    w.attrs["pos"] = pos + 1
    outs.append(("ok", I(b, 32), st))
    return outs

@model("ungetc")
def m_ungetc(E, st, ins, a, *r):
    o = getfile(E, st, a[1], "ungetc")
    v = E.toint(st, a[0], 32)
    c = E.S(st, v)
    d = E.decide(st, ("eq", c + 1))
    if d is True: return ok(i32(-1), st)
    if o is not None:
        w = st.w(o.id)
        w.attrs["pos"] = w.attrs["pos"] - 1; w.attrs["eof"] = False
    return ok(I(c, 32), st)

@model("feof", "ferror")
def m_feof(E, st, ins, a, *r):
    o = getfile(E, st, a[0], E.curcallee)
    if o is None: return ok(I(fresh("feof", 0, 1), 32), st)
    e = o.attrs["eof"]
    if E.curcallee == "ferror": return ok(I(fresh("ferror", 0, 1), 32), st)
    return ok(i32(1 if e else 0), st)

@model("rewind")
def m_rewind(E, st, ins, a, *r):
    o = getfile(E, st, a[0], "rewind")
    if o is not None:
        w = st.w(o.id); w.attrs["pos"] = ZERO; w.attrs["eof"] = False
    return ok(None, st)

@model("ftell", "ftello")
def m_ftell(E, st, ins, a, *r):
    o = getfile(E, st, a[0], "ftell")
    return ok(i64(fresh("ftell", -1, 2**63 - 1)), st)

@model("fseek", "fseeko")
def m_fseek(E, st, ins, a, *r):
    o = getfile(E, st, a[0], "fseek")
    off = E.S(st, E.toint(st, a[1], 64))
    wh = E.toint(st, a[2], 32).p
    s = clone(E, st)
    set_errno(E, s)
    probe = off == ZERO and wh == const(1)
    if not probe: 
        ev(s, "io"); s.note(E.cur.loc, "fseek fails")
    outs = [("ok", i32(-1), s)]
    if o is not None:
        w = st.w(o.id)
        if wh == const(1):
            if not st.f.entails(off): E.report(st, "seekneg", "relative seek by an amount that may be negative (%r)" % off)
            w.attrs["pos"] = w.attrs["pos"] + off
            if E.trackbulk: w.attrs["bulk"] = w.attrs["bulk"] + off
        else: w.attrs["pos"] = fresh("pos", 0, 2**62)
        w.attrs["eof"] = False
    outs.append(("ok", i32(0), st))
    return outs

@model("fread")
def m_fread(E, st, ins, a, *r):
    o = getfile(E, st, a[3], "fread")
    sz = E.U(st, E.toint(st, a[1], 64)); n = E.U(st, E.toint(st, a[2], 64))
    tot = sz * n
    z = E.decide(st, ("eq", tot))
    if z is True: return ok(i64(ZERO), st)
    x = E.access(st, a[0], tot, True, "fread")
    outs = []
    eof = o.attrs["eof"] if o is not None else False
    if z is None:
        s = clone(E, st)
        if E.assume(s, ("eq", tot), True): outs.append(("ok", i64(ZERO), s))
        if not E.assume(st, ("ge", tot - 1), True): return outs
    # short
    s = clone(E, st)
    for kind, none in ((("eof", True),) if eof is True else (("eof", True), ("eof", False), ("io", False)) if sz == ONE and n.isconst() and n.c > 1 else
                       (("eof", False), ("io", False))):
        s = st.copy()
        if eof is True: rr = ZERO
        elif n == ONE or none: rr = ZERO
        else:
            rr = fresh("nread", 1 if kind == "eof" and n.isconst() else 0, 2**62)
            s.f.add(n - 1 - rr)
        if s.f.bot: continue
        w = s.w(o.id) if o is not None else None
        if w is not None:
            w.attrs["eof"] = kind == "eof"
            if eof is not True:
                if sz == ONE: w.attrs["pos"] = w.attrs["pos"] + rr
                else:
                    c = fresh("partial", 0, 2**62)
                    s.f.add(tot - 1 - c)
                    w.attrs["pos"] = w.attrs["pos"] + c
        if kind == "io": ev(s, "io")
        else: s.ghost[("ev", "eof")] = True
        s.note(E.cur.loc, "fread: %s" % ("premature end of file" if kind == "eof" else "read error"))
        if x and x[0].base != "uninit":
            E.fill(s, s.mem[x[0].id], x[1], tot, "unk")
        outs.append(("ok", i64(rr), s))
    if eof is True: return outs
    if o is not None:
        pos = o.attrs["pos"]
        w = st.w(o.id)
        if x:
            t = st.mem[x[0].id]
            if tot.isconst() and tot.c <= 64 and pos.isconst() and pos.c + tot.c <= 64:
                E.fill(st, t, x[1], tot, "unk")
                if not x[1].t:
                    t = st.w(x[0].id)
                    for i in range(tot.c):
                        t.cells[x[1].c + i] = (1, I(newbyte(E, st, st.mem[o.id], pos.c + i), 8))
            else:
                E.fill(st, t, x[1], tot, "unk")
        w = st.w(o.id)
        w.attrs["pos"] = pos + tot
        if E.trackbulk and not (tot.isconst() and tot.c <= 16): w.attrs["bulk"] = w.attrs["bulk"] + tot
    elif x: E.fill(st, x[0], x[1], tot, "unk")
    outs.append(("ok", i64(n), st))
    return outs

def parse_fmt(s):
    out = []; i = 0
    while i < len(s):
        c = s[i]
        if c.isspace():
            while i < len(s) and s[i].isspace(): i += 1
            out.append(("ws",)); continue
        if c != "%":
            out.append(("lit", c)); i += 1; continue
        m = re.match(r"%(\*?)(\d*)(hh|h|ll|l|z|j|t|L)?([a-zA-Z%\[])", s[i:])
        if not m: raise Unsupported("scanf format %r" % s)
        sup, wid, ln, cv = m.groups()
        i += m.end()
        if cv == "[":
            j = s.index("]", i + 1)
            i = j + 1
            cv = "s"
        if cv == "%": out.append(("lit", "%"))
        else: out.append(("conv", cv, ln or "", bool(sup), int(wid) if wid else None))
    return out

INTW = {"": 32, "h": 16, "hh": 8, "l": 64, "ll": 64, "z": 64, "j": 64, "t": 64}

def do_scanf(E, st, fo, fmt, args):
    items = parse_fmt(fmt)
    outs = []
    def fin(s, count, conv, kind):
        # kind: ok / match / eof / io
        if kind != "ok":
            if kind == "eof":
                if fo is not None: s.w(fo, False).attrs["eof"] = True
                s.ghost[("ev", "eof")] = True
            ev(s, "scan"); s.note(E.cur.loc, "fscanf(%r): %s" % (fmt, {"eof": "end of input", "match": "no match"}[kind]))
            v = -1 if kind == "eof" and conv == 0 else count
        else: v = count
        outs.append(("ok", i32(v), s))
    def touch(s, n=None):
        if fo is None: return
        w = s.w(fo)
        if n is None: 
            w.attrs["pos"] = w.attrs["pos"] + fresh("skipped", 0, 2**40)
        else: w.attrs["pos"] = w.attrs["pos"] + n
    count = conv = 0
    ai = 0
    if fo is not None and st.mem[fo].attrs["eof"] is True and items and items[0][0] != "ws":
        fin(st, 0, 0, "eof")
        return outs
    E.undecided += 1
    cur = st
    for it in items:
        if it[0] == "ws":
            touch(cur); continue
        if it[0] == "lit":
            s = cur.copy(); fin(s, count, conv, "eof")
            s = cur.copy()
            pos = cur.mem[fo].attrs["pos"] if fo is not None else None
            if pos is not None and pos.isconst() and pos.c < 64:
                b = newbyte(E, cur, cur.mem[fo], pos.c)
                s = cur.copy()
                if E.assume(s, ("eq", b - ord(it[1])), False): fin(s, count, conv, "match")
                if not E.assume(cur, ("eq", b - ord(it[1])), True): return outs
            else: fin(s, count, conv, "match")
            touch(cur, ONE); continue
        _, cv, ln, sup, wid = it
        s = cur.copy(); touch(s); fin(s, count, conv, "eof")
        if cv != "c" and cv != "s":
            s = cur.copy(); touch(s); fin(s, count, conv, "match")
        if cv == "c":
            pos = cur.mem[fo].attrs["pos"] if fo is not None else None
            v = newbyte(E, cur, cur.mem[fo], pos.c) if pos is not None and pos.isconst() and pos.c < 64 else fresh("ch", 0, 255)
            touch(cur, ONE)
            if not sup: E.store(cur, args[ai], 1, I(v, 8))
        elif cv in "diux":
            w = INTW[ln]
            lo, hi = (0, (1 << w) - 1) if cv in "ux" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            touch(cur)
            if not sup: E.store(cur, args[ai], w // 8, I(fresh("scan", lo, hi), w))
        elif cv in "feg":
            touch(cur)
            if not sup: E.store(cur, args[ai], 8 if ln == "l" else 4, FL())
        elif cv == "s":
            touch(cur)
            if not sup:
                if wid is None: E.report(cur, "oob", "unbounded %s conversion")
                x = E.access(cur, args[ai], wid + 1, True, "fscanf %%%ds" % wid)
                if x:
                    forced = cur.ghost.get("csp")
                    E.fill(cur, x[0], x[1], const(wid + 1), "unk")
                    w = cur.w(x[0].id)
                    if not x[1].t:
                        if forced is not None:
                            for i, c in enumerate(forced.encode() + b"\0"): w.cells[x[1].c + i] = (1, I(const(c), 8))
                            w.attrs["nul"] = x[1] + len(forced)
                        else:
                            w.attrs["nul"] = x[1] + wid
        else: raise Unsupported("scanf conversion %%%s" % cv)
        if not sup:
            ai += 1; count += 1
        conv += 1
    fin(cur, count, conv, "ok")
    return outs

@model("__isoc99_fscanf", "fscanf", "__isoc23_fscanf")
def m_fscanf(E, st, ins, a, *r):
    o = getfile(E, st, a[0], "fscanf")
    fmt = cstring(E, st, a[1])
    if fmt is None: raise Unsupported("fscanf with an unknown format")
    return do_scanf(E, st, o.id if o is not None else None, fmt.decode("latin1"), a[2:])

@model("__isoc99_sscanf", "sscanf")
def m_sscanf(E, st, ins, a, *r):
    chkstr(E, st, a[0], "sscanf")
    fmt = cstring(E, st, a[1])
    if fmt is None: raise Unsupported("sscanf with an unknown format")
    outs = do_scanf(E, st, None, fmt.decode("latin1"), a[2:])
    return outs

def prt(E, st, stream, fmt, args):
    s = cstring(E, st, fmt)
    return s

@model("printf", "fprintf", "vfprintf", "vprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "perror", "fflush", "snprintf", "sprintf", "vsnprintf")
def m_printf(E, st, ins, a, *r):
    n = E.curcallee
    for x in a:
        if x is UN: E.report(st, "uninit", "uninitialised argument of %s" % n)
    if n in ("fprintf", "vfprintf", "fflush") and E.isnull(st, a[0]) is True and n != "fflush": E.report(st, "null", "%s on a null stream" % n)
    fi = {"printf": 0, "fprintf": 1, "snprintf": 2, "sprintf": 1}.get(n)
    if n in ("snprintf",):
        sz = E.U(st, E.toint(st, a[1], 64))
        if E.decide(st, ("eq", sz)) is not True:
            x = E.access(st, a[0], sz, True, n)
            if x:
                E.fill(st, x[0], x[1], sz, "unk")
                st.w(x[0].id).attrs["nul"] = x[1] + sz - 1
    if fi is not None and len(a) > fi:
        s = cstring(E, st, a[fi])
        if s is not None:
            rest = a[fi + 1:]
            convs = [c for c in re.findall(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", s.decode("latin1")) if c[3] != "%"]
            if len(convs) + sum(c[0] == "*" for c in convs) + sum(c[1] == "*" for c in convs) > len(rest): E.report(st, "format", "%s with fewer arguments than conversions" % n, end=False)
            j = 0
            for c in convs:
                j += (c[0] == "*") + (c[1] == "*")
                if c[3] == "s" and j < len(rest):
                    if E.isnull(st, rest[j]) is True: E.report(st, "null", "%%s of a null pointer in %s" % n)
                    if isinstance(rest[j], P): chkstr(E, st, rest[j], "%s in " + n)
                j += 1
    st.ghost[("out", n if n not in ("printf", "puts", "putchar") else "stdout")] = True
    return ok(I(fresh("printed", 0, 2**31 - 1), 32), st)

# ------------------------------------------------------------ qsort
@model("qsort")
def m_qsort(E, st, ins, a, f, fid, b, idx):
    n = E.U(st, E.toint(st, a[1], 64)); sz = E.U(st, E.toint(st, a[2], 64))
    x = E.access(st, a[0], n * sz, True, "qsort")
    ck = ("cmp", a[3].name if isinstance(a[3], FN) else None, sz.c if sz.isconst() else None)
    if ck not in E.memo: E.memo[ck] = cmp_order(E, st, a[3], sz)
    order = E.memo[ck]
    if x:
        o, off = x
        if sz.isconst() and not off.t and o.regs and all(type(v) is Rec and v.es == sz.c for _, _, v in o.regs): recnorm(E, st, st.w(o.id, False), off, sz.c); o = st.mem[o.id]
        if not E.written(st, o, off, n * sz) and not recwritten(E, st, o, off, n * sz, sz, order):
            E.report(st, "uninit", "qsort of elements that are not certainly initialised", end=False)
        w = st.w(o.id)
        had = tuple((k - off.c, z, v) for k, (z, v) in sorted(w.cells.items()) if off.c <= k < off.c + sz.c) if not off.t and sz.isconst() else ()
        if w.regs and sz.isconst() and all(type(v) is Rec and v.es == sz.c for _, _, v in w.regs):
            v = None
            for _, _, x in w.regs: v = x if v is None else E.vjoin(st, v, x)
            if type(v) is Rec and order is not None and v.field(order[0], 4) is None:
                E.report(st, "uninit", "qsort of elements whose key is not certainly initialised", end=False)
            w.cells = {}; w.sym = {}; w.segs = ()
            w.regs = ((off, off + n * sz, v),)
            w.attrs["sorted"] = (order, repr(off), repr(n)); w.attrs["sortver"] = w.ver; w.attrs["had"] = had
            return ok(None, st)
        # elements are permuted: per field, any element may hold what any other held
        fields = {}
        okf = off.isconst() and sz.isconst() and sz.c <= 64
        def put(fo, size, v):
            nonlocal okf
            for (a, z) in list(fields):
                if (a, z) != (fo, size) and not (a + z <= fo or fo + size <= a): okf = False
            old = fields.get((fo, size))
            fields[(fo, size)] = v if old is None else E.vjoin(st, old, v)
        for k, (s_, v) in w.cells.items():
            if k >= off.c if okf else False: put((k - off.c) % sz.c, s_, v)
        if okf:
            for a0, stp, cnt, k, v, s_ in w.segs:
                if stp != sz or not a0.isconst(): okf = False; break
                put((a0.c - off.c) % sz.c, s_, v)
            if w.sym or w.regs: okf = False
        w.cells = {}; w.sym = {}
        if okf and fields:
            w.regs = ()
            w.segs = tuple((off + fo, sz, n, ZERO, v, s_) for (fo, s_), v in sorted(fields.items()))
        else:
            w.segs = (); w.regs = ((off, off + n * sz, "unk"),)
        w.attrs["sorted"] = (order, repr(off), repr(n))
        w.attrs["sortver"] = w.ver; w.attrs["had"] = had
    return ok(None, st)

def recnorm(E, st, w, off, es):
    """records known only by exact values get a region too"""
    out = {}
    for k, (z, v) in sorted(w.cells.items()):
        if any(st.f.entails(const(k) - lo) and st.f.entails(hi - k - z) for lo, hi, _ in w.regs): continue
        if v is UN or k < off.c or not all(st.f.entails(const(k + z) - lo) or st.f.entails(hi - k) for lo, hi, _ in w.regs): return
        fo = (k - off.c) % es
        if fo + z > es: return
        out.setdefault(k - fo, []).append((fo, z, E.regval(st, v)))
    regs = list(w.regs)
    for b, f in out.items(): regs.append((const(b), const(b + es), Rec(es, f)))
    w.regs = E.mergeregs(regs, st)

def recwritten(E, st, o, off, n, sz, order):
    """only padding of the records is missing"""
    if o.regs or order is None or not sz.isconst() or off.t: return False
    t = o.copy()
    t.cells = {k: v for k, v in o.cells.items() if off.c <= k and v[1] is not UN}
    E.torec(t, sz.c)
    return all(type(v) is Rec and v.field(order[0], 4) is not None for _, _, v in t.regs) and E.written(st, t, off, n)

def cmp_order(E, st, fnp, sz):
    """(field offset, 'desc'/'asc') when the comparator orders records by one float field"""
    if not isinstance(fnp, FN) or not sz.isconst(): return None
    fn = E.prog.funcs.get(fnp.name)
    if fn is None or fn.decl: return None
    res = None
    for foff in range(0, sz.c - 3, 4):
        s = st.copy()
        objs = []
        for nm in "ab":
            o = mkobj("stack", "record " + nm, sz.c, "unk", None)
            o.const = False
            v = FL(-1.0, FLT_MAX, False)
            o.cells[foff] = (4, v)
            s.new(o); objs.append((o.id, v))
        try:
            outs = E.call_function(s, fnp.name, [P(objs[0][0]), P(objs[1][0])])
        except (Unsupported, PathEnd): return None
        good = bool(outs)
        kinds = set()
        for o in outs:
            if o[0] != "ret" or not isinstance(o[1], I): good = False; break
            q = o[2]
            rel = None
            va, vb = objs[0][1], objs[1][1]
            if E.fdecide(q, "ogt", va, vb) is True: rel = 1
            elif E.fdecide(q, "olt", va, vb) is True: rel = -1
            elif E.fdecide(q, "oeq", va, vb) is True: rel = 0
            p = E.S(q, o[1])
            sg = 0 if E.decide(q, ("eq", p)) is True else (1 if E.decide(q, ("ge", p - 1)) else (-1 if E.decide(q, ("ge", -p - 1)) else None))
            if rel is None or sg is None: good = False; break
            if rel == 0:
                if sg != 0: good = False; break
            elif sg == 0: good = False; break
            else: kinds.add(rel * sg)
        if good and len(kinds) == 1:
            return (foff, "desc" if kinds == {-1} else "asc")
    return None

# ------------------------------------------------------------ driver primitives
def cstrarg(E, st, v):
    s = cstring(E, st, v)
    return s.decode() if s is not None else "?"

@model("__sa_size")
def m_sa_size(E, st, ins, a, *r):
    return ok(i64(fresh("n", 0, 2**64 - 1)), st)

@model("__sa_int")
def m_sa_int(E, st, ins, a, *r):
    return ok(I(fresh("i", -2**31, 2**31 - 1), 32), st)

@model("__sa_bool")
def m_sa_bool(E, st, ins, a, *r):
    return ok(B(("b", newsym("nondet", 0, 1))), st)

@model("__sa_float")
def m_sa_float(E, st, ins, a, *r):
    return ok(FL(), st)

@model("__sa_same")
def m_sa_same(E, st, ins, a, *r):
    """are both the very same floating value?"""
    x, y = a[0], a[1]
    good = isinstance(x, FL) and isinstance(y, FL) and (x.id == y.id or x.ex == y.ex or set(E.fposs(st, x, y)) == {"E"})
    return ok(bconst(good), st)

@model("__sa_u8")
def m_sa_u8(E, st, ins, a, *r):
    return ok(I(fresh("u8", 0, 255), 8), st)

@model("__sa_string")
def m_sa_string(E, st, ins, a, *r):
    return ok(extstr(E, st, cstrarg(E, st, a[0])), st)

@model("__sa_assume")
def m_sa_assume(E, st, ins, a, *r):
    c = E.cond(st, a[0])
    d = E.decide(st, c)
    if d is False or (d is None and not E.assume(st, c, True)): raise PathEnd()
    return ok(None, st)

@model("__sa_array")
def m_sa_array(E, st, ins, a, *r):
    """caller-owned array of n bytes with arbitrary contents"""
    n = E.U(st, E.toint(st, a[0], 64))
    if not st.f.add(const(2**63 - 1) - n): raise PathEnd()
    o = mkobj("root", cstrarg(E, st, a[1]), n, "unk")
    st.new(o)
    return ok(P(o.id), st)

@model("__sa_readonly")
def m_sa_ro(E, st, ins, a, *r):
    st.w(a[0].o).attrs["readonly"] = True
    return ok(None, st)

@model("__sa_hull")
def m_sa_hull(E, st, ins, a, *r):
    """declare contents of the float/double array at p: lo <= v <= hi, not NaN"""
    w = st.w(a[0].o)
    lo, hi = fl(a[1]).lo, fl(a[2]).hi
    w.cells = {}; w.sym = {}; w.regs = (); w.base = FL(lo, hi, False)
    return ok(None, st)

@model("__sa_hull_upto")
def m_sa_hull_upto(E, st, ins, a, *r):
    """the floating array at p holds arbitrary values in 0..n"""
    if not isinstance(a[0], P) or a[0].o not in st.mem: return ok(None, st)
    n = E.U(st, E.toint(st, a[1], 64))
    h = st.f.iv(n)[1]
    w = st.w(a[0].o)
    w.cells = {}; w.sym = {}; w.regs = (); w.base = FL(0.0, float(h), False, lb=ZERO, ub=n)
    return ok(None, st)

@model("__sa_all_upto")
def m_sa_all_upto(E, st, ins, a, *r):
    if not isinstance(a[0], P) or a[0].o not in st.mem: return ok(bconst(E.isnull(st, a[0]) is True), st)
    n = E.U(st, E.toint(st, a[1], 64))
    o = st.mem[a[0].o]
    h = E.hull(st, o, ZERO, o.size)
    if h is None: return ok(bconst(False), st)
    lo, hi, nan = E.frng(st, h)
    return ok(bconst(not nan and lo >= 0 and (h.ub is not None and st.f.entails(n - h.ub) or st.f.entails(n - int(hi)) if hi < INF else False)), st)

@model("__sa_assert")
def m_sa_assert(E, st, ins, a, *r):
    tag = cstrarg(E, st, a[1])
    v = a[0]
    if v is UN: 
        E.report(st, "assert", tag + " (value is uninitialised)", tag=tag, end=False)
        return ok(None, st)
    c = E.cond(st, v)
    E.stats["asserts"][tag] = E.stats["asserts"].get(tag, 0) + 1
    d = E.decide(st, c)
    if d is not True:
        if d is None:
            s = st.copy()
            if not E.assume(s, c, False): return ok(None, st)
        E.report(st, "assert", tag, tag=tag, end=False)
        if d is False: raise PathEnd()
        if not E.assume(st, c, True): raise PathEnd()
    return ok(None, st)

@model("__sa_written")
def m_sa_written(E, st, ins, a, *r):
    """whole [p, p+n) certainly written"""
    p = a[0]; n = E.U(st, E.toint(st, a[1], 64))
    if not isinstance(p, P) or p.o not in st.mem: return ok(bconst(False), st)
    return ok(bconst(E.written(st, st.mem[p.o], p.off, n)), st)

@model("__sa_fresh")
def m_sa_fresh(E, st, ins, a, *r):
    """forget what the buffer holds (so that __sa_written speaks about the next call)"""
    p = a[0]
    if isinstance(p, P) and p.o in st.mem:
        w = st.w(p.o)
        w.cells = {}; w.sym = {}; w.regs = (); w.segs = (); w.base = "uninit"
    return ok(None, st)

@model("__sa_finite")
def m_sa_finite(E, st, ins, a, *r):
    """all floats in [p, p+n) are finite"""
    p = a[0]; n = E.U(st, E.toint(st, a[1], 64))
    if not isinstance(p, P) or p.o not in st.mem: return ok(bconst(False), st)
    h = E.hull(st, st.mem[p.o], p.off, n)
    if h is None: return ok(bconst(False), st)
    lo, hi, nan = E.frng(st, h)
    return ok(bconst(not nan and lo > -INF and hi < INF), st)

@model("__sa_alloc_size_is")
def m_sa_asz(E, st, ins, a, *r):
    p = a[0]; n = E.U(st, E.toint(st, a[1], 64))
    if not isinstance(p, P) or p.o not in st.mem: return ok(bconst(False), st)
    o = st.mem[p.o]
    return ok(bconst(st.f.entails(o.size - n) and st.f.entails(n - o.size)), st)

@model("__sa_alloc_size_ge")
def m_sa_asz2(E, st, ins, a, *r):
    p = a[0]; n = E.U(st, E.toint(st, a[1], 64))
    if not isinstance(p, P) or p.o not in st.mem: return ok(bconst(False), st)
    return ok(bconst(st.f.entails(st.mem[p.o].size - n)), st)

@model("__sa_ev_reset")
def m_sa_evr(E, st, ins, a, *r):
    for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] == "ev"]: del st.ghost[k]
    for oid, o in list(st.mem.items()):
        if o.kind == "png" and o.alive: E.store(st, P(oid, const(1 << 40)), 8, I(ZERO, 64))
        if o.kind == "FILE" and o.alive: st.w(oid, False).attrs["mark"] = o.attrs["pos"]; st.w(oid, False).attrs["bmark"] = o.attrs["bulk"]
    return ok(None, st)

@model("__sa_continue")
def m_sa_cont(E, st, ins, a, *r):
    """analyse fn(args) on its own from here; the calling frames are gone"""
    args = list(a[1:])
    st.env = {}; st.stack = (); st.jmps = {}
    for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] == "jsnap"]: del st.ghost[k]
    for oid, o in list(st.mem.items()):
        if o.frame is not None and o.frame in st.frames: st.w(oid).alive = False
    st.frames = ()
    E.gc(st, args)
    E.conts.append((a[0].name, args, st))
    return []

@model("__sa_opaque")
def m_sa_opaque(E, st, ins, a, *r):
    """forget how the products in memory are computed, but for small multiples of the argument: each becomes a value of
    its own, of which its range, which sizes reach it and the sums that stay below SSIZE_MAX are kept"""
    F = st.f
    base = a[0].p
    cells = [(v.p, oid) for oid, o in st.mem.items() for s, v in o.cells.values() if isinstance(v, I)]
    cells += [(o.size, oid) for oid, o in st.mem.items() if o.size is not None]
    def quot(p): return any(SYMS[s].div is not None for s in p.syms())
    sizes = {o.size for o in st.mem.values() if o.size is not None}
    live = set()
    for p, _ in cells: live |= p.syms()
    pins = {}
    for d in sorted(live):
        if SYMS[d].div is None: continue
        l, h = F.iv(sym(d))
        if h - l == 1: raise Fork([[(("eq", sym(d) - l), True)], [(("eq", sym(d) - h), True)]], "quotient")
        if h == l:
            pin = {d: const(int(l))}; pins.update(pin)
            for oid, o in list(st.mem.items()):
                if o.size is not None and d in o.size.syms(): st.w(oid, False).size = o.size.subst(pin)
                if any(isinstance(v, I) and d in v.p.syms() for s, v in o.cells.values()):
                    w = st.w(oid); w.cells = {k: (s, I(v.p.subst(pin), v.w) if isinstance(v, I) else v) for k, (s, v) in w.cells.items()}
    if pins:
        old = list(F.f); F._cache = {}; F.f.clear()
        for d in {s for f in old for s in f.syms()}:
            if SYMS[d].div is not None and d not in pins:
                n, m = (x.subst(pins) for x in SYMS[d].div)
                if not n.t and not m.t and m.c > 0: pins[d] = const(n.c // m.c)
        for f in old: F.add(f.subst(pins))
        if F.bot: return []
    cells = [(v.p, oid) for oid, o in st.mem.items() for s, v in o.cells.values() if isinstance(v, I)]
    cells += [(o.size, oid) for oid, o in st.mem.items() if o.size is not None]
    sizes = {o.size for o in st.mem.values() if o.size is not None}
    def multiple(p): return any(p == base * k for k in (1, 2)) or p == base * 4 and p in sizes
    vals = {}
    for p, _ in cells:
        if p in vals or not p.t or multiple(p): continue
        if quot(p) or any(len(m) > 1 for m in p.t) and p.syms() <= base.syms():
            if not F.entails(p): continue
            vals[p] = fresh("product", 0, (1 << 64) - 1)
    rel = [const((1 << 63) - 1) - v for p, v in vals.items() if F.entails(const((1 << 63) - 1) - p)]
    every = list(vals) + [base, base * 2]
    for x in every:
        for y in every:
            if x is y or x not in vals and y not in vals: continue
            vx, vy = vals.get(x, x), vals.get(y, y)
            if x in sizes and F.entails(x - y): rel.append(vx - vy)
            if F.entails(const((1 << 63) - 1) - x - y): rel.append(const((1 << 63) - 1) - vx - vy)
    for oid, o in list(st.mem.items()):
        if o.size is not None and o.size in vals: st.w(oid, False).size = vals[o.size]
        if any(isinstance(v, I) and v.p in vals for s, v in o.cells.values()):
            w = st.w(oid); w.cells = {k: (s, I(vals[v.p], v.w) if isinstance(v, I) and v.p in vals else v) for k, (s, v) in w.cells.items()}
    live = set()
    for o in st.mem.values(): E.obj_syms(o, live)
    old = list(F.f); F._cache = {}
    neq = F.neq; F.neq = ()
    F.f.clear()
    gone = lambda p: any(SYMS[s].div is not None and s not in live for s in p.syms())
    for f in old + rel:
        if not gone(f) and not F.add(f): break
    for q in neq:
        if not gone(q): F.add_neq(q)
    return ok(None, st)

@model("__sa_ev_end")
def m_sa_eve(E, st, ins, a, *r):
    """forget the events and stream positions of the step that ends here"""
    for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] == "ev"]: del st.ghost[k]
    for oid, o in list(st.mem.items()):
        if o.kind == "png" and o.alive: E.store(st, P(oid, const(1 << 40)), 8, I(ZERO, 64))
        if o.kind == "FILE" and o.alive and "mark" in o.attrs:
            w = st.w(oid, False); del w.attrs["mark"]; del w.attrs["bmark"]
    E.settle(st, force=True)
    return ok(None, st)

@model("__sa_ev")
def m_sa_ev(E, st, ins, a, *r):
    n = cstrarg(E, st, a[0])
    return ok(bconst(any(st.ghost.get(("ev", x)) for x in n.split("|"))), st)

@model("__sa_untouched")
def m_sa_unt(E, st, ins, a, *r):
    """no byte was consumed from any stream since __sa_ev_reset"""
    good = True
    for oid, o in st.mem.items():
        if o.kind == "FILE" and o.alive:
            m = o.attrs.get("mark")
            if m is None or not E.eqz(st, o.attrs["pos"] - m): good = False
    return ok(bconst(good), st)

@model("__sa_bulk_is")
def m_sa_bulk(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[0], 64))
    good = False
    for oid, o in st.mem.items():
        if o.kind == "FILE" and o.alive and not (o.attrs.get("std")):
            m = o.attrs.get("bmark", ZERO)
            good = E.eqz(st, o.attrs["bulk"] - m - n)
    return ok(bconst(good), st)

@model("__sa_prefix")
def m_sa_prefix(E, st, ins, a, *r):
    """the most recently opened stream is known to start with these bytes"""
    s = cstring(E, st, a[0])
    best = None
    for oid, o in st.mem.items():
        if o.kind == "FILE" and o.alive and any(isinstance(k, tuple) and k[0] == "byte" for k in o.attrs): best = o
    if best is None: return ok(bconst(False), st)
    for i, c in enumerate(s):
        b = best.attrs.get(("byte", i))
        if b is None or not E.eqz(st, b - c): return ok(bconst(False), st)
    return ok(bconst(True), st)

@model("__sa_ghost")
def m_sa_ghost(E, st, ins, a, *r):
    st.ghost[cstrarg(E, st, a[0])] = cstrarg(E, st, a[1])
    return ok(None, st)

@model("__sa_sorted_desc")
def m_sa_sorted(E, st, ins, a, *r):
    """the n records of size sz at p are in descending order of the float at offset off"""
    p = a[0]; n = E.U(st, E.toint(st, a[1], 64)); sz = a[2].p; off = a[3].p
    if not isinstance(p, P) or p.o not in st.mem: return ok(bconst(False), st)
    if E.decide(st, ("ge", ONE - n)) is True: return ok(bconst(True), st)
    o = st.mem[p.o]
    t = o.attrs.get("sorted")
    good = t is not None and t[0] == (off.c, "desc") and t[1] == repr(p.off) and o.attrs.get("sortver") == o.ver
    if good:
        # same number of elements
        good = t[2] == repr(n) or t[2] == repr(n)
    return ok(bconst(good), st)

def fresh_sort(st, p):
    """attributes of an object sorted and not written since"""
    if not isinstance(p, P) or p.o not in st.mem or p.off != ZERO: return None
    o = st.mem[p.o]
    return o if o.attrs.get("sortver") == o.ver else None

@model("__sa_contains")
def m_sa_contains(E, st, ins, a, *r):
    """some record at p has the integer and the float given, at these offsets"""
    o = fresh_sort(st, a[0])
    oi, n, of, x = a[1].p.c, E.U(st, E.toint(st, a[2], 64)), a[3].p.c, a[4]
    if o is not None: have = o.attrs.get("had", ())
    elif isinstance(a[0], P) and a[0].o in st.mem: have = [(k, z, v) for k, (z, v) in st.mem[a[0].o].cells.items()]
    else: have = ()
    good = any(k == oi and isinstance(v, I) and E.decide(st, ("eq", v.p - n)) is True for k, z, v in have) and \
           any(k == of and isinstance(v, FL) and E.fdecide(st, "oeq", v, x) is True for k, z, v in have)
    return ok(bconst(good), st)

@model("__sa_field_within")
def m_sa_field_within(E, st, ins, a, *r):
    """the float at this offset of each record of p lies in [lo, hi]"""
    p = a[0]
    if not isinstance(p, P) or p.o not in st.mem: return ok(bconst(False), st)
    o = st.mem[p.o]; fo = a[1].p.c
    vals = []
    for lo, hi, v in o.regs: vals.append(v.field(fo, 4) if type(v) is Rec else None)
    for k, (z, v) in o.cells.items():
        es = recsize(o)
        if not es or k % es == fo: vals.append(v)
    for off, (z, v) in o.sym.items():
        if isinstance(v, FL): vals.append(v)
    for a0, stp, cnt, k, v, z in o.segs:
        if not a0.isconst() or not stp.isconst() or a0.c % stp.c == fo: vals.append(v)
    def inside(v):
        if not isinstance(v, FL): return False
        l, h, n = E.frng(st, v)
        return not n and l >= a[1 + 1].lo and h <= a[3].hi
    return ok(bconst(bool(vals) and all(inside(v) for v in vals)), st)

@model("__sa_file_closed")
def m_sa_closed(E, st, ins, a, *r):
    return ok(bconst(not any(o.kind == "FILE" and o.alive and o.attrs.get("owned") for o in st.mem.values())), st)

@model("__sa_dump")
def m_sa_dump(E, st, ins, a, *r):
    import sys
    sys.stderr.write("DUMP %s\n" % (a,))
    for oid, o in sorted(st.mem.items()):
        if o.kind != "global": sys.stderr.write("  %r base=%r regs=%r sym=%r segs=%r\n" % (o, o.base, o.regs, o.sym, o.segs))
    sys.stderr.write("  facts %s\n  bounds %s\n" % (list(st.f.f), {SYMS[s].name: b for s, b in st.f.b.items()}))
    return ok(None, st)

# ------------------------------------------------------------ FFTW
@model("fftwf_alloc_real", "fftw_alloc_real")
def m_fftw_alloc(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[0], 64))
    return alloc(E, st, n * (4 if "fftwf" in E.curcallee else 8), "uninit", "fftw")

@model("fftwf_malloc")
def m_fftw_malloc(E, st, ins, a, *r):
    return alloc(E, st, E.U(st, E.toint(st, a[0], 64)), "uninit", "fftw")

@model("fftwf_free", "fftw_free")
def m_fftw_free(E, st, ins, a, *r):
    dofree(E, st, a[0], "fftw", "fftw_free")
    return ok(None, st)

@model("fftwf_plan_r2r_2d", "fftw_plan_r2r_2d")
def m_fftw_plan(E, st, ins, a, *r):
    es = 4 if "fftwf" in E.curcallee else 8
    n0 = E.S(st, E.toint(st, a[0], 32)); n1 = E.S(st, E.toint(st, a[1], 32))
    for v in (n0, n1):
        if not st.f.entails(v - 1): E.report(st, "fftw", "plan with a dimension that may not be positive (%r)" % v, end=False)
    tot = n0 * n1 * es
    E.access(st, a[2], tot, True, "FFTW plan"); E.access(st, a[3], tot, True, "FFTW plan")
    s = clone(E, st)
    ev(s, "internal"); s.note(E.cur.loc, "no plan")
    o = mkobj("plan", "FFTW plan", None, "unk", site=site(E))
    o.attrs.update(owned=True, fam="plan", inp=a[2], outp=a[3], tot=tot, es=const(es))
    st.new(o)
    return [("ok", NULL, s), ("ok", P(o.id), st)]

def wanted(E, st, p, kind, what):
    if p is UN: E.report(st, "uninit", "%s of an uninitialised pointer" % what)
    if E.isnull(st, p) is True: E.report(st, "null", "%s of a null pointer" % what)
    if not isinstance(p, P): return None
    o = st.mem.get(p.o)
    if o is None or not o.alive: E.report(st, "uaf", "%s after it was released" % what)
    if o.kind != kind: E.report(st, "oob", "%s of something else (%s)" % (what, o.label))
    return o

@model("fftwf_execute", "fftw_execute")
def m_fftw_exec(E, st, ins, a, *r):
    o = wanted(E, st, a[0], "plan", "execution of a plan")
    if o is not None:
        E.access(st, o.attrs["inp"], o.attrs["tot"], False, "FFTW input")
        x = E.access(st, o.attrs["outp"], o.attrs["tot"], True, "FFTW output")
        i = st.mem.get(o.attrs["inp"].o) if isinstance(o.attrs["inp"], P) else None
        if i is not None and not E.written(st, i, o.attrs["inp"].off, o.attrs["tot"]):
            E.report(st, "uninit", "transform of samples that are not certainly written", end=False)
        if x: E.fill(st, x[0], x[1], o.attrs["tot"], FL())
        if i is not None: st.ghost["transforms"] = True
    return ok(None, st)

@model("fftwf_destroy_plan", "fftw_destroy_plan")
def m_fftw_destroy(E, st, ins, a, *r):
    if E.isnull(st, a[0]) is True: E.report(st, "null", "fftw_destroy_plan(NULL)")
    o = wanted(E, st, a[0], "plan", "destruction of a plan")
    if o is not None: release(E, st, o.id)
    return ok(None, st)

# ------------------------------------------------------------ kissfft (contract used by the transform backend)
@model("kiss_fftr_alloc")
def m_kissr_alloc(E, st, ins, a, *r):
    n = E.S(st, E.toint(st, a[0], 32))
    if not st.f.entails(n - 1): E.report(st, "kiss", "kiss_fftr_alloc with a size that may not be positive (%r)" % n, end=False)
    outs = alloc(E, st, const(64), "unk")
    for o in outs:
        if isinstance(o[1], P) and o[1].o: 
            w = o[2].w(o[1].o); w.attrs["nfft"] = n; w.label = "kiss_fftr state"
    return outs

@model("kiss_fftr")
def m_kissr(E, st, ins, a, *r):
    if E.isnull(st, a[0]) is True or a[0] is UN: E.report(st, "null", "kiss_fftr with a null configuration")
    if isinstance(a[0], P):
        o = st.mem.get(a[0].o)
        if o is None or not o.alive: E.report(st, "uaf", "kiss_fftr with a released configuration")
        n = o.attrs.get("nfft")
        if n is None: E.report(st, "oob", "kiss_fftr with something that is not a configuration")
        x = E.access(st, a[1], n * 4, False, "kiss_fftr input")
        if x and not E.written(st, x[0], x[1], n * 4): E.report(st, "uninit", "kiss_fftr input is not certainly initialised", end=False)
        h = divsym(n, const(2))
        y = E.access(st, a[2], (h + 1) * 8, True, "kiss_fftr output")
        if y: E.fill(st, y[0], y[1], (h + 1) * 8, FL())
    return ok(None, st)

import models_ext

@model("__sa_fill")
def m_sa_fill(E, st, ins, a, *r):
    """write n bytes of arbitrary floats at p"""
    n = E.U(st, E.toint(st, a[1], 64))
    x = E.access(st, a[0], n, True, "frame written")
    if x: E.fill(st, x[0], x[1], n, FL())
    return ok(None, st)

@model("__sa_use")
def m_sa_use(E, st, ins, a, *r):
    """read n bytes at p, which must all have been written"""
    n = E.U(st, E.toint(st, a[1], 64))
    x = E.access(st, a[0], n, False, "frame read")
    if x and not E.written(st, st.mem[x[0].id], x[1], n):
        E.report(st, "uninit", "frame read before it was completely written", end=False)
    return ok(None, st)
