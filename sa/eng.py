"""Abstract interpreter over -O0 LLVM IR.

State = typestate of every abstract object + contents (cells, initialised regions with value hulls)
 + linear facts over symbolic values (num.py).  States are partitioned by trace inside acyclic code;
at loop heads they are generalised (induction-variable closed forms, widened hulls, candidate
invariants filtered until inductive), so that every loop is covered for any number of iterations.
Calls are analysed in context; external functions through the models in models.py."""
import math, sys, struct, os, time
from num import *
import num as N
import merge, heapq

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- values
class I:
    __slots__ = ("p", "w")
    def __init__(self, p, w):
        self.p = p; self.w = w
    def __eq__(self, o): return isinstance(o, I) and self.w == o.w and self.p == o.p
    def __hash__(self): return hash((1, self.p, self.w))
    def __repr__(self): return "i%d(%r)" % (self.w, self.p)

class P:
    __slots__ = ("o", "off", "gen")
    def __init__(self, o, off=ZERO, gen=0):
        self.o = o; self.off = off; self.gen = gen
    def __eq__(self, x): return isinstance(x, P) and self.o == x.o and self.off == x.off and self.gen == x.gen
    def __hash__(self): return hash((2, self.o, self.off, self.gen))
    def __repr__(self): return "NULL" if self.o == 0 and self.off == ZERO else "&%s+%r" % (self.o, self.off)

class FN:
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
    def __eq__(self, o): return isinstance(o, FN) and o.name == self.name
    def __hash__(self): return hash((3, self.name))
    def __repr__(self): return "@" + self.name

class XP:
    """pointer the analysis knows nothing about (kept by external code)"""
    __slots__ = ("id", "nn")
    def __init__(self, id, nn=False): self.id = id; self.nn = nn
    def __eq__(self, o): return isinstance(o, XP) and o.id == self.id
    def __hash__(self): return hash((4, self.id))
    def __repr__(self): return "ext%d" % self.id

class UNT:
    def __repr__(self): return "uninit"
UN = UNT()

class B:
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
    def __eq__(self, o): return isinstance(o, B) and o.c == self.c
    def __hash__(self): return hash((5, self.c))
    def __repr__(self): return "b%r" % (self.c,)

class AG:
    __slots__ = ("v",)
    def __init__(self, v): self.v = tuple(v)
    def __eq__(self, o): return isinstance(o, AG) and o.v == self.v
    def __hash__(self): return hash((6, self.v))
    def __repr__(self): return "agg%r" % (self.v,)

_flid = [0]
class FL:
    """floating value: interval [lo,hi], may-be-NaN, optional polynomial bounds lb <= v <= ub,
    exact integer value num, structural expression ex"""
    __slots__ = ("id", "lo", "hi", "nan", "lb", "ub", "num", "ex")
    def __init__(self, lo=-INF, hi=INF, nan=True, lb=None, ub=None, num=None, ex=None):
        _flid[0] += 1
        self.id = _flid[0]
        self.lo = lo; self.hi = hi; self.nan = nan; self.lb = lb; self.ub = ub; self.num = num
        self.ex = ex if ex is not None else ("f", self.id)
    def same(self, o):
        return isinstance(o, FL) and (self.lo, self.hi, self.nan, self.lb, self.ub) == (o.lo, o.hi, o.nan, o.lb, o.ub)
    def __repr__(self):
        s = "[%g,%g%s]" % (self.lo, self.hi, ",nan" if self.nan else "")
        if self.ub is not None: s += "<=%r" % self.ub
        return s

class Rec:
    """contents of an array of records: per field (offset, size, value summary)"""
    __slots__ = ("es", "f")
    def __init__(self, es, f): self.es = es; self.f = tuple(f)
    def layout(self): return tuple((a, z) for a, z, v in self.f)
    def __eq__(self, o):
        return type(o) is Rec and self.es == o.es and len(self.f) == len(o.f) and all(
            a == c and z == y and (v is w or (v.same(w) if isinstance(v, FL) else v == w)) for (a, z, v), (c, y, w) in zip(self.f, o.f))
    def __hash__(self): return hash((self.es, self.layout()))
    def __repr__(self): return "rec%d%r" % (self.es, self.f)
    def complete(self):
        """only padding is missing"""
        p = 0
        for a, z, v in self.f:
            if v is UN or v == "uninit" or a - p >= 8 or a - p >= z and a > p: return False
            p = a + z
        return self.es - p < 8
    def field(self, fo, size):
        for a, z, v in self.f:
            if a == fo and z == size: return v
        return None

def recsize(o):
    """element size of an array of records (allocated as a multiple of it), or 0"""
    if o.kind != "heap" or o.size is None or not o.size.t: return 0
    g = abs(o.size.c)
    for c in o.size.t.values(): g = math.gcd(g, abs(c))
    return g if 8 < g <= 64 and g % 4 == 0 else 0

def recoff(o, off, size):
    """(start of the record, offset in it) of an access to one field"""
    es = recsize(o)
    if not es or any(c % es for c in off.t.values()): return None
    fo = off.c % es
    return (off - fo, fo) if fo + size <= es else None

NULL = P(0)
TRUE = ("c", True); FALSE = ("c", False)
TOP = "<top>"

def bconst(b): return B(TRUE if b else FALSE)
def cnot(c):
    if c[0] == "c": return FALSE if c[1] else TRUE
    if c[0] == "not": return c[1]
    return ("not", c)

# ---------------------------------------------------------------- objects
_oid = [0]
_ver = [0]
def nextver():
    _ver[0] += 1
    return _ver[0]

class Obj:
    __slots__ = ("id", "kind", "label", "size", "cells", "sym", "regs", "base", "alive", "attrs", "gen", "segs",
                 "const", "frame", "tok", "ver", "data", "vol", "site", "crefs", "cshape", "csyms")
    def copy(self):
        o = Obj.__new__(Obj)
        o.crefs = o.cshape = o.csyms = None
        o.id = self.id; o.kind = self.kind; o.label = self.label; o.size = self.size
        o.cells = dict(self.cells); o.sym = dict(self.sym); o.regs = self.regs; o.base = self.base
        o.alive = self.alive; o.attrs = dict(self.attrs); o.gen = self.gen; o.segs = self.segs
        o.const = self.const; o.frame = self.frame; o.ver = self.ver; o.data = self.data; o.vol = self.vol; o.site = self.site
        return o
    def __repr__(self):
        return "<%s %s#%d size=%r%s %r %r>" % (self.kind, self.label, self.id, self.size, "" if self.alive else " DEAD", self.cells, self.attrs)

def scoped(f):
    """locals whose lifetime is marked"""
    r = getattr(f, "scopedset", None)
    if r is None:
        r = f.scopedset = {i.ops[1][1] for b in f.blocks for i in b if i.op == "call" and i.d["callee"][0] == "g" and i.d["callee"][1].startswith("llvm.lifetime.start") and i.ops[1][0] == "v"}
    return r

def mkobj(kind, label, size, base, frame=None, site=None):
    o = Obj()
    o.crefs = o.cshape = o.csyms = None
    _oid[0] += 1
    o.id = _oid[0]; o.kind = kind; o.label = label; o.size = size if isinstance(size, Poly) or size is None else const(size)
    o.cells = {}; o.sym = {}; o.regs = (); o.base = base; o.alive = True; o.attrs = {}; o.gen = 0; o.segs = ()
    o.const = False; o.frame = frame; o.tok = None; o.ver = nextver(); o.data = None; o.vol = False; o.site = site
    return o

class State:
    __slots__ = ("f", "mem", "env", "stack", "frames", "ghost", "unk", "fr", "ford", "tr", "tok", "jmps", "path", "dead", "it")
    def __init__(self):
        self.f = Facts(); self.mem = {}; self.env = {}; self.stack = (); self.frames = (); self.ghost = {}
        self.unk = {}; self.fr = {}; self.ford = {}; self.tr = None; self.tok = object(); self.jmps = {}; self.path = (); self.dead = False; self.it = None
    def copy(self):
        o = State.__new__(State)
        o.f = self.f.copy(); o.mem = dict(self.mem); o.env = dict(self.env); o.stack = self.stack; o.frames = self.frames
        o.ghost = dict(self.ghost); o.unk = dict(self.unk); o.fr = dict(self.fr); o.ford = dict(self.ford); o.tr = self.tr
        self.tok = object(); o.tok = object(); o.jmps = dict(self.jmps); o.path = self.path; o.dead = self.dead; o.it = self.it
        return o
    def w(self, oid, bump=True):
        o = self.mem[oid]
        if o.tok is not self.tok:
            o = o.copy(); o.tok = self.tok
            self.mem[oid] = o
        else:
            o.crefs = o.cshape = o.csyms = None
        if bump:
            o.ver = nextver()
        return o
    def new(self, o):
        o.tok = self.tok
        self.mem[o.id] = o
        return o
    def note(self, loc, text):
        self.tr = (self.tr, loc, text)

STRICT = os.environ.get("SA_STRICT")

FCONST = {}
class Fork(Exception):
    def __init__(self, alts, why=""):
        self.alts = alts; self.why = why
class PathEnd(Exception):
    pass
class LongJmp(Exception):
    def __init__(self, key, val): self.key = key; self.val = val
class Unsupported(Exception):
    pass
class Budget(Exception):
    pass

class Finding:
    def __init__(self, rule, func, loc, msg, trace, entry, tag=None):
        self.rule = rule; self.func = func; self.loc = loc; self.msg = msg; self.trace = trace; self.entry = entry; self.tag = tag
    hard = True
    def key(self):
        return (self.rule, self.func, tuple(self.loc or ()), self.msg, self.tag, self.entry)
    def __repr__(self):
        return "%s %s %s: %s" % (self.rule, self.func, self.loc, self.msg)

SIGNATURES = (b"P5", b"Pf", b"PF", b"YUV4MPEG2 ", b"\x89PNG\r\n\x1a\n")
FLT_MAX = 3.4028234663852886e38

class Engine:
    def __init__(self, prog, models, entry="", overrides=None):
        self.prog = prog; self.models = models; self.entry = entry
        self.findings = {}
        self.sink = self.findings
        self.mute = 0
        self.overrides = overrides or {}
        self.stats = {"ins": 0, "calls": {}, "loops": {}, "unmodelled": {}, "access": 0, "branches": 0, "allocs": {}, "asserts": {}, "ext": {}, "states": 0, "frees": 0}
        self.callstack = []
        self.cur = None
        self.curfunc = None
        self.creads = set()      # loads of constant tables at known positions
        self.strobj = {}
        self.maxins = 40_000_000
        self.memo = {}
        self.undecided = 0      # non-constant decisions taken so far
        self.triggers = []; self.depth = 0; self.countforms = {}; self.countintern = {}; self.countlist = {}
        self.nofail = False
        self.curcallee = None
        self.gaps = {}          # what was not analysed, and why
        self.conts = []         # separately analysed continuations (__sa_continue)
        self.deadline = None
        self.trackbulk = False; self.lsyms = 0

    def gap(self, e):
        k = "%s in %s" % (e, self.callstack[-1] if self.callstack else "?")
        self.gaps[k] = self.gaps.get(k, 0) + 1

    # ------------------------------------------------ reporting
    def report(self, st, rule, msg, tag=None, end=True, loc=None):
        if True:
            f = Finding(rule, self.curfunc.src if self.curfunc else "?", loc or (self.cur.loc if self.cur else None), msg, self.trace(st), self.entry, tag)
            f.hard = end
            self.sink.setdefault(f.key(), f)
        if end:
            raise PathEnd()

    def trace(self, st, n=40):
        out = []
        t = st.tr
        while t and len(out) < n:
            out.append("%s: %s" % (":".join(map(str, t[1])) if t[1] else "?", t[2]))
            t = t[0]
        return out[::-1]

    # ------------------------------------------------ initial state
    def initial(self):
        st = State()
        z = mkobj("null", "NULL", 0, "uninit"); st.mem.pop(0, None)
        self.gobj = {}
        for n, g in self.prog.globals.items():
            o = mkobj("global", n, g["size"], "zero" if not g["ext"] else "unk")
            o.const = g["const"]
            o.label = g.get("dbg", n)
            st.new(o)
            self.gobj[n] = o.id
        for n in ("stdin", "stdout", "stderr"):
            if n in self.gobj:
                fo = mkobj("FILE", n, 216, "unk")
                fo.attrs.update(std=True, owned=False, eof=False, pos=ZERO, bulk=ZERO, fam="FILE")
                st.new(fo)
                st.mem[self.gobj[n]].cells[0] = (8, P(fo.id))
        for n, g in self.prog.globals.items():
            o = st.mem[self.gobj[n]]
            for off, ty, v in g["init"]:
                if ty == "str":
                    data = bytes.fromhex(v)
                    if off == 0 and len(data) == g["size"] and g["const"]:
                        o.data = data
                    for i, c in enumerate(data):
                        o.cells[off + i] = (1, I(const(c if c < 128 else c - 256), 8))
                else:
                    val = self.opconst(st, v)
                    o.cells[off] = (self.tysize(ty), val)
        self.init0 = {oid: o for oid, o in st.mem.items() if o.kind == "global" or o.attrs.get("std")}
        st.tok = object()
        return st

    def tysize(self, ty):
        if ty == "ptr": return 8
        if ty[0] == "i": return (int(ty[1:]) + 7) // 8
        return {"float": 4, "double": 8, "x86_fp80": 16, "half": 2}.get(ty, 8)

    # ------------------------------------------------ operands
    def fconst(self, o):
        v = float.fromhex(o[1]) if o[1] not in ("inf", "-inf", "nan", "-nan") else float(o[1].replace("-nan", "nan"))
        if v != v:
            return FL(0, 0, True, ex=("k", "nan"))
        return FL(v, v, False, num=const(int(v)) if v == int(v) and abs(v) < 2**60 else None, ex=("k", v)) if abs(v) != INF else FL(v, v, False, ex=("k", v))

    def opconst(self, st, o):
        k = o[0]
        if k == "i":
            v = int(o[1]); w = o[2]
            if w == 1:
                return bconst(v & 1)
            return I(const(v), w)
        if k == "n":
            return NULL
        if k == "g":
            if o[1] in self.prog.funcs:
                return FN(o[1])
            return P(self.gobj[o[1]], const(o[2]))
        if k == "f":
            c = FCONST.get(o[1])
            if c is None: c = FCONST[o[1]] = self.fconst(o)
            return c
        if k == "u":
            return UN
        if k == "z":
            return AG(()) 
        if k == "cast":
            v = self.opconst(st, o[2]) if o[2][0] != "v" else st.env[o[2][1]]
            if o[1] in ("ptrtoint",):
                return I(fresh("ptrint", 0, 2**64 - 1), int(o[3][1:]))
            return v
        return UN

    def val(self, st, o):
        if o[0] == "v":
            try:
                return st.env[o[1]]
            except KeyError:
                raise Unsupported("value %d not available in %s" % (o[1], self.curfunc.name))
        return self.opconst(st, o)

    # ------------------------------------------------ exact integer readings
    def U(self, st, v):
        return self.exact(st, v, 0, 1 << v.w)

    def S(self, st, v):
        return self.exact(st, v, -(1 << (v.w - 1)), 1 << (v.w - 1))

    def exact(self, st, v, L, H):
        p = v.p
        M = H - L
        if not p.t:
            c = (p.c - L) % M + L
            return p if c == p.c else const(c)
        F = st.f
        lo, hi = F.iv(p)
        if lo >= L and hi < H:
            return p
        q = Poly(p.t, 0)
        for p0, r0 in self.memo.get(("wraps", q, L, H), ()):
            # differs by a constant from a value already reduced
            c = r0 + (p.c - p0)
            l, h = F.iv(c)
            if l >= L and h < H: return c
        gel = lo >= L or F.entails(p - L)
        lth = hi < H or F.entails(H - 1 - p)
        if gel and lth:
            return p
        if not gel and (hi < L or F.entails(L - 1 - p)):
            if lo >= L - M or F.entails(p - L + M):
                return p + M
        if not lth and (lo >= H or F.entails(p - H)):
            if hi < H + M or F.entails(H + M - 1 - p):
                return p - M
        g2 = gel or lo >= L - M or F.entails(p - L + M)
        l2 = lth or hi < H + M or F.entails(H + M - 1 - p)
        if g2 and l2:
            alts = [[(("ge", p - L), True), (("ge", H - 1 - p), True)]]
            if not gel:
                alts.append([(("ge", p - L), False)])
            if not lth:
                alts.append([(("ge", H - 1 - p), False)])
            raise Fork(alts, "wrap")
        key = ("wrap", p, L, H)
        r = self.memo.get(key)
        if r is None:
            r = fresh("(%r mod 2^%d)" % (p, v.w), L, H - 1)
            SYMS[r.single()].wrap = (p, v.w)
            self.memo[key] = r
            self.memo.setdefault(("wraps", q, L, H), []).append((p.c, r))
        if gel and L == 0:
            F.add(p - r)
        return r

    def toint(self, st, v, w):
        """integer value of a boolean / uninit / other operand"""
        if isinstance(v, I):
            return v
        if isinstance(v, B):
            return I(self.boolpoly(st, v.c), w)
        if v is UN:
            self.report(st, "uninit", "use of an uninitialised value")
        return I(fresh("opaque", 0, (1 << w) - 1), w)

    def boolpoly(self, st, c):
        if c[0] == "c":
            return ONE if c[1] else ZERO
        if c[0] == "b":
            return sym(c[1])
        if c[0] == "not" and c[1][0] == "b":
            return ONE - sym(c[1][1])
        key = ("bool", c)
        r = self.memo.get(key)
        if r is None:
            r = fresh("cond", 0, 1)
            SYMS[r.single()].cond = c
            q = c[1] if c[0] == "not" else c
            if q[0] in ("ge", "eq"):
                for x in q[1].syms(): SYMS[x].conds += (r.single(),)
            self.memo[key] = r
        d = self.decide(st, c)
        if d is not None:
            return ONE if d else ZERO
        return r

    # ------------------------------------------------ conditions
    def decide(self, st, c):
        k = c[0]
        if k == "c":
            return c[1]
        if k == "not":
            d = self.decide(st, c[1])
            return None if d is None else not d
        if k == "ge":
            p = c[1]
            if not p.t:
                return p.c >= 0
            lo, hi = st.f.iv(p)
            if lo >= 0: return True
            if hi < 0: return False
            if st.f.entails(p): return True
            if st.f.entails(-p - 1): return False
            return None
        if k == "eq":
            p = c[1]
            if not p.t:
                return p.c == 0
            lo, hi = st.f.iv(p)
            if lo > 0 or hi < 0: return False
            if lo == hi == 0: return True
            for q in st.f.neq:
                if q == p or q == -p: return False
            fs = factors(p)
            if fs is not None:
                ds = [self.decide(st, ("eq", q)) for q in fs]
                return True if True in ds else False if None not in ds else None
            a = st.f.entails(p); b = st.f.entails(-p)
            if a and b: return True
            if not a and st.f.entails(-p - 1): return False
            if not b and st.f.entails(p - 1): return False
            return None
        if k == "b":
            lo, hi = st.f.bounds(c[1])
            if lo >= 1: return True
            if hi <= 0: return False
            if SYMS[c[1]].cond is not None:
                return self.decide(st, SYMS[c[1]].cond)
            return None
        if k == "u":
            return st.unk.get(c[1])
        if k == "fc":
            return self.fdecide(st, c[1], c[2], c[3])
        if k == "fk":
            return self.fkdecide(st, c[1], c[2])
        return None

    def assume(self, st, c, truth):
        """refine st; False when infeasible"""
        k = c[0]
        if k == "not":
            return self.assume(st, c[1], not truth)
        if k == "c":
            return c[1] == truth
        if k == "ge":
            p = c[1] if truth else -c[1] - 1
            if not st.f.add(p): return False
            self.equalities(st, p)
            return not st.f.bot
        if k == "eq":
            p = c[1]
            if truth:
                fs = factors(p)
                if fs is not None:
                    open_ = [q for q in fs if self.decide(st, ("eq", q)) is not False]
                    if not open_: return False
                    if len(open_) == 1: p = open_[0]
                if not st.f.add(p) or not st.f.add(-p): return False
                for q in st.f.neq:
                    if q == p or q == -p: return False
                self.substeq(st, p)
                return not st.f.bot
            return st.f.add_neq(p)
        if k == "b":
            s = c[1]
            if not st.f.add(sym(s) - 1 if truth else -sym(s)): return False
            if SYMS[s].cond is not None:
                return self.assume(st, SYMS[s].cond, truth)
            return True
        if k == "u":
            d = st.unk.get(c[1])
            if d is not None: return d == truth
            st.unk[c[1]] = truth
            return True
        if k == "fc":
            return self.fassume(st, c[1], c[2], c[3], truth)
        if k == "fk":
            return self.fkassume(st, c[1], c[2], truth)
        return True

    def equalities(self, st, p):
        """p >= 0 was just added: if -p >= 0 is known too, eliminate a symbol"""
        q = norm(p)
        if not q.t: return
        n = norm(-q)
        if n in st.f.f:
            self.substeq(st, q)
        else:
            lo, hi = st.f.iv(q)
            if hi == 0:
                self.substeq(st, q)

    def substeq(self, st, p):
        """p == 0: solve for the newest symbol occurring linearly with coefficient +-1"""
        best = None
        for m, k in p.t.items():
            if len(m) == 1 and k in (1, -1):
                s = m[0]
                if SYMS[s].div or SYMS[s].cond is not None: continue
                if any(s in mm for mm in p.t if mm != m): continue
                if best is None or s > best[0]:
                    best = (s, k)
        if best is None or len(p.t) == 1 and p.c == 0 and False:
            return
        s, k = best
        rest = Poly({m: v for m, v in p.t.items() if m != (s,)}, p.c)
        sol = -rest if k == 1 else rest
        self.subst(st, {s: sol})

    def subst(self, st, m):
        F = st.f
        if F.bot: return
        def sp(p): return p.subst(m)
        keys = set(m)
        olds = [(s, F.bounds(s)) for s in m]
        facts = list(F.f)
        F._cache = {}
        newf = []
        for f in facts:
            if not keys.isdisjoint(f.syms()):
                del F.f[f]
                newf.append(f.subst(m))
        neq = F.neq
        F.neq = ()
        ls = self.lsyms
        for s in m:
            F.b.pop(s, None)
            if s < ls:
                # a symbol of the loop head: iterations are compared against it
                p = m[s]
                if p.isconst(): F.b[s] = (p.c, p.c)
        for f in newf:
            if not F.add(f): return
        for s, (l, h) in olds:
            p = m[s]
            if l != -INF and not F.add(p - l): return
            if h != INF and not F.add(h - p): return
        for q in neq:
            if not F.add_neq(q.subst(m)): return
        # derived symbols whose definition mentions a replaced one keep their own facts
        for oid, o in list(st.mem.items()):
            if self.obj_mentions(o, keys, st.tok):
                o = st.w(oid, bump=False)
                self.obj_subst(o, m)
        st.env = {k: self.vsubst(v, m, keys) for k, v in st.env.items()}
        if st.stack:
            ns = tuple(self.esubst(e, m, keys) for e in st.stack)
            if any(a is not b for a, b in zip(ns, st.stack)): st.stack = ns
        for g, v in list(st.ghost.items()):
            if isinstance(v, Poly) and not keys.isdisjoint(v.syms()):
                st.ghost[g] = v.subst(m)
        # truth values of comparisons that mention a replaced symbol
        cs = {}
        for s in m:
            for c in SYMS[s].conds:
                if c not in cs and c not in m:
                    q = SYMS[c].cond
                    cs[c] = ("not", (q[1][0], q[1][1].subst(m))) if q[0] == "not" else (q[0], q[1].subst(m))
        if cs:
            m2 = {}
            for c, q in cs.items():
                n = q[1] if q[0] == "not" else q
                if not n[1].t:
                    t = n[1].c >= 0 if n[0] == "ge" else n[1].c == 0
                    m2[c] = const(int(t == (q[0] != "not")))
                else:
                    r = self.boolpoly(st, q)
                    if r != sym(c): m2[c] = r
            if m2: self.subst(st, m2)

    def vsubst(self, v, m, keys):
        if isinstance(v, I):
            return v if keys.isdisjoint(v.p.syms()) else I(v.p.subst(m), v.w)
        if isinstance(v, P):
            return v if keys.isdisjoint(v.off.syms()) else P(v.o, v.off.subst(m), v.gen)
        if isinstance(v, FL):
            if (v.lb is None or keys.isdisjoint(v.lb.syms())) and (v.ub is None or keys.isdisjoint(v.ub.syms())) and (v.num is None or keys.isdisjoint(v.num.syms())):
                return v
            n = FL(v.lo, v.hi, v.nan, v.lb and v.lb.subst(m), v.ub and v.ub.subst(m), v.num and v.num.subst(m), v.ex)
            n.id = v.id
            return n
        if isinstance(v, B):
            c = self.csubst(v.c, m, keys)
            return v if c is v.c else B(c)
        if isinstance(v, AG):
            n = [self.vsubst(x, m, keys) for x in v.v]
            return AG(n) if any(x is not y for x, y in zip(n, v.v)) else v
        if isinstance(v, Rec):
            return Rec(v.es, tuple((a, z, self.vsubst(x, m, keys)) for a, z, x in v.f))
        return v

    def esubst(self, e, m, keys):
        n = {}; ch = False
        for k, v in e.items():
            w = n[k] = self.vsubst(v, m, keys)
            ch = ch or w is not v
        return n if ch else e

    def csubst(self, c, m, keys):
        if c[0] in ("ge", "eq"):
            return c if keys.isdisjoint(c[1].syms()) else (c[0], c[1].subst(m))
        if c[0] == "not":
            d = self.csubst(c[1], m, keys)
            return c if d is c[1] else cnot(d)
        return c

    def obj_mentions(self, o, keys, tok):
        if o.tok is not tok:
            # shared with other states: unchanged until copied
            c = o.csyms
            if c is None:
                c = set()
                self.obj_syms(o, c)
                c = o.csyms = frozenset(c)
            return not keys.isdisjoint(c)
        if o.size is not None and o.size.t and not keys.isdisjoint(o.size.syms()): return True
        for s, v in o.cells.values():
            if self.mentions(v, keys): return True
        for off, (s, v) in o.sym.items():
            if not keys.isdisjoint(off.syms()) or self.mentions(v, keys): return True
        for lo, hi, v in o.regs:
            if not keys.isdisjoint(lo.syms()) or not keys.isdisjoint(hi.syms()) or self.mentions(v, keys): return True
        for sg in o.segs:
            if any(not keys.isdisjoint(x.syms()) for x in (sg[0], sg[2])) or self.mentions(sg[4], keys): return True
        for v in o.attrs.values():
            if isinstance(v, Poly) and not keys.isdisjoint(v.syms()): return True
        if isinstance(o.base, FL) and self.mentions(o.base, keys): return True
        return False

    def obj_syms(self, o, out):
        if o.size is not None and o.size.t: out |= o.size.syms()
        def val(v):
            if isinstance(v, I): out.update(v.p.syms())
            elif isinstance(v, P): out.update(v.off.syms())
            elif isinstance(v, FL):
                for x in (v.lb, v.ub, v.num):
                    if x is not None: out.update(x.syms())
            elif isinstance(v, Rec):
                for a, z, x in v.f: val(x)
        for s, v in o.cells.values(): val(v)
        for off, (s, v) in o.sym.items():
            out.update(off.syms()); val(v)
        for lo, hi, v in o.regs:
            out.update(lo.syms()); out.update(hi.syms()); val(v)
        for sg in o.segs:
            out.update(sg[0].syms()); out.update(sg[2].syms()); val(sg[4])
        for v in o.attrs.values():
            if isinstance(v, Poly): out.update(v.syms())
        if isinstance(o.base, FL): val(o.base)

    def mentions(self, v, keys):
        if isinstance(v, I): return not keys.isdisjoint(v.p.syms())
        if isinstance(v, P): return not keys.isdisjoint(v.off.syms())
        if isinstance(v, FL):
            return any(x is not None and not keys.isdisjoint(x.syms()) for x in (v.lb, v.ub, v.num))
        if isinstance(v, Rec): return any(self.mentions(x, keys) for a, z, x in v.f)
        return False

    def obj_subst(self, o, m):
        keys = set(m)
        if o.size is not None: o.size = o.size.subst(m)
        o.cells = {k: (s, self.vsubst(v, m, keys)) for k, (s, v) in o.cells.items()}
        o.sym = {k.subst(m): (s, self.vsubst(v, m, keys)) for k, (s, v) in o.sym.items()}
        o.regs = self.mergeregs([(lo.subst(m), hi.subst(m), self.vsubst(v, m, keys)) for lo, hi, v in o.regs])
        o.segs = tuple((a.subst(m), st_, n.subst(m), k, self.vsubst(v, m, keys), sz) for a, st_, n, k, v, sz in o.segs)
        o.attrs = {k: (v.subst(m) if isinstance(v, Poly) else v) for k, v in o.attrs.items()}
        if isinstance(o.base, FL): o.base = self.vsubst(o.base, m, keys)
        # symbolic offsets that became constant
        for k in [k for k in o.sym if not k.t]:
            sz, v = o.sym.pop(k)
            if k.c >= 0: o.cells[k.c] = (sz, v)

    # ------------------------------------------------ floats
    def frng(self, st, a):
        r = st.fr.get(a.id)
        lo, hi, nan = (a.lo, a.hi, a.nan) if r is None else r
        if a.ub is not None:
            l, h = st.f.iv(a.ub)
            if h < hi: hi = h
        if a.lb is not None:
            l, h = st.f.iv(a.lb)
            if l > lo: lo = l
        return lo, hi, nan

    # The order of two floats is tracked as the set of outcomes still possible: L(ess), E(qual), G(reater), U(nordered).
    FPRED = {"lt": "L", "le": "LE", "gt": "G", "ge": "GE", "eq": "E", "ne": "LG", "ord": "LEG", "uno": "U"}
    FFLIP = str.maketrans("LG", "GL")
    def fpred(self, pred):
        if pred in ("ord", "uno"): return self.FPRED[pred]
        s = self.FPRED[pred[1:]]
        return s + "U" if pred[0] == "u" else s

    def fposs(self, st, a, b):
        """outcomes of comparing a with b that are still possible"""
        al, ah, an = self.frng(st, a); bl, bh, bn = self.frng(st, b)
        if a.id <= b.id: o = st.ford.get((a.id, b.id), "LEGU")
        else: o = st.ford.get((b.id, a.id), "LEGU").translate(self.FFLIP)
        if a.id == b.id: o = st.ford.get((a.id, b.id), "EU")
        elif st.ford and (st.ford.get((a.id, a.id)) == "U" or st.ford.get((b.id, b.id)) == "U"): return "U"
        p = ""
        for c in o:
            if c == "L" and al < bh or c == "E" and al <= bh and bl <= ah or c == "G" and ah > bl or c == "U" and (an or bn):
                p += c
        if a.ub is not None and b.lb is not None and "G" in p and st.f.entails(b.lb - a.ub): p = p.replace("G", "")
        if a.lb is not None and b.ub is not None and "L" in p and st.f.entails(a.lb - b.ub): p = p.replace("L", "")
        return p

    def fdecide(self, st, pred, a, b):
        t = self.fpred(pred)
        p = self.fposs(st, a, b)
        if all(c in t for c in p): return True
        if not any(c in t for c in p): return False
        return None

    def fassume(self, st, pred, a, b, truth):
        t = self.fpred(pred)
        p = "".join(c for c in self.fposs(st, a, b) if (c in t) == truth)
        if not p: return False
        al, ah, an = self.frng(st, a); bl, bh, bn = self.frng(st, b)
        if "U" not in p: an = bn = False
        q = p.replace("U", "")
        # a range is that of the values that are not NaN; it follows from the outcome only if the other one is not NaN
        if q:
            l, h, m, n = al, ah, bl, bh
            if not bn:
                if q == "L": ah = min(ah, math.nextafter(n, -INF))
                elif "G" not in q: ah = min(ah, n)
                if q == "G": al = max(al, math.nextafter(m, INF))
                elif "L" not in q: al = max(al, m)
            if not an:
                if q == "L": bl = max(bl, math.nextafter(l, INF))
                elif "G" not in q: bl = max(bl, l)
                if q == "G": bh = min(bh, math.nextafter(h, -INF))
                elif "L" not in q: bh = min(bh, h)
            if al > ah or bl > bh:
                if "U" not in p: return False
                p = "U"; q = ""; al, ah, bl, bh = l, h, m, n
        if not q:
            if not bn: st.ford[(a.id, a.id)] = "U"
            elif not an: st.ford[(b.id, b.id)] = "U"
        else:
            st.fr[a.id] = (al, ah, an); st.fr[b.id] = (bl, bh, bn)
        if a.id == b.id: st.ford[(a.id, a.id)] = p
        elif q == "LG" or not (al == ah and not an or bl == bh and not bn):
            p = "".join(sorted(p))
            if a.id < b.id: st.ford[(a.id, b.id)] = p
            else: st.ford[(b.id, a.id)] = "".join(sorted(p.translate(self.FFLIP)))
        return True

    FK = {"nan": 0x3, "ninf": 0x4, "nnorm": 0x8, "nsub": 0x10, "nzero": 0x20, "pzero": 0x40, "psub": 0x80, "pnorm": 0x100, "pinf": 0x200}
    def fkdecide(self, st, mask, a):
        lo, hi, nan = self.frng(st, a)
        can = 0
        if nan: can |= 3
        if lo == -INF: can |= 4
        if hi == INF: can |= 0x200
        if lo < 0 and hi > -INF: can |= 0x18
        if hi > 0 and lo < INF: can |= 0x180
        if lo <= 0 <= hi: can |= 0x60
        if st.ford.get((a.id, a.id)) == "U": can &= 3
        if can & ~mask == 0: return True
        if can & mask == 0: return False
        return None

    def fkassume(self, st, mask, a, truth):
        d = self.fkdecide(st, mask, a)
        if d is not None: return d == truth
        m = mask if truth else 0x3ff & ~mask
        lo, hi, nan = self.frng(st, a)
        if not m & 3: nan = False
        if not m & 0x3fc: st.ford[(a.id, a.id)] = "U"
        if not m & 4 and lo == -INF: lo = -FLT_MAX if hi != -INF else INF
        if not m & 0x200 and hi == INF: hi = FLT_MAX
        if lo > hi:
            lo, hi = INF, -INF
        st.fr[a.id] = (lo, hi, nan)
        return True

    def fbin(self, st, op, a, b, ty):
        if not isinstance(a, FL) or not isinstance(b, FL):
            if a is UN or b is UN:
                self.report(st, "uninit", "arithmetic on an uninitialised value")
            a = a if isinstance(a, FL) else FL(); b = b if isinstance(b, FL) else FL()
        al, ah, an = self.frng(st, a); bl, bh, bn = self.frng(st, b)
        nan = an or bn
        lb = ub = nm = None
        ex = (op, a.ex, b.ex)
        def fix(lo, hi, nan):
            big = FLT_MAX if ty == "float" else 1.7976931348623157e308
            if hi > big: hi = INF
            if lo < -big: lo = -INF
            if lo != lo or hi != hi: lo, hi, nan = -INF, INF, True
            return lo, hi, nan
        if op in ("fadd", "fsub"):
            if op == "fsub":
                bl, bh = -bh, -bl
            if (al == -INF and bh == INF) or (ah == INF and bl == -INF): nan = True
            lo, hi = al + bl, ah + bh
            if lo != lo: lo = -INF
            if hi != hi: hi = INF
            if op == "fadd":
                aub = a.ub if a.ub is not None else (const(math.ceil(ah)) if abs(ah) < 1e9 else None)
                bub = b.ub if b.ub is not None else (const(math.ceil(bh)) if abs(bh) < 1e9 else None)
                alb = a.lb if a.lb is not None else (const(math.floor(al)) if abs(al) < 1e9 else None)
                blb = b.lb if b.lb is not None else (const(math.floor(bl)) if abs(bl) < 1e9 else None)
                # rounding cannot pass a bound that is itself representable
                exact_ = 2**24 if ty == "float" else 2**53
                def rep(p):
                    if p is None: return None
                    l, h = st.f.iv(p)
                    return p if -exact_ <= l and h <= exact_ else None
                if (a.ub is not None or b.ub is not None) and aub is not None and bub is not None: ub = rep(aub + bub)
                if (a.lb is not None or b.lb is not None) and alb is not None and blb is not None: lb = rep(alb + blb)
            else:
                if a.ub is not None and b.lb is not None: ub = a.ub - b.lb
                if a.lb is not None and b.ub is not None: lb = a.lb - b.ub
            if a.num is not None and b.num is not None: nm = a.num + b.num if op == "fadd" else a.num - b.num
        elif op == "fmul":
            c = [x * y if not (x == 0 or y == 0) else 0.0 for x in (al, ah) for y in (bl, bh)]
            lo, hi = min(c), max(c)
            if (INF in (abs(al), abs(ah)) and bl <= 0 <= bh) or (INF in (abs(bl), abs(bh)) and al <= 0 <= ah): nan = True
            if a.num is not None and b.num is not None: nm = a.num * b.num
        elif op == "fdiv":
            bz = bl <= 0 <= bh
            if bz and b.num is not None and st.f.entails(b.num - 1):
                bz = False; bl = max(bl, 1.0)
            if bz:
                if al <= 0 <= ah: nan = True
                lo, hi = -INF, INF
                if al >= 0 and bl >= 0: lo = 0.0
            else:
                c = []
                for x in (al, ah):
                    for y in (bl, bh):
                        if abs(x) == INF and abs(y) == INF:
                            nan = True; c += [0.0, math.copysign(INF, x * (1 if y > 0 else -1))]
                        else:
                            c.append(x / y if y else math.copysign(INF, x))
                lo, hi = min(c), max(c)
                # ratio of exact integers
                an_, bn_ = (a.num if a.num is not None else None), b.num
                if bn_ is not None and st.f.entails(bn_ - 1):
                    up = a.num if a.num is not None else a.ub
                    dn = a.num if a.num is not None else a.lb
                    if up is not None and st.f.entails(bn_ - up): hi = min(hi, 1.0)
                    if dn is not None and st.f.entails(dn): lo = max(lo, 0.0)
        else:
            return FL(ex=ex)
        if nm is not None and ub is None: ub = lb = nm
        lo, hi, nan = fix(lo, hi, nan)
        return FL(lo, hi, nan, lb, ub, nm, ex)

    # ------------------------------------------------ memory
    def where(self, v):
        return v

    def access(self, st, ptr, n, write, what="access"):
        """check an access of n bytes (Poly or int); returns (obj, off) or None when nothing is known"""
        self.stats["access"] += 1
        if isinstance(n, int): n = const(n)
        if ptr is UN:
            self.report(st, "uninit", "%s through an uninitialised pointer" % what)
        if isinstance(ptr, XP):
            if not ptr.nn and st.unk.get(("null", ptr.id)) is not False:
                if st.unk.get(("null", ptr.id)) is True:
                    self.report(st, "null", "%s through a null pointer" % what)
            return None
        if isinstance(ptr, FN):
            self.report(st, "oob", "%s through a function pointer" % what)
        if isinstance(ptr, I):
            if self.decide(st, ("eq", ptr.p)) is True:
                self.report(st, "null", "%s through a null pointer" % what)
            return None
        if not isinstance(ptr, P):
            return None
        if ptr.o == 0:
            if n.isconst() and n.c == 0: return None
            self.report(st, "null", "%s through a null pointer" % what)
        o = st.mem.get(ptr.o)
        if o is None:
            self.report(st, "uaf", "%s through a pointer to an object that no longer exists" % what)
        if not o.alive:
            if o.kind in ("stack", "vla"):
                self.report(st, "dangling", "%s of local '%s' after its function returned" % (what, o.label))
            self.report(st, "uaf", "%s of %s after it was released" % (what, o.label))
        if o.kind == "stack" and o.attrs.get("scope"):
            self.report(st, "scope", "%s of local '%s' after its scope ended" % (what, o.label))
        if ptr.gen != o.gen:
            self.report(st, "uaf", "%s of %s through a pointer from before its reallocation" % (what, o.label))
        if o.size is None:
            return o, ptr.off
        if n.isconst() and ptr.off.isconst() and o.size.isconst():
            if ptr.off.c < 0 or ptr.off.c + n.c > o.size.c:
                if n.c == 0 and 0 <= ptr.off.c <= o.size.c: return o, ptr.off
                self.report(st, "oob", "%s of %d byte(s) at offset %d of %s (%d bytes)" % (what, n.c, ptr.off.c, o.label, o.size.c))
            return o, ptr.off
        if n.isconst() and n.c == 0:
            return o, ptr.off
        for cond, txt in ((ptr.off, "before the start of"), (o.size - ptr.off - n, "past the end of")):
            if not st.f.entails(cond):
                if self.decide(st, ("ge", n - 1)) is None and not n.isconst():
                    raise Fork([[(("ge", n - 1), True)], [(("ge", n - 1), False)]], "empty")
                if not n.isconst() and self.decide(st, ("ge", n - 1)) is False:
                    return o, ptr.off
                # while a loop is being generalised, go on where the access is fine: the states on its back edges are checked again
                self.report(st, "oob", "%s of %r byte(s) at offset %r may reach %s %s (%r bytes)" % (what, n, ptr.off, txt, o.label, o.size), end=not self.mute)
                if not st.f.add(cond): raise PathEnd()
        return o, ptr.off

    def load(self, st, ptr, size, ty):
        r = self.access(st, ptr, size, False, "read")
        if r is None:
            return self.unknown(st, ty)
        o, off = r
        return self.peek(st, o, off, size, ty)

    def peek(self, st, o, off, size, ty):
        if o.const and o.kind == "global" and self.cur is not None:
            if off.t:
                l, h = st.f.iv(off)
                if l == h: off = const(int(l))
            if off.t: self.tablesplit(st, o, off, size)
            else: self.creads.add(id(self.cur))
        if not off.t:
            c = o.cells.get(off.c)
            if c is not None and c[0] == size:
                return self.conv(st, c[1], ty, size)
            if c is not None and c[0] > size and isinstance(c[1], I):
                if c[1].p.isconst():
                    return self.conv(st, I(c[1].p, size * 8), ty, size)
                return self.conv(st, I(c[1].p, size * 8), ty, size)
            for k, (s, v) in o.cells.items():
                if k < off.c + size and off.c < k + s:
                    if isinstance(v, I) and v.p.isconst() and k <= off.c and k + s >= off.c + size:
                        x = (v.p.c >> (8 * (off.c - k))) & ((1 << (8 * size)) - 1)
                        return self.conv(st, I(const(x), 8 * size), ty, size)
                    if v is UN: return UN
                    # assembled from bytes
                    parts = [o.cells.get(off.c + i) for i in range(size)]
                    if all(q is not None and q[0] == 1 and isinstance(q[1], I) for q in parts):
                        if all(q[1].p.isconst() for q in parts):
                            x = 0
                            for i, q in enumerate(parts): x |= (q[1].p.c & 255) << (8 * i)
                            return self.conv(st, I(const(x), 8 * size), ty, size)
                    miss = [i for i in range(size) if not any(a <= off.c + i < a + b for a, (b, _) in o.cells.items())]
                    if miss and o.base == "uninit" and not all(self.incov(st, o, const(off.c + i), const(1)) for i in miss):
                        return UN
                    return self.unknown(st, ty)
        if off.t and o.data is not None and size == 1:
            # string constant at unknown position: only "terminator or not" is distinguished
            n = len(o.data) - 1
            q = o.sym.get(off)
            if q: return q[1]
            e = self.decide(st, ("eq", off - n))
            if e is None:
                raise Fork([[(("eq", off - n), True)], [(("eq", off - n), False)]], "string end")
            if e: return I(ZERO, 8)
            v = self.char(st)
            st.w(o.id, False).sym[off] = (1, v)
            return v
        q = o.sym.get(off)
        if q is not None and q[0] == size:
            return self.conv(st, q[1], ty, size)
        if o.kind == "ctype":
            # off = 2*c
            c = divsym_exact(off, 2)
            if c is not None:
                d = self.decide(st, ("eq", c + 1))
                if d is None:
                    raise Fork([[(("eq", c + 1), True)], [(("eq", c + 1), False)]], "EOF class")
                if d: return I(ZERO, size * 8)
            return I(self.memofresh(("ctype", off), "ctype", 0, 65535), size * 8)
        if o.kind == "cstr" and size == 1:
            n = o.attrs["len"]
            e = self.decide(st, ("eq", off - n))
            if e is None:
                raise Fork([[(("eq", off - n), True)], [(("eq", off - n), False)]], "string end")
            v = I(ZERO, 8) if e else self.char(st)
            ow = st.w(o.id, False)
            if off.t: ow.sym[off] = (1, v)
            else: ow.cells[off.c] = (1, v)
            return v
        if not off.t and o.kind in ("global",) and o.base == "zero" and not o.regs:
            return self.zero(ty)
        # pointer/integer tables filled by a loop
        for a, stp, n, ksym, v, sz in o.segs:
            if sz == size:
                t = (off - a)
                idx = divsym_exact(t, stp)
                if idx is not None and st.f.entails(idx) and st.f.entails(n - 1 - idx):
                    return self.vsubst(v, {ksym: idx}, {ksym})
        if o.regs and any(type(v) is Rec for lo, hi, v in o.regs):
            r = self.recpeek(st, o, off, size, ty)
            if r is not None: return r
        vals = []
        inside = False
        size_ = const(size)
        for lo, hi, v in o.regs:
            if st.f.entails(off - lo) and st.f.entails(hi - off - size_):
                inside = True
                vals = [v]
                break
        if not inside:
            for lo, hi, v in o.regs:
                if st.f.entails(lo - off - size_) or st.f.entails(off - hi):
                    continue
                vals.append(v)
            vals.append(o.base)
            if off.t:
                for k, (s, v) in o.cells.items():
                    if st.f.entails(const(k) - off - size_) or st.f.entails(off - (k + s)):
                        continue
                    if o.base == "uninit" and len(vals) == 1 and not o.regs:
                        # every const cell covered? treat as table
                        pass
                    vals.append(v)
                if o.cells and self.cells_cover(o):
                    vals = [v for v in vals if v is not o.base]
        if any(v == "uninit" or v is UN for v in vals):
            return UN
        v = self.materialise(st, vals, ty, size, o, off)
        ow = st.w(o.id, False)
        if off.t: ow.sym[off] = (size, v)
        else: ow.cells[off.c] = (size, v)
        return v

    def tablesplit(self, st, o, off, size):
        """an element of a constant table: one case for each"""
        if o.data is not None or o.regs or off in o.sym or o.size is None or not o.size.isconst(): return
        g = 0
        for c in off.t.values(): g = math.gcd(g, c)
        if o.size.c // g > 40: return
        cs = [c for c in range(off.c % g, o.size.c - size + 1, g) if self.decide(st, ("eq", off - c)) is not False]
        if len(cs) > 1 and not st.f.iv(off)[0] < 0:
            raise Fork([[(("eq", off - c), True)] for c in cs], "element of " + o.label)

    def recpeek(self, st, o, off, size, ty):
        """read of one field of a record in a region of records"""
        for lo, hi, v in o.regs:
            if type(v) is not Rec: continue
            d = off - lo
            if any(c % v.es for c in d.t.values()): continue
            if not (st.f.entails(d) and st.f.entails(hi - off - size)): continue
            x = v.field(d.c % v.es, size)
            if x is None:
                fo = d.c % v.es
                return UN if all(a + z <= fo or fo + size <= a for a, z, _ in v.f) else None
            if x is UN: return UN
            r = self.materialise(st, [x], ty, size, o, off)
            ow = st.w(o.id, False)
            if off.t: ow.sym[off] = (size, r)
            else: ow.cells[off.c] = (size, r)
            return r
        return None

    def cells_cover(self, o):
        if o.size is None or not o.size.isconst(): return False
        p = 0
        for k in sorted(o.cells):
            if k > p: return False
            p = max(p, k + o.cells[k][0])
        return p >= o.size.c

    def incov(self, st, o, off, n):
        for lo, hi, v in o.regs:
            if st.f.entails(off - lo) and st.f.entails(hi - off - n):
                return v is not UN and v != "uninit"
        return False

    def char(self, st):
        p = fresh("char", -128, 127)
        st.f.add_neq(p)
        return I(p, 8)

    def zero(self, ty):
        if ty == "ptr": return NULL
        if ty in ("float", "double", "x86_fp80"): return FL(0.0, 0.0, False, num=ZERO, lb=ZERO, ub=ZERO, ex=("k", 0.0))
        if ty == "i1": return bconst(False)
        if ty[0] == "i": return I(ZERO, int(ty[1:]))
        return UN

    def unknown(self, st, ty, name="mem"):
        if ty == "ptr": 
            _oid[0] += 1
            return XP(_oid[0])
        if ty in ("float", "double", "x86_fp80"): return FL()
        if ty == "i1": 
            return B(("b", newsym(name, 0, 1)))
        if ty[0] == "i":
            w = int(ty[1:])
            return I(fresh(name, 0, (1 << w) - 1), w)
        return UN

    def materialise(self, st, vals, ty, size, o, off):
        if ty in ("float", "double", "x86_fp80"):
            fl = None
            for v in vals:
                if v == "zero": v = self.zero(ty)
                if isinstance(v, I) and v.p == ZERO: v = self.zero(ty)
                if not isinstance(v, FL):
                    return FL(ex=("ld", o.id, o.ver, off, size))
                fl = v if fl is None else self.fjoin(st, fl, v)
            if fl is None: return FL()
            return FL(fl.lo, fl.hi, fl.nan, fl.lb, fl.ub, None, ex=("ld", o.id, o.ver, off, size))
        if all(v == "zero" for v in vals):
            return self.zero(ty)
        if ty[0] == "i" and ty != "i1":
            w = int(ty[1:])
            lo = hi = None
            for v in vals:
                if v == "zero": l = h = 0
                elif isinstance(v, I) and v.w == w: l, h = st.f.iv(v.p)
                elif isinstance(v, tuple) and v[0] == "int" and v[3] == w: l, h = v[1], v[2]
                else: l, h = 0, (1 << w) - 1
                lo = l if lo is None else min(lo, l); hi = h if hi is None else max(hi, h)
            if lo == -INF or hi == INF or hi - lo >= (1 << w): lo, hi = 0, (1 << w) - 1
            return I(fresh("elem", lo, hi), w)
        if len(vals) == 1 and isinstance(vals[0], (P, FN)):
            return vals[0]
        return self.unknown(st, ty)

    def conv(self, st, v, ty, size):
        if v is UN: return UN
        if ty == "ptr":
            if isinstance(v, (P, FN, XP)): return v
            if isinstance(v, I) and v.p == ZERO: return NULL
            return self.unknown(st, ty)
        if ty in ("float", "double", "x86_fp80"):
            if isinstance(v, FL): return v
            if isinstance(v, I) and v.p.isconst():
                if ty == "float":
                    x = struct.unpack("<f", struct.pack("<I", v.p.c & 0xffffffff))[0]
                else:
                    x = struct.unpack("<d", struct.pack("<Q", v.p.c & (2**64 - 1)))[0]
                if x != x: return FL(0, 0, True)
                return FL(x, x, False, num=const(int(x)) if abs(x) < 2**60 and x == int(x) else None, ex=("k", x))
            return FL()
        if ty[0] == "i":
            w = int(ty[1:])
            if isinstance(v, I):
                if w == 1:
                    return self.i1(st, v)
                return v if v.w == w else I(v.p, w)
            if isinstance(v, B): return I(self.boolpoly(st, v.c), w)
            if isinstance(v, P) and v.o == 0 and v.off == ZERO: return I(ZERO, w)
            if isinstance(v, FL) and v.lo == v.hi == 0 and not v.nan: return I(ZERO, w)
            return self.unknown(st, ty)
        return v

    def i1(self, st, v):
        s = v.p.single()
        if s is not None and SYMS[s].lo == 0 and SYMS[s].hi == 1:
            return B(("b", s))
        if v.p.isconst(): return bconst(v.p.c & 1)
        m = ONE - v.p
        s = m.single()
        if s is not None and SYMS[s].lo == 0 and SYMS[s].hi == 1:
            return B(("not", ("b", s)))
        lo, hi = st.f.iv(v.p)
        if 0 <= lo and hi <= 1:
            return B(("eq", v.p - 1))
        return B(("b", newsym("bit", 0, 1)))

    def fjoin(self, st, a, b):
        al, ah, an = self.frng(st, a); bl, bh, bn = self.frng(st, b)
        ub = lb = None
        if a.ub is not None and b.ub is not None:
            if a.ub == b.ub or st.f.entails(a.ub - b.ub): ub = a.ub
            elif st.f.entails(b.ub - a.ub): ub = b.ub
        if a.lb is not None and b.lb is not None:
            if a.lb == b.lb or st.f.entails(b.lb - a.lb): lb = a.lb
            elif st.f.entails(a.lb - b.lb): lb = b.lb
        return FL(min(al, bl), max(ah, bh), an or bn, lb, ub)

    def vjoin(self, st, a, b):
        """hull for region contents"""
        if a is b: return a
        if a == "unk" or b == "unk": 
            if a is UN or b is UN or a == "uninit" or b == "uninit": return UN
            return "unk"
        if a is UN or b is UN or a == "uninit" or b == "uninit": return UN
        if type(a) is Rec or type(b) is Rec:
            if a == b: return a
            if type(a) is Rec and type(b) is Rec and a.es == b.es:
                f = []
                for o, z, v in a.f:
                    w = b.field(o, z)
                    if w is None:
                        if any(p < o + z and o < p + y for p, y, _ in b.f): return "unk"
                        continue
                    f.append((o, z, self.vjoin(st, v, w)))
                return Rec(a.es, f)
            return "unk"
        if a == "zero" and isinstance(b, FL): a = self.zero("float")
        if b == "zero" and isinstance(a, FL): b = self.zero("float")
        if isinstance(a, FL) and isinstance(b, FL):
            if a.same(b) and a.id not in st.fr and b.id not in st.fr: return a
            return self.fjoin(st, a, b)
        def rng(v):
            if v == "zero": return (0, 0, None)
            if isinstance(v, I):
                l, h = st.f.iv(v.p); return (l, h, v.w)
            if isinstance(v, tuple) and v[0] == "int": return v[1:]
            return None
        ra, rb = rng(a), rng(b)
        if a == "zero" and b == "zero": return a
        if ra and rb:
            w = ra[2] or rb[2]
            if (ra[2] or w) == (rb[2] or w) and w:
                return ("int", min(ra[0], rb[0]), max(ra[1], rb[1]), w)
        if a == b: return a
        return "unk"

    def regval(self, st, v):
        """summary of a value stored into a region"""
        if isinstance(v, FL):
            lo, hi, nan = self.frng(st, v)
            if (lo, hi, nan) != (v.lo, v.hi, v.nan): return FL(lo, hi, nan, v.lb, v.ub)
            return v
        if isinstance(v, I):
            l, h = st.f.iv(v.p)
            return ("int", l, h, v.w)
        if v is UN: return UN
        if type(v) is Rec: return v
        return "unk"

    def store(self, st, ptr, size, v):
        r = self.access(st, ptr, size, True, "write")
        if r is None:
            return
        o, off = r
        if o.const and o.kind == "global":
            self.report(st, "constwrite", "write to constant '%s'" % o.label)
        o = st.w(o.id)
        if o.kind == "global":
            self.globalwrite(st, o)
        self.poke(st, o, off, size, v)

    def globalwrite(self, st, o):
        if not self.mute:
            self.stats.setdefault("globalwrites", {}).setdefault(o.label, self.cur.loc if self.cur else None)

    def pokeseg(self, st, o, off, size, v):
        out = []
        for sg in o.segs:
            a, stp, n, ks, x, z = sg
            end = a + n * stp
            if size == z and off == end and self.vsubst(x, {ks: n}, {ks}) == v:
                out.append((a, stp, n + 1, ks, x, z))
            elif st.f.entails(off - end) or st.f.entails(a - off - size): out.append(sg)
        o.segs = tuple(out)

    def poke(self, st, o, off, size, v):
        if o.attrs and "nul" in o.attrs and not (isinstance(v, I) and v.p == ZERO) and not self.disj(st, o.attrs["nul"], 1, off, size): del o.attrs["nul"]
        if o.segs: self.pokeseg(st, o, off, size, v)
        if o.kind == "heap" and o.base == "uninit" and self.pokerec(st, o, off, size, v): return
        if not off.t:
            c = off.c
            for k in [k for k, (s, _) in o.cells.items() if k < c + size and c < k + s and not (k == c and s == size)]:
                s, old = o.cells.pop(k)
                if o.base == "uninit" and old is not UN:
                    # the untouched bytes stay initialised, with unknown contents
                    for i in range(k, k + s):
                        if not c <= i < c + size:
                            o.cells[i] = (1, self.unknown(st, "i8"))
            o.cells[c] = (size, v)
            if o.sym:
                o.sym = {k: x for k, x in o.sym.items() if self.disj(st, k, x[0], off, size)}
            return
        # symbolic
        if o.cells:
            gone = [k for k, (s, _) in o.cells.items() if not (st.f.entails(off - (k + s)) or st.f.entails(const(k) - off - size))]
            for k in gone:
                s, old = o.cells.pop(k)
                o.regs = self.addreg(st, o.regs, const(k), const(k + s), self.vjoin(st, self.regval(st, old), self.regval(st, v)))
        if o.sym:
            o.sym = {k: x for k, x in o.sym.items() if k != off and self.disj(st, k, x[0], off, size)}
        o.sym[off] = (size, v)
        o.regs = self.addreg(st, o.regs, off, off + size, self.regval(st, v))

    def pokerec(self, st, o, off, size, v):
        """store to one field of a record of an array of records"""
        es = recsize(o)
        if not es or size >= es: return False
        ro = recoff(o, off, size)
        if ro is None or o.regs and not all(type(x) is Rec for _, _, x in o.regs): return False
        if not off.t and not o.regs: return False      # may be anything so far
        self.torec(o, es)
        self.recput(st, o, ro[0], [(ro[1], size, v)], es, False)
        return True

    def torec(self, o, es):
        """describe the records written at constant offsets by regions (the exact values stay known)"""
        if o.regs: return
        by = {}
        for k, (s, v) in sorted(o.cells.items()):
            if k % es + s > es:
                o.cells = {}; break
            by.setdefault(k - k % es, []).append((k % es, s, v if isinstance(v, FL) else self.regval(None, v) if not isinstance(v, I) else ("int",) + self.irange(v) + (v.w,)))
        o.regs = tuple((const(b), const(b + es), Rec(es, f)) for b, f in by.items())

    def irange(self, v):
        return (v.p.c, v.p.c) if not v.p.t else (-(1 << v.w), (1 << v.w) - 1)

    def recput(self, st, o, start, fields, es, whole):
        """fields of the record at start are overwritten (whole: the others become uninitialised)"""
        n = const(es)
        for fo, size, v in fields:
            off = start + fo
            for k in [k for k, (s, _) in o.cells.items() if not (st.f.entails(off - (k + s)) or st.f.entails(const(k) - off - size))]:
                del o.cells[k]
            if o.sym: o.sym = {k: x for k, x in o.sym.items() if k != off and self.disj(st, k, x[0], off, size)}
        if whole:
            if not start.t: o.cells = {k: x for k, x in o.cells.items() if k + x[0] <= start.c or start.c + es <= k}
            o.sym = {k: x for k, x in o.sym.items() if self.disj(st, k, x[0], start, es)}
        for fo, size, v in fields:
            off = start + fo
            if off.t: o.sym[off] = (size, v)
            else: o.cells[off.c] = (size, v)
        new = [(a, z, self.regval(st, v)) for a, z, v in fields]
        end = start + n
        out = []; done = False
        for a, b, x in o.regs:
            if (a, b) == (start, end):
                old = [] if whole else [t for t in x.f if not any(t[0] < c + z and c < t[0] + t[1] for c, z, _ in new)]
                out.append((a, b, Rec(es, sorted(old + new, key=lambda t: t[0])))); done = True
            elif a == end or b == start or st.f.entails(a - end) or st.f.entails(start - b): out.append((a, b, x))
            else:
                d = start - a
                if type(x) is Rec and x.es == es and d.c % es == 0 and not any(c % es for c in d.t.values()):
                    f = []
                    for t in x.f:
                        q = next((v for c, z, v in new if (c, z) == t[:2]), None)
                        if q is not None: f.append(t[:2] + (self.vjoin(st, t[2], q),))
                        elif any(t[0] < c + z and c < t[0] + t[1] for c, z, _ in new): f.append(t[:2] + ("unk",))
                        elif not whole: f.append(t)
                    if st.f.entails(start - a) and st.f.entails(b - end): done = True
                    out.append((a, b, Rec(es, f)))
                else: out.append((a, b, "unk"))
        if not done: out.append((start, end, Rec(es, sorted(new, key=lambda t: t[0]))))
        o.regs = self.mergeregs(out, st)

    def disj(self, st, a, sa, b, sb):
        d = a - b
        if not d.t:
            return d.c >= sb or d.c <= -sa
        return st.f.entails(d - sb, 1) or st.f.entails(-d - sa, 1)

    def addreg(self, st, regs, lo, hi, v):
        out = []
        merged = False
        for a, b, x in regs:
            if not merged and (a, b) == (lo, hi):
                out.append((lo, hi, v)); merged = True; continue   # strong update
            if a == hi or b == lo or st.f.entails(a - hi) or st.f.entails(lo - b):
                out.append((a, b, x)); continue
            if type(x) is Rec or type(v) is Rec:
                if not (type(x) is Rec and type(v) is Rec and not any(c % x.es for c in (lo - a).t.values()) and (lo - a).c % x.es == 0): v_ = "unk"
                else: v_ = self.vjoin(st, x, v)
                out.append((a, b, v_))
            else: out.append((a, b, self.vjoin(st, x, v)))
            if st.f.entails(lo - a) and st.f.entails(b - hi):
                merged = True
        if not merged:
            out.append((lo, hi, v))
        return self.mergeregs(out, st)

    def mergeregs(self, regs, st=None):
        regs = list(regs)
        ch = True
        while ch:
            ch = False
            for i in range(len(regs)):
                for j in range(len(regs)):
                    if i != j and regs[i][1] == regs[j][0]:
                        a, b = regs[i][2], regs[j][2]
                        if (type(a) is Rec) != (type(b) is Rec): continue
                        if type(a) is Rec and (a.layout() != b.layout() or st is None): continue
                        v = self.vjoin(st, a, b) if st is not None else (a if (a is b or (not isinstance(a, FL) and a == b)) else None)
                        if v is None:
                            if isinstance(a, FL) and isinstance(b, FL) and a.same(b): v = a
                            else: continue
                        if (v is UN) and not (a is UN and b is UN): continue
                        x, y = regs[i], regs[j]
                        regs = [r for q, r in enumerate(regs) if q not in (i, j)] + [(x[0], y[1], v)]
                        ch = True
                        break
                if ch: break
        # empty regions
        return tuple(r for r in regs if r[0] != r[1])

    def fill(self, st, o, off, n, v):
        """n bytes (Poly) at off become v ('unk', 'zero' or a hull)"""
        o = st.w(o.id)
        if o.kind == "global": self.globalwrite(st, o)
        if n.isconst() and n.c == 0: return
        if "nul" in o.attrs and not (st.f.entails(off - o.attrs["nul"] - 1) or st.f.entails(o.attrs["nul"] - off - n)):
            if v == "zero": o.attrs["nul"] = off
            else: del o.attrs["nul"]
        if o.segs: o.segs = tuple(sg for sg in o.segs if st.f.entails(off - sg[0] - sg[2] * sg[1]) or st.f.entails(sg[0] - off - n))
        if not off.t and n.isconst():
            for k in [k for k, (s, _) in o.cells.items() if k < off.c + n.c and off.c < k + s]:
                del o.cells[k]
            if o.size is not None and o.size.isconst() and off.c == 0 and n.c >= o.size.c and not isinstance(v, FL):
                o.regs = (); o.sym = {}; o.segs = ()
                o.base = v if v in ("unk", "zero") else "uninit" if v is UN else "unk"
                return
        else:
            for k in [k for k, (s, _) in o.cells.items() if not (st.f.entails(off - (k + s)) or st.f.entails(const(k) - off - n))]:
                s, old = o.cells.pop(k)
                o.regs = self.addreg(st, o.regs, const(k), const(k + s), self.vjoin(st, self.regval(st, old), v))
        o.sym = {k: x for k, x in o.sym.items() if st.f.entails(k - off - n, 1) or st.f.entails(off - k - x[0], 1)}
        o.segs = ()
        # fully covering?
        if o.regs and o.size is not None and off == ZERO and st.f.entails(n - o.size):
            o.regs = ()
        o.regs = self.addreg(st, o.regs, off, off + n, v)

    def written(self, st, o, off, n):
        """is [off, off+n) certainly initialised?"""
        if o.base != "uninit":
            return True
        pos = off
        end = off + n
        for _ in range(12):
            if st.f.entails(pos - end): return True
            nxt = None
            for lo, hi, v in o.regs:
                if v is UN or type(v) is Rec and not v.complete(): continue
                if st.f.entails(pos - lo) and st.f.entails(hi - pos - 1):
                    nxt = hi; break
                if st.f.entails(pos - lo) and st.f.entails(hi - end): return True
            if nxt is None and not pos.t and pos.c in o.cells and o.cells[pos.c][1] is not UN:
                nxt = const(pos.c + o.cells[pos.c][0])
            if nxt is None:
                return False
            pos = nxt
        return False

    def hull(self, st, o, off, n):
        """hull of the float values in [off, off+n) or None"""
        vals = []
        cov = self.written_regs_only(st, o, off, n)
        for lo, hi, v in o.regs:
            if st.f.entails(lo - off - n) or st.f.entails(off - hi): continue
            vals.append(v)
        if not cov and not self.written_regs_only(st, o, off, n, True): vals.append(o.base)
        for k, (z, v) in list(o.cells.items()):
            k = const(k)
            if not (st.f.entails(k - off - n) or st.f.entails(off - k - z)): vals.append(v)
        for k, (z, v) in list(o.sym.items()):
            if not (st.f.entails(k - off - n) or st.f.entails(off - k - z)): vals.append(v)
        r = None
        for v in vals:
            if v == "zero" or isinstance(v, I) and v.p == ZERO: v = self.zero("float")
            if not isinstance(v, FL): return None
            r = v if r is None else self.fjoin(st, r, v)
        return r

    def written_regs_only(self, st, o, off, n, cells=False):
        t = o.copy(); t.base = "uninit"
        if not cells: t.cells = {}
        return self.written(st, t, off, n)

    # ------------------------------------------------ reachability / leaks
    def vrefs(self, v, out):
        if isinstance(v, P): out.append(v.o)
        elif isinstance(v, AG):
            for x in v.v: self.vrefs(x, out)

    def refsof(self, o):
        refs = []
        for s, v in o.cells.values(): self.vrefs(v, refs)
        for s, v in o.sym.values(): self.vrefs(v, refs)
        for sg in o.segs: self.vrefs(sg[4], refs)
        for v in o.attrs.values(): self.vrefs(v, refs)
        o.crefs = tuple(refs)
        return o.crefs

    def gc(self, st, extra=(), leaks=True):
        roots = []
        init0 = self.init0
        for e in (st.env,) + st.stack:
            for v in e.values(): self.vrefs(v, roots)
        for v in extra: self.vrefs(v, roots)
        for v in st.ghost.values():
            if not isinstance(v, Poly): self.vrefs(v, roots)
        for oid, o in st.mem.items():
            if o.kind in ("global", "root") and not (o.const and o.crefs == ()) and init0.get(oid) is not o or (o.kind in ("stack", "vla") and o.alive and o.frame in st.frames):
                roots.append(oid)
        seen = set()
        while roots:
            r = roots.pop()
            if r in seen or r == 0: continue
            seen.add(r)
            o = st.mem.get(r)
            if o is None: continue
            if not o.alive: continue
            refs = o.crefs
            if refs is None: refs = self.refsof(o)
            if refs: roots.extend(refs)
        for oid in [i for i, o in st.mem.items() if i not in seen and o.kind != "global" and o.kind != "root" and i not in init0]:
            o = st.mem[oid]
            if o.alive and o.attrs.get("owned") and leaks:
                self.report(st, "leak", "%s (from %s) is never released on this path" % (o.label, o.site), end=False)
            del st.mem[oid]

    # ------------------------------------------------ running
    def run(self, fname, args, st):
        """analyse function fname; returns list of (kind, val, state)"""
        self.curfunc = self.prog.funcs[fname]
        return self.call_function(st, fname, args)

    def call_function(self, st, fname, args, byval=None):
        f = self.prog.funcs[fname]
        if fname in self.callstack and self.callstack.count(fname) > 2:
            raise Unsupported("recursion in %s" % fname)
        self.stats["calls"][fname] = self.stats["calls"].get(fname, 0) + 1
        fid = object()
        saved_env = st.env
        st.stack = st.stack + (saved_env,)
        st.frames = st.frames + (fid,)
        st.env = {}
        for i, a in enumerate(args[:len(f.args)]):
            bt = f.args[i][1]
            if bt and isinstance(a, P):
                o = mkobj("stack", "arg%d" % i, int(bt), "uninit", fid)
                st.new(o)
                self.memcpy(st, P(o.id), a, const(int(bt)))
                a = P(o.id)
            st.env[i] = a
        if f.vararg:
            pass
        oc, of = self.cur, self.curfunc
        self.callstack.append(fname)
        self.curfunc = f
        try:
            backs, exits, rets = self.exec_blocks(f, fid, [(0, 0, None, st)], None)
        finally:
            self.callstack.pop()
            self.cur, self.curfunc = oc, of
        out = []
        for r in rets:
            kind = r[0]
            s = r[-1]
            if kind == "ret":
                self.pop_frame(s, fid, r[1])
                out.append(r)
            elif kind == "exit":
                s.frames = s.frames[:-1]
                out.append(r)
            elif kind == "lj":
                # target is an outer frame
                self.pop_frame(s, fid, None, gc=False)
                out.append(r)
            else:
                out.append(r)
        return self.dedupe(out)

    def pop_frame(self, s, fid, ret, gc=True):
        s.env = dict(s.stack[-1]); s.stack = s.stack[:-1]
        s.frames = s.frames[:-1]
        for oid, o in list(s.mem.items()):
            if o.frame is fid and o.alive:
                w = s.w(oid); w.alive = False
        for k in [k for k, v in s.jmps.items() if v is not None and v[0] is fid]:
            del s.jmps[k]
        if gc:
            oc, of = self.cur, self.curfunc
            self.gc(s, (ret,) if ret is not None else ())

    def dedupe(self, outs):
        if len(outs) < 2: return outs
        groups = {}
        for i, r in enumerate(outs):
            k = r[0] if r[0] != "lj" else r[:4]
            groups.setdefault(k, []).append(i)
        keep = []
        for k, ix in groups.items():
            got = merge.merge(self, [(outs[i][-1], outs[i][1] if k in ("ret", "exit") else outs[i][4]) for i in ix], data=True)
            keep.extend(ix[j] for j in got)
        keep.sort()
        return [outs[i] for i in keep]

    def settle(self, st, force=False):
        """forget distinctions between states that nothing observes"""
        for oid, o in list(st.mem.items()):
            if o.kind == "FILE" and o.alive:
                a = o.attrs
                pos, bulk = a["pos"], a["bulk"]
                if "mark" not in a and bulk == ZERO and pos == sym(self.fixsym(("pos", oid, 64))) and not any(isinstance(k, tuple) for k in a): continue
                if not force and pos.isconst() and pos.c < 64 and "mark" not in a: continue
                w = st.w(oid, False)
                known = {}
                for k in [k for k in w.attrs if isinstance(k, tuple) and k[0] == "byte"]:
                    l, h = st.f.iv(w.attrs.pop(k))
                    if l == h: known[k[1]] = int(l)
                for sg in SIGNATURES:
                    if all(known.get(i) == c for i, c in enumerate(sg)):
                        for i, c in enumerate(sg): w.attrs[("byte", i)] = const(c)
                if "mark" in a:
                    d = pos - a["mark"]; db = bulk - a["bmark"]
                    zero = not d.t and d.c == 0
                    if not zero and d.t and self.eqz(st, d): zero = True
                    if not zero:
                        d = sym(self.fixsym(("posd", oid, 0)))
                    else: d = ZERO
                    w.attrs["mark"] = sym(self.fixsym(("mark", oid, 0))); w.attrs["pos"] = w.attrs["mark"] + d
                    w.attrs["bmark"] = ZERO; w.attrs["bulk"] = db
                else:
                    w.attrs["pos"] = sym(self.fixsym(("pos", oid, 64)))
                    w.attrs["bulk"] = ZERO

    def fixsym(self, key):
        r = self.memo.get(key)
        if r is None:
            r = newsym(key[0], key[2], 2**62); self.memo[key] = r
        return r

    def statekey(self, r):
        s = r[-1]
        try:
            m = tuple((i, o.ver, o.alive) for i, o in sorted(s.mem.items()))
            return (r[0], r[1] if not isinstance(r[1], FL) else None, m, tuple(s.f.f), tuple(sorted(s.f.b.items())), s.f.neq,
                    tuple(sorted((str(k), str(v)) for k, v in s.ghost.items())), tuple(sorted((str(a), str(b)) for a, b in s.unk.items())))
        except TypeError:
            return None

    def exec_blocks(self, f, fid, work, loop):
        """worklist over blocks; loop: stay inside, collect back edges and exits"""
        backs = []; exits = []; rets = []
        if not hasattr(f, "rpoidx"):
            f.inloop = set().union(*[L.blocks for L in f.loops.values()]) if f.loops else set()
            f.rpoidx = {b: i for i, b in enumerate(f.rpo)}
            f.hasphi = [any(i.op == "phi" for i in b) for b in f.blocks]
        rpo = f.rpoidx
        first = True
        guard = 0
        heap = []; pend = {}
        def push(item):
            nonlocal first
            b, idx, pred, st = item
            if loop is not None and not first:
                if b == loop.header and idx == 0:
                    backs.append((pred, st)); return
                if b not in loop.blocks:
                    exits.append(item); return
            k = (rpo.get(b, 0), idx, b, pred if f.hasphi[b] else None)
            q = pend.get(k)
            if q is None:
                pend[k] = [item]
                heapq.heappush(heap, (k[0], k[1], k[2], -1 if k[3] is None else k[3], k))
            else: q.append(item)
        for w in work: push(w)
        while heap:
            k = heapq.heappop(heap)[-1]
            items = pend.pop(k)
            if len(items) > 1:
                self.cur = f.blocks[k[2]][k[1]]
                if k[1] == 0:
                    for it in items: self.deadclear(f, k[2], it[3])
                keep = merge.merge(self, [(it[3], None) for it in items], envids=self.needed(f, k[2], k[1]), data=k[2] not in f.inloop)
                items = [items[i] for i in keep]
            for b, idx, pred, st in items:
                guard += 1
                if guard > 60000: raise Budget("too many block visits in %s" % f.name)
                out = []
                if idx == 0 and b in f.loops and not (loop is not None and first and b == loop.header):
                    first = False
                    depth = len(self.callstack)
                    try:
                        ex, rt = self.handle_loop(f, fid, f.loops[b], pred, st)
                    except Unsupported as e:
                        if STRICT: raise
                        del self.callstack[depth:]
                        self.curfunc = f
                        self.gap(e); continue
                    rets.extend(rt)
                    for e in ex: push(e)
                    continue
                first = False
                self.exec_block(f, fid, b, idx, pred, st, out, rets)
                for o in out: push(o)
        return backs, exits, rets

    def exec_block(self, f, fid, b, idx, pred, st, work, rets):
        blk = f.blocks[b]
        n = len(blk)
        while idx < n:
            ins = blk[idx]
            self.cur = ins; self.curfunc = f
            self.stats["ins"] += 1
            if self.stats["ins"] > self.maxins: raise Budget("instruction budget")
            if self.deadline and not self.stats["ins"] & 63 and time.time() > self.deadline: raise Budget("time budget")
            op = ins.op
            snap = None
            try:
                if op == "call" or op == "invoke":
                    snap = st.copy()
                    outs = self.do_call(f, fid, b, idx, ins, st, rets)
                    if outs is None:
                        return
                    if len(outs) == 1 and outs[0][0] == "cont":
                        st = outs[0][1]
                        idx += 1
                        continue
                    for o in outs:
                        if o[0] == "cont":
                            work.append((b, idx + 1, pred, o[1]))
                        elif o[0] == "goto":
                            work.append((o[1], o[2], None, o[3]))
                        else:
                            rets.append(o)
                    return
                if op == "br":
                    if len(ins.d["succ"]) == 1:
                        self.leave(f, b, st)
                        work.append((ins.d["succ"][0], 0, b, st))
                        return
                    self.branch(f, b, ins, st, work)
                    return
                if op == "switch":
                    self.switch(f, b, ins, st, work)
                    return
                if op == "ret":
                    v = self.val(st, ins.ops[0]) if ins.ops else None
                    rets.append(("ret", v, st))
                    return
                if op == "unreachable":
                    return
                if op == "phi":
                    for v, p in ins.d["in"]:
                        if p == pred:
                            st.env[ins.id] = self.val(st, v)
                            break
                    else:
                        raise Unsupported("phi without predecessor")
                    idx += 1
                    continue
                self.step(f, fid, ins, st)
                idx += 1
            except Fork as e:
                base = snap if snap is not None else st
                self.undecided += 1
                alts = []
                for al in e.alts:
                    s = base.copy()
                    ok = True
                    for c, t in al:
                        if not self.assume(s, c, t):
                            ok = False; break
                    if ok:
                        s.path = s.path + tuple(al)
                        alts.append(s)
                for s in alts:
                    s.note(ins.loc, "case split (%s)" % e.why) if e.why not in ("wrap",) else None
                    if e.why[:7] == "element": self.exec_block(f, fid, b, idx, pred, s, work, rets)     # kept apart until the block's end
                    else: work.append((b, idx, pred, s))
                return
            except PathEnd:
                return
            except Unsupported as e:
                if STRICT: raise
                self.gap(e)
                return

    def leave(self, f, b, st):
        esc = f.escape
        st.env = {k: v for k, v in st.env.items() if k in esc}

    def needed(self, f, b, idx):
        """values that instructions from (b, idx) on may use"""
        if not hasattr(f, "needat"): f.needat = {}
        r = f.needat.get((b, idx))
        if r is None:
            r = set(f.escape)
            def use(o):
                if isinstance(o, list) and o:
                    if o[0] == "v": r.add(o[1])
                    elif o[0] == "cast": use(o[2])
            for i in f.blocks[b][idx:]:
                for o in i.ops: use(o)
                g = i.d.get("gep")
                if g:
                    use(g["base"])
                    for x in g["idx"]: use(x[0])
                if "callee" in i.d: use(i.d["callee"])
            f.needat[(b, idx)] = r
        return r

    def cond(self, st, v):
        if isinstance(v, B): return v.c
        if isinstance(v, I): return cnot(("eq", v.p))
        if v is UN: self.report(st, "uninit", "branch on an uninitialised value")
        return ("u", self.newunk())

    def newunk(self):
        _oid[0] += 1
        return _oid[0]

    def branch(self, f, b, ins, st, work):
        c = self.cond(st, self.val(st, ins.ops[0]))
        t, e = ins.d["succ"]
        self.stats["branches"] += 1
        d = self.decide(st, c)
        self.leave(f, b, st)
        if d is None: self.undecided += 1
        if d is not None:
            if c[0] != "c":
                st.path = st.path + ((c, d),)
                self.assume(st, c, d)
            if self.triggers: self.usecounts(st)
            work.append((t if d else e, 0, b, st))
            return
        s2 = st.copy()
        if self.assume(s2, c, False):
            s2.path = s2.path + ((c, False),)
            if self.triggers: self.usecounts(s2)
            s2.note(ins.loc, "condition false")
            work.append((e, 0, b, s2))
        if self.assume(st, c, True):
            st.path = st.path + ((c, True),)
            if self.triggers: self.usecounts(st)
            st.note(ins.loc, "condition true")
            work.append((t, 0, b, st))

    def switch(self, f, b, ins, st, work):
        v = self.val(st, ins.ops[0])
        if v is UN: self.report(st, "uninit", "switch on an uninitialised value")
        v = self.toint(st, v, ins.d["bits"])
        p = v.p
        if p.isconst():
            m = 1 << ins.d["bits"]
            for c, tgt in ins.d["cases"]:
                if (int(c) - p.c) % m == 0:
                    self.leave(f, b, st)
                    work.append((tgt, 0, b, st)); return
            self.leave(f, b, st)
            work.append((ins.d["default"], 0, b, st)); return
        p = self.S(st, v)
        self.undecided += 1
        self.leave(f, b, st)
        rest = st
        for c, tgt in ins.d["cases"]:
            s = rest.copy()
            cc = ("eq", p - int(c))
            if self.decide(s, cc) is not False and self.assume(s, cc, True):
                s.path = s.path + ((cc, True),)
                s.note(ins.loc, "case %s" % c)
                work.append((tgt, 0, b, s))
            if not self.assume(rest, cc, False):
                return
            rest.path = rest.path + ((cc, False),)
        rest.note(ins.loc, "default case")
        work.append((ins.d["default"], 0, b, rest))

    # ------------------------------------------------ instructions
    def step(self, f, fid, ins, st):
        op = ins.op
        if op == "load":
            st.env[ins.id] = self.load(st, self.val(st, ins.ops[0]), ins.d["size"], ins.ty)
        elif op == "store":
            v = self.val(st, ins.ops[0])
            if isinstance(v, B):
                v = I(self.boolpoly(st, v.c), 8)
            self.store(st, self.val(st, ins.ops[1]), ins.d["size"], v)
        elif op == "alloca":
            cnt = self.val(st, ins.ops[0])
            vla = ins.ops[0][0] != "i"
            if vla:
                c = self.U(st, cnt)
                size = c * ins.d["size"]
                if not st.f.entails(c - 1):
                    self.report(st, "vla", "variable-length array whose length may be zero", end=False)
            else:
                size = const(ins.d["size"] * int(ins.ops[0][1]))
            o = mkobj("vla" if vla else "stack", ins.d.get("name", "tmp"), size, "uninit", fid)
            o.vol = bool(ins.d.get("volatile"))
            if ins.id in scoped(f): o.attrs["scope"] = "ended"
            st.new(o)
            st.env[ins.id] = P(o.id)
        elif op == "getelementptr":
            g = ins.d["gep"]
            base = self.val(st, g["base"])
            off = const(g["off"])
            for o, sc, w in g["idx"]:
                v = self.val(st, o)
                if v is UN: self.report(st, "uninit", "uninitialised index")
                v = self.toint(st, v, w)
                off = off + (v.p if w == 64 else self.S(st, v)) * sc
            st.env[ins.id] = self.padd(st, base, off)
        elif op == "icmp":
            st.env[ins.id] = B(self.icmp(st, ins.d["pred"], self.val(st, ins.ops[0]), self.val(st, ins.ops[1]), ins.d["oty"]))
        elif op == "fcmp":
            a = self.val(st, ins.ops[0]); b = self.val(st, ins.ops[1])
            if a is UN or b is UN: self.report(st, "uninit", "comparison of an uninitialised value")
            pred = ins.d["pred"]
            if pred in ("true", "false"):
                st.env[ins.id] = bconst(pred == "true")
            else:
                if not isinstance(a, FL): a = FL()
                if not isinstance(b, FL): b = FL()
                st.env[ins.id] = B(("fc", pred, a, b))
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            st.env[ins.id] = self.fbin(st, op, self.val(st, ins.ops[0]), self.val(st, ins.ops[1]), ins.ty)
        elif op == "fneg":
            a = self.val(st, ins.ops[0])
            if not isinstance(a, FL): a = FL()
            lo, hi, nan = self.frng(st, a)
            st.env[ins.id] = FL(-hi, -lo, nan, ex=("neg", a.ex))
        elif op in ("fpext", "fptrunc"):
            a = self.val(st, ins.ops[0])
            if a is UN: self.report(st, "uninit", "conversion of an uninitialised value")
            if not isinstance(a, FL): a = FL()
            lo, hi, nan = self.frng(st, a)
            if op == "fptrunc" and ins.ty == "float":
                if hi > FLT_MAX: hi = INF
                if lo < -FLT_MAX: lo = -INF
            if op == "fpext":
                st.env[ins.id] = a
            else:
                st.env[ins.id] = FL(lo, hi, nan, a.lb, a.ub, a.num, ex=(op, a.ex))
        elif op in ("uitofp", "sitofp"):
            v = self.val(st, ins.ops[0])
            if v is UN: self.report(st, "uninit", "conversion of an uninitialised value")
            if isinstance(v, B): p = self.boolpoly(st, v.c)
            else:
                v = self.toint(st, v, 32)
                p = self.U(st, v) if op == "uitofp" else self.S(st, v)
            lo, hi = st.f.iv(p)
            st.env[ins.id] = FL(float(lo) if lo != -INF else -2.0**64, float(hi) if hi != INF else 2.0**64, False, p, p, p, ex=("int", p))
        elif op in ("fptoui", "fptosi"):
            w = int(ins.ty[1:])
            st.env[ins.id] = I(fresh("fptoi", 0, (1 << w) - 1), w)
        elif op in ("zext", "sext"):
            v = self.val(st, ins.ops[0])
            w = int(ins.ty[1:])
            if v is UN: self.report(st, "uninit", "use of an uninitialised value")
            if isinstance(v, B):
                p = self.boolpoly(st, v.c)
                st.env[ins.id] = I(p if op == "zext" else -p, w)
            else:
                v = self.toint(st, v, int(ins.d["oty"][1:]))
                st.env[ins.id] = I(self.U(st, v) if op == "zext" else self.S(st, v), w)
        elif op == "trunc":
            v = self.val(st, ins.ops[0])
            if v is UN: self.report(st, "uninit", "use of an uninitialised value")
            v = self.toint(st, v, int(ins.d["oty"][1:]))
            w = int(ins.ty[1:])
            st.env[ins.id] = self.i1(st, v) if w == 1 else I(v.p, w)
        elif op in ("ptrtoint",):
            v = self.val(st, ins.ops[0])
            if isinstance(v, P) and v.o == 0: st.env[ins.id] = I(v.off, 64)
            elif isinstance(v, P):
                key = ("addr", v.o)
                a = self.memo.get(key)
                if a is None:
                    a = fresh("addr%d" % v.o, 4096, 2**47); self.memo[key] = a
                st.env[ins.id] = I(a + v.off, 64)
            else: st.env[ins.id] = I(fresh("ptrint", 0, 2**64 - 1), 64)
        elif op == "inttoptr":
            v = self.val(st, ins.ops[0])
            st.env[ins.id] = NULL if isinstance(v, I) and v.p == ZERO else self.unknown(st, "ptr")
        elif op == "bitcast":
            v = self.val(st, ins.ops[0])
            st.env[ins.id] = self.conv(st, v, ins.ty, self.tysize(ins.ty))
        elif op == "select":
            c = self.cond(st, self.val(st, ins.ops[0]))
            d = self.decide(st, c)
            a, b = self.val(st, ins.ops[1]), self.val(st, ins.ops[2])
            if d is None and a == b: d = True
            if d is None:
                raise Fork([[(c, True)], [(c, False)]], "select")
            st.env[ins.id] = a if d else b
        elif op == "extractvalue":
            a = self.val(st, ins.ops[0])
            for x in ins.d["ix"]:
                a = a.v[x] if isinstance(a, AG) and x < len(a.v) else self.unknown(st, ins.ty)
            st.env[ins.id] = a
        elif op == "insertvalue":
            a = self.val(st, ins.ops[0]); v = self.val(st, ins.ops[1])
            ix = ins.d["ix"]
            l = list(a.v) if isinstance(a, AG) else []
            while len(l) <= ix[0]: l.append(UN)
            l[ix[0]] = v
            st.env[ins.id] = AG(l)
        elif op == "extractelement" or op == "insertelement" or op == "shufflevector":
            st.env[ins.id] = self.unknown(st, ins.ty) if op == "extractelement" else AG(())
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            st.env[ins.id] = self.ibin(st, ins, op, self.val(st, ins.ops[0]), self.val(st, ins.ops[1]), int(ins.ty[1:]))
        elif op == "freeze":
            st.env[ins.id] = self.val(st, ins.ops[0])
        elif op == "fence":
            pass
        else:
            raise Unsupported("instruction %s" % op)

    def padd(self, st, base, off):
        if isinstance(base, P):
            return P(base.o, base.off + off, base.gen)
        if isinstance(base, XP):
            if off == ZERO: return base
            k = ("xp", base.id, off)
            r = self.memo.get(k)
            if r is None:
                _oid[0] += 1
                r = XP(_oid[0], True); self.memo[k] = r
            return r
        if base is UN:
            self.report(st, "uninit", "arithmetic on an uninitialised pointer")
        return base

    def ibin(self, st, ins, op, a, b, w):
        if a is UN or b is UN:
            self.report(st, "uninit", "arithmetic on an uninitialised value")
        if w == 1:
            a = a if isinstance(a, B) else self.i1(st, a)
            b = b if isinstance(b, B) else self.i1(st, b)
            if op == "xor":
                if b.c[0] == "c": return B(cnot(a.c)) if b.c[1] else a
                if a.c[0] == "c": return B(cnot(b.c)) if a.c[1] else b
            if op == "and":
                if FALSE in (a.c, b.c): return bconst(False)
                if a.c == TRUE: return b
                if b.c == TRUE: return a
            if op == "or":
                if TRUE in (a.c, b.c): return bconst(True)
                if a.c == FALSE: return b
                if b.c == FALSE: return a
            d1, d2 = self.decide(st, a.c), self.decide(st, b.c)
            if d1 is not None and d2 is not None:
                return bconst({"and": d1 and d2, "or": d1 or d2, "xor": d1 != d2}[op])
            k = ("bop", op, a.c, b.c)
            r = self.memo.get(k)
            if r is None:
                r = ("b", newsym("bit", 0, 1)); self.memo[k] = r
            return B(r)
        if isinstance(a, P) or isinstance(b, P):
            a = a if not isinstance(a, P) else I(fresh("addr", 1, 2**63), w)
            b = b if not isinstance(b, P) else I(fresh("addr", 1, 2**63), w)
        a = self.toint(st, a, w); b = self.toint(st, b, w)
        nsw = ins.d.get("nsw"); 
        if op in ("add", "sub", "mul"):
            p = a.p + b.p if op == "add" else a.p - b.p if op == "sub" else a.p * b.p
            if op == "mul":
                # keep products meaningful: operands must be exact readings
                if a.p.t and b.p.t:
                    a, b = self.point(st, a), self.point(st, b)
                    if not (a.p.t and b.p.t): p = a.p * b.p
                    elif nsw: p = self.S(st, a) * self.S(st, b)
                    else: p = self.U(st, a) * self.U(st, b)
            if nsw and w >= 32 and p.t:
                x, y = self.S(st, a), self.S(st, b)
                p = x + y if op == "add" else x - y if op == "sub" else x * y
                L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
                lo, hi = st.f.iv(p)
                if lo < L or hi > H:
                    if not (st.f.entails(p - L) and st.f.entails(H - p)):
                        self.overflow(st, p, w)
                        st.f.add(p - L); st.f.add(H - p)
            if p.t or -(1 << (w - 1)) <= p.c < (1 << w):
                return I(p, w)
            return I(const(p.c % (1 << w)), w)
        M = 1 << w
        if op in ("udiv", "urem"):
            x, y = self.U(st, a), self.U(st, b)
            self.divcheck(st, y)
            if y.t:
                lo, hi = st.f.iv(y)
                if lo == hi:
                    st.ghost[("divisor", y)] = int(lo)      # kept apart from the other case: what follows depends on it
                    y = const(lo)
                elif hi - lo == 1: raise Fork([[(("eq", y - lo), True)], [(("eq", y - hi), True)]], "divisor")
            q = divsym(x, y)
            if q.t and q.single() is not None:
                lo, hi = st.f.iv(x)
                if hi != INF and SYMS[q.single()].hi is None: st.f.add(const(int(hi)) - q)
            if op == "udiv": return I(q, w)
            r = x - y * q
            if not r.isconst():
                st.f.add(r); st.f.add(y - 1 - r)
            return I(r, w)
        if op in ("sdiv", "srem"):
            x, y = self.S(st, a), self.S(st, b)
            if self.decide(st, ("eq", y)) is not False:
                self.divcheck(st, y, signed=True)
            if x.isconst() and y.isconst() and y.c:
                q = abs(x.c) // abs(y.c) * (1 if (x.c < 0) == (y.c < 0) else -1)
                return I(const(q if op == "sdiv" else x.c - q * y.c), w)
            dx, dy = self.decide(st, ("ge", x)), self.decide(st, ("ge", y - 1))
            if dx is None and dy: raise Fork([[(("ge", x), True)], [(("ge", x), False)]], "sign")
            if dx and dy:
                q = divsym(x, y)
                return I(q if op == "sdiv" else x - y * q, w)
            if dx is False and dy:
                q = -divsym(-x, y)
                return I(q if op == "sdiv" else x - y * q, w)
            return I(fresh(op, -M // 2, M // 2 - 1), w)
        if op == "shl":
            if b.p.isconst():
                if not 0 <= b.p.c < w: self.report(st, "shift", "shift by %d bits" % b.p.c)
                return I(a.p * (1 << b.p.c), w)
            y = self.U(st, b)
            if not st.f.entails(w - 1 - y):
                self.report(st, "shift", "shift amount %r may reach the width of the type (%d)" % (y, w))
            if a.p.isconst() and a.p.c > 0:
                lo, hi = st.f.iv(y)
                return I(self.memofresh(("shl", a.p, y), "shl", a.p.c << int(max(lo, 0)), min(a.p.c << int(min(hi, w - 1)), M - 1)), w)
            return I(self.memofresh(("shl", a.p, y), "shl", 0, M - 1), w)
        if op == "lshr":
            if b.p.isconst():
                return I(divsym(self.U(st, a), const(1 << b.p.c)), w)
            return I(self.memofresh(("lshr", a.p, b.p), "lshr", 0, M - 1), w)
        if op == "ashr":
            if b.p.isconst():
                x = self.S(st, a)
                d = self.decide(st, ("ge", x))
                if d is None: raise Fork([[(("ge", x), True)], [(("ge", x), False)]], "sign")
                if d: return I(divsym(x, const(1 << b.p.c)), w)
                return I(-divsym(-x + (1 << b.p.c) - 1, const(1 << b.p.c)), w)
            return I(self.memofresh(("ashr", a.p, b.p), "ashr", -M // 2, M // 2 - 1), w)
        if op == "and":
            if a.p.isconst() and b.p.isconst(): return I(const((a.p.c & b.p.c) % M), w)
            if a.p.isconst(): a, b = b, a
            if b.p.isconst():
                mask = b.p.c % M
                if mask & (mask + 1) == 0:
                    x = self.U(st, a)
                    lo, hi = st.f.iv(x)
                    if hi <= mask: return I(x, w)
                    r = x - divsym(x, const(mask + 1)) * (mask + 1)
                    st.f.add(r); st.f.add(mask - r)
                    return I(r, w)
                if mask == 0: return I(ZERO, w)
                if mask & (mask - 1) == 0:
                    # a single bit: 0 or mask
                    s = self.memofresh(("bit", a.p, mask), "bit", 0, 1)
                    return I(s * mask, w)
                return I(self.memofresh(("and", a.p, mask), "and", 0, mask), w)
            return I(self.memofresh(("and", a.p, b.p), "and", 0, M - 1), w)
        if op == "or":
            if a.p.isconst() and b.p.isconst(): return I(const((a.p.c | b.p.c) % M), w)
            if a.p == ZERO: return b
            if b.p == ZERO: return a
            return I(self.memofresh(("or", a.p, b.p), "or", 0, M - 1), w)
        if op == "xor":
            if a.p.isconst() and b.p.isconst(): return I(const((a.p.c ^ b.p.c) % M), w)
            if a.p == b.p: return I(ZERO, w)
            if b.p.isconst() and b.p.c in (-1, M - 1): return I(-a.p - 1, w)
            return I(self.memofresh(("xor", a.p, b.p), "xor", 0, M - 1), w)
        raise Unsupported(op)

    def memofresh(self, key, name, lo, hi):
        r = self.memo.get(key)
        if r is None:
            r = fresh(name, lo, hi); self.memo[key] = r
            SYMS[r.single()].memo = key
        return r

    def point(self, st, a):
        """an operand that can have one value only"""
        if a.p.single() is None: return a
        lo, hi = st.f.iv(a.p)
        return I(const(int(lo)), a.w) if lo == hi else a

    def overflow(self, st, p, w):
        if not self.mute:
            self.stats.setdefault("overflow", {})[tuple(self.cur.loc or ())] = repr(p)

    def divcheck(self, st, y, signed=False):
        d = self.decide(st, ("eq", y))
        if d is False: return
        if d is None and not st.f.entails(y - 1):
            self.report(st, "div", "division by a value that may be zero", end=False)
            if not self.assume(st, ("eq", y), False): raise PathEnd()
            return
        if d is True:
            self.report(st, "div", "division by zero")

    def icmp(self, st, pred, a, b, oty):
        if a is UN or b is UN:
            self.report(st, "uninit", "comparison of an uninitialised value")
        if oty == "ptr" or isinstance(a, (P, XP, FN)) or isinstance(b, (P, XP, FN)):
            return self.pcmp(st, pred, a, b)
        w = int(oty[1:])
        if w == 1:
            a = a if isinstance(a, B) else self.i1(st, a); b = b if isinstance(b, B) else self.i1(st, b)
            if pred in ("eq", "ne"):
                for x, y in ((a.c, b.c), (b.c, a.c)):
                    if y[0] == "c":
                        r = x if y[1] else cnot(x)
                        return r if pred == "eq" else cnot(r)
                d1, d2 = self.decide(st, a.c), self.decide(st, b.c)
                if d1 is not None and d2 is not None:
                    return TRUE if (d1 == d2) == (pred == "eq") else FALSE
            return ("u", self.newunk())
        a = self.toint(st, a, w); b = self.toint(st, b, w)
        if pred in ("eq", "ne"):
            d = a.p - b.p
            M = 1 << w
            if not d.t:
                r = d.c % M == 0
                return TRUE if r == (pred == "eq") else FALSE
            for x, y in ((a, b), (b, a)):
                s = x.p.single()
                if s is not None and SYMS[s].cond is not None and y.p.isconst():
                    if y.p.c == 0: r = cnot(SYMS[s].cond)
                    elif y.p.c == 1: r = SYMS[s].cond
                    else: continue
                    return r if pred == "eq" else cnot(r)
            lo, hi = st.f.iv(d)
            if not (-M < lo and hi < M):
                x, y = self.U(st, a), self.U(st, b)
                d = x - y
            # a difference that is a multiple of one symbol
            c = ("eq", d)
            return c if pred == "eq" else cnot(c)
        s = pred[0] == "s"
        x, y = (self.S(st, a), self.S(st, b)) if s else (self.U(st, a), self.U(st, b))
        k = pred[1:]
        if k == "lt": return self.gec(y - x - 1)
        if k == "le": return self.gec(y - x)
        if k == "gt": return self.gec(x - y - 1)
        if k == "ge": return self.gec(x - y)
        raise Unsupported(pred)

    def gec(self, p):
        if not p.t: return TRUE if p.c >= 0 else FALSE
        return ("ge", p)

    def isnull(self, st, v):
        if isinstance(v, P): return v.o == 0 and v.off == ZERO
        if isinstance(v, FN): return False
        if isinstance(v, XP):
            if v.nn: return False
            return st.unk.get(("null", v.id))
        if isinstance(v, I):
            return self.decide(st, ("eq", v.p))
        return None

    def pcmp(self, st, pred, a, b):
        if pred in ("eq", "ne"):
            r = None
            if isinstance(a, P) and isinstance(b, P):
                if a.o == b.o:
                    d = a.off - b.off
                    c = ("eq", d) if d.t else (TRUE if d.c == 0 else FALSE)
                    return c if pred == "eq" else cnot(c)
                r = False
            elif isinstance(a, FN) and isinstance(b, FN): r = a.name == b.name
            else:
                for x, y in ((a, b), (b, a)):
                    if isinstance(y, P) and y.o == 0:
                        n = self.isnull(st, x)
                        if n is not None: r = n
                        elif isinstance(x, XP):
                            c = ("u", ("null", x.id))
                            return c if pred == "eq" else cnot(c)
                        break
                else:
                    if isinstance(a, XP) and isinstance(b, XP) and a.id == b.id: r = True
                    elif {type(a), type(b)} <= {FN, P}: r = False
                    else:
                        c = ("u", ("peq", repr(a), repr(b)))
                        return c if pred == "eq" else cnot(c)
            if r is None: return ("u", self.newunk())
            return TRUE if r == (pred == "eq") else FALSE
        if isinstance(a, P) and isinstance(b, P) and a.o == b.o:
            k = pred[1:]
            x, y = a.off, b.off
            return {"lt": self.gec(y - x - 1), "le": self.gec(y - x), "gt": self.gec(x - y - 1), "ge": self.gec(x - y)}[k]
        return ("u", self.newunk())

    # ------------------------------------------------ memcpy
    def memcpy(self, st, dst, src, n):
        if n.isconst() and n.c == 0: return
        r = self.access(st, src, n, False, "read")
        w = self.access(st, dst, n, True, "write")
        if w is None: return
        do, doff = w
        if r is not None and n.isconst() and do.kind == "heap" and do.base == "uninit" and recsize(do) == n.c and not r[1].t and recoff(do, doff, n.c) and \
                all(type(x) is Rec for _, _, x in do.regs):
            so, soff = r
            cells = {k: v for k, v in so.cells.items() if k < soff.c + n.c and soff.c < k + v[0]}
            if len(cells) > 1 and not so.regs and so.base == "uninit" and all(soff.c <= k and k + v[0] <= soff.c + n.c for k, v in cells.items()):
                d = st.w(do.id)
                if d.segs: d.segs = tuple(sg for sg in d.segs if st.f.entails(doff - sg[0] - sg[2] * sg[1]) or st.f.entails(sg[0] - doff - n))
                self.torec(d, n.c)
                self.recput(st, d, doff, [(k - soff.c, z, v) for k, (z, v) in sorted(cells.items())], n.c, True)
                return
        if r is None:
            self.fill(st, do, doff, n, "unk"); return
        so, soff = r
        regs = [(lo, hi, v) for lo, hi, v in so.regs if not (st.f.entails(lo - soff - n) or st.f.entails(soff - hi))]
        if n.isconst() and not doff.t and not soff.t and n.c <= 65536 and so.kind != "cstr" and not any(lo.t or hi.t for lo, hi, _ in regs):
            cells = {k: v for k, v in so.cells.items() if soff.c <= k and k + v[0] <= soff.c + n.c}
            part = [k for k, v in so.cells.items() if k not in cells and k < soff.c + n.c and soff.c < k + v[0]]
            base = so.base
            hole = base if base in ("zero", "unk") else (UN if base == "uninit" else self.regval(st, base))
            self.fill(st, do, doff, n, hole)
            d = st.w(do.id)
            sh = doff.c - soff.c
            pieces = []
            for lo, hi, v in regs:
                pieces.append((max(lo.c, soff.c) + sh, min(hi.c, soff.c + n.c) + sh, v if type(v) is not Rec else "unk" if v.complete() else UN))
            for k in part:
                z, v = so.cells[k]
                pieces.append((max(k, soff.c) + sh, min(k + z, soff.c + n.c) + sh, UN if v is UN else "unk"))
            if pieces:
                ds = doff.c; de = ds + n.c
                cut = sorted({ds, de} | {x for q in pieces for x in q[:2]})
                keep = []
                for lo, hi, v in d.regs:
                    if not (lo.t or hi.t):
                        if lo.c < ds: keep.append((lo, const(min(hi.c, ds)), v))
                        if hi.c > de: keep.append((const(max(lo.c, de)), hi, v))
                    else: keep.append((lo, hi, v))
                for lo, hi in zip(cut, cut[1:]):
                    vs = [v for a, b, v in pieces if a <= lo and hi <= b]
                    if not vs:
                        if hole is UN and d.base == "uninit" or hole == d.base: continue
                        vs = [hole]
                    v = vs[0]
                    for x in vs[1:]: v = self.vjoin(st, v, x)
                    keep.append((const(lo), const(hi), v))
                d.regs = tuple(keep)
            for k, (z, v) in cells.items(): d.cells[k + sh] = (z, v)
            return
        if n.isconst() and recsize(so) == n.c and recoff(so, soff, n.c) and not do.kind == "global":
            # one record out of an array: field by field, padding stays padding
            x = next((v for lo, hi, v in so.regs if type(v) is Rec and v.es == n.c and st.f.entails(soff - lo) and st.f.entails(hi - soff - n)), None)
            if x is not None:
                vals = [(a, z, self.recpeek(st, so, soff + a, z, None if isinstance(v, FL) else "i%d" % (8 * z))) for a, z, v in x.f if not isinstance(v, (P, FN, XP))]
                if len(vals) == len(x.f) and all(v is not None for _, _, v in vals):
                    self.fill(st, do, doff, n, UN)
                    for a, z, v in vals: self.poke(st, st.w(do.id), doff + a, z, v)
                    return
        # contents summary
        if n.isconst() and n.c in (1, 2, 4, 8) :
            v = self.peek(st, so, soff, n.c, "i%d" % (8 * n.c))
            if v is UN: self.report(st, "uninit", "copy of uninitialised memory", end=False)
            self.poke(st, st.w(do.id), doff, n.c, v)
            return
        val = None
        if so.base == "uninit" and not self.written(st, so, soff, n):
            self.report(st, "uninit", "copy of memory that is not certainly initialised", end=False)
        for lo, hi, v in so.regs:
            if st.f.entails(lo - soff - n) or st.f.entails(soff - hi): continue
            val = v if val is None else self.vjoin(st, val, v)
        if not self.written_regs_only(st, so, soff, n):
            b = so.base
            if b == "uninit": b = "unk"
            val = b if val is None else self.vjoin(st, val, b)
        self.fill(st, do, doff, n, val if val is not None else "unk")

    # ------------------------------------------------ calls
    def do_call(self, f, fid, b, idx, ins, st, rets):
        callee = ins.d["callee"]
        if callee[0] == "g":
            name = callee[1]
        elif callee[0] == "asm":
            raise Unsupported("inline asm")
        else:
            v = self.val(st, callee)
            if v is UN: self.report(st, "uninit", "call through an uninitialised pointer")
            if isinstance(v, P) and v.o == 0 or (isinstance(v, I) and v.p == ZERO):
                self.report(st, "null", "call through a null pointer")
            if isinstance(v, FN): name = v.name
            else:
                name = None
                if isinstance(v, XP) and ("cb", v.id) in self.memo:
                    name = self.memo[("cb", v.id)]
                elif isinstance(v, XP) and st.unk.get(("null", v.id)) is True:
                    self.report(st, "null", "call through a null pointer")
        if name and name.startswith(("llvm.dbg", "llvm.assume")):
            return [("cont", st)]
        args = [self.val(st, o) if o[0] not in ("m", "b", "?") else None for o in ins.ops]
        for k, sz in ins.d.get("byval", ()):
            pass
        if name is None:
            self.stats["ext"]["<unknown pointer>"] = self.stats["ext"].get("<unknown pointer>", 0) + 1
            return self.havoc_call(st, ins, args)
        name = self.overrides.get(name, name)
        m = self.models.find(name)
        fn = self.prog.funcs.get(name)
        if m is not None and (fn is None or fn.decl or name in self.models.force):
            self.stats["ext"][name] = self.stats["ext"].get(name, 0) + 1
            self.curcallee = name
            try:
                outs = m(self, st, ins, args, f, fid, b, idx)
            except LongJmp as e:
                return self.longjmp(st, e.key, e.val, f, fid)
            res = []
            for o in outs:
                if o[0] == "ok":
                    if ins.ty != "void":
                        if o[1] is None: raise Unsupported("model of %s returned nothing" % name)
                        o[2].env[ins.id] = o[1]
                    res.append(("cont", o[2]))
                elif o[0] == "lj":
                    res.extend(self.route_lj(o, fid))
                else:
                    res.append(o)
            return res
        if fn is None or fn.decl:
            self.stats["unmodelled"][name] = self.stats["unmodelled"].get(name, 0) + 1
            return self.havoc_call(st, ins, args)
        if len(args) < len(fn.args):
            raise Unsupported("call of %s with too few arguments" % name)
        need = self.needed(f, b, idx + 1)
        st.env = {k: v for k, v in st.env.items() if k in need}
        outs = self.call_function(st, name, args)
        res = []
        for o in outs:
            if o[0] == "ret":
                if ins.ty != "void": o[2].env[ins.id] = o[1]
                res.append(("cont", o[2]))
            elif o[0] == "lj":
                res.extend(self.route_lj(o, fid))
            else:
                res.append(o)
        return res

    def route_lj(self, o, fid):
        _, tfid, tb, ti, val, s = o
        if tfid is fid:
            ins = None
            return [("goto", tb, ti + 1, self.resume(s, tfid, tb, ti, val))]
        return [o]

    def resume(self, s, tfid, tb, ti, val):
        """continue after the setjmp call (tb,ti) with return value val"""
        ins = self.curfunc_of(s, tfid).blocks[tb][ti]
        s.env[ins.id] = val
        snap = s.ghost.get(("jsnap", id(tfid), tb, ti))
        if snap:
            for oid, ver in snap[1].items():
                o = s.mem.get(oid)
                if o is not None and o.alive and o.ver != ver and not o.vol and o.kind == "stack":
                    w = s.w(oid)
                    # indeterminate: a non-volatile local changed between setjmp and longjmp
                    w.cells = {k: (sz, UN) for k, (sz, v) in w.cells.items()}
                    w.regs = (); w.sym = {}; w.base = "uninit" if w.base == "uninit" else w.base
        return s

    def curfunc_of(self, s, fid):
        return self.fid2func[fid]

    fid2func = {}

    def do_setjmp(self, st, ins, ptr, f, fid, b, idx):
        key = (ptr.o, ptr.off) if isinstance(ptr, P) else ("x", repr(ptr))
        if isinstance(ptr, P):
            self.access(st, ptr, 8, True, "setjmp buffer write")
        st.jmps[key] = (fid, b, idx)
        self.fid2func[fid] = f
        st.ghost[("jsnap", id(fid), b, idx)] = ("snap", {oid: o.ver for oid, o in st.mem.items() if o.kind == "stack" and o.frame is fid})
        return [("ok", I(ZERO, 32), st)]

    def longjmp_outs(self, st, key, val):
        t = st.jmps.get(key)
        if t is None or t[0] not in st.frames:
            self.report(st, "longjmp", "longjmp to a function that has already returned or without setjmp")
        return ("lj", t[0], t[1], t[2], val, st)

    def longjmp(self, st, key, val, f, fid):
        return self.route_lj(self.longjmp_outs(st, key, val), fid)

    def havoc_call(self, st, ins, args):
        for a in args:
            if isinstance(a, P) and a.o != 0:
                o = st.mem.get(a.o)
                if o is not None and o.alive and not o.const and o.kind not in ("FILE",):
                    w = st.w(o.id)
                    w.cells = {}; w.regs = (); w.sym = {}; w.segs = (); w.base = "unk"
        if ins.ty != "void":
            st.env[ins.id] = self.unknown(st, ins.ty, "ext") if ins.ty[0] not in "{[" else AG(())
        return [("cont", st)]

Engine.V = sys.modules[__name__]
from loops import LoopMixin
Engine.handle_loop = LoopMixin.handle_loop
for _n in dir(LoopMixin):
    if not _n.startswith("__"):
        setattr(Engine, _n, getattr(LoopMixin, _n))
