"""Joining of analysis states.

Two states at the same program point that have the same shape - equal up to a renaming of the
symbols and objects that appeared since they separated - are merged when the facts of one are implied by
those of the other (the weaker one represents both), and, when there are many, by keeping the
facts that both share."""
import math
from num import *

class NoKey(Exception):
    pass

class Canon:
    """canonical form of what is live in a state"""
    def __init__(self, E, st, ret, envids, full=False, coarse=False, base=None):
        self.coarse = coarse
        self.E = E; self.st = st
        out = []
        if base is None:
            self.sn = {}; self.syms = []
            self.on = {}; self.objs = []
            self.xn = {}; self.fn = {}; self.un = {}
            self.fls = []
            self.same = (); frames = ()
        else:
            self.sn = dict(base.sn); self.syms = list(base.syms)
            self.on = dict(base.on); self.objs = list(base.objs)
            self.xn = dict(base.xn); self.fn = dict(base.fn); self.un = dict(base.un)
            self.fls = list(base.fls)
            self.same = base.same; frames = base.frames
            out.append(tuple([E.frng(st, v) for v in self.fls]))
        out.append(self.tok(ret))
        env = st.env
        for k in sorted(env):
            if envids is None or k in envids: out.append((k, self.tok(env[k])))
        for i, fr in enumerate(st.stack):
            if i in frames: continue
            for k in sorted(fr): out.append((k, self.tok(fr[k])))
        gh = []
        for g, v in st.ghost.items():
            r = GREPR.get(g)
            if r is None: r = GREPR[g] = repr(g)
            gh.append((r, g, v))
        gh.sort(key=first)
        for r, g, v in gh:
            if isinstance(g, tuple) and g[0] == "jsnap":
                out.append((r,)); continue
            out.append((r, self.tok(v)))
        for k in sorted(st.jmps, key=repr):
            o, off = k
            v = st.jmps[k]
            if isinstance(o, int):
                if o not in st.mem: continue
                out.append((self.objtok(o), self.ptok(off), v and (id(v[0]),) + v[1:]))
            else: out.append((k, v and (id(v[0]),) + v[1:]))
        init0 = E.init0
        for oid in st.mem if base is None else sorted(st.mem.keys() - self.same):
            o = st.mem[oid]
            if (o.kind == "root" or (o.kind == "global" and not o.const) or o.kind == "FILE" and o.attrs.get("std")) and init0.get(oid) is not o:
                self.objtok(oid)
        done = 0
        while done < len(self.objs):
            oid = self.objs[done]; done += 1
            out.append(self.objcontents(oid) if full else self.objshape(oid))
        # relations between live floats
        rel = []
        for k, v in st.ford.items():
            a, b = k
            if a in self.fn and b in self.fn:
                a = self.fn[a]; b = self.fn[b]
                if a <= b: rel.append((a, b, v))
                else: rel.append((b, a, "".join(sorted(v.translate(self.E.FFLIP)))))
        rel.sort()
        out.append(tuple(rel))
        un = []
        for k, v in st.unk.items():
            if isinstance(k, int):
                if k in self.un: un.append((0, self.un[k], v))
            elif k[0] == "null":
                if k[1] in self.xn: un.append((1, self.xn[k[1]], v))
            else: un.append((2, repr(k), v))
        un.sort()
        out.append(tuple(un))
        out.append(len(st.frames))
        self.key = tuple(out)

    def symtok(self, s):
        n = self.sn.get(s)
        if n is None:
            n = self.sn[s] = len(self.syms)
            self.syms.append(s)
            S = SYMS[s]
            d = ()
            if S.div is not None: d = ("div", self.ptok(S.div[0]), self.ptok(S.div[1]))
            elif S.cond is not None: d = ("cond", self.ctok(S.cond))
            elif S.wrap is not None: d = ("wrap", self.ptok(S.wrap[0]), S.wrap[1])
            elif S.memo is not None: d = ("memo", self.gen(S.memo))
            if d: return (n, d)
        return n

    def ptok(self, p):
        if not p.t: return p.c
        toks = []
        for s in sorted(p.syms()):
            t = self.symtok(s)
            if not isinstance(t, int): toks.append(t)
        sn = self.sn
        if len(p.t) == 1:
            (m, k), = p.t.items()
            body = ((tuple(sorted(sn[s] for s in m)), k),)
        else:
            body = tuple(sorted((tuple(sorted(sn[s] for s in m)), k) for m, k in p.t.items()))
        return (body, p.c, tuple(toks)) if toks else (body, p.c)

    def ctok(self, c):
        k = c[0]
        if k == "c": return c
        if k == "not": return ("not", self.ctok(c[1]))
        if k in ("ge", "eq"): return (k, self.ptok(c[1]))
        if k == "b": return ("b", self.symtok(c[1]))
        if k == "u":
            if isinstance(c[1], int): return ("u", self.un.setdefault(c[1], len(self.un)))
            if c[1][0] == "null": return ("un", self.xn.setdefault(c[1][1], len(self.xn)))
            return ("u", repr(c[1]))
        if k == "fc": return ("fc", c[1], self.tok(c[2]), self.tok(c[3]))
        if k == "fk": return ("fk", c[1], self.tok(c[2]))
        return repr(c)

    def gen(self, x):
        if isinstance(x, Poly): return self.ptok(x)
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "f" and isinstance(x[1], int):
                return ("f", self.fn.setdefault(x[1], len(self.fn)))
            if len(x) and x[0] == "ld":
                return ("ld", self.objtok(x[1]) if x[1] in self.st.mem else x[1]) + tuple(self.gen(y) for y in x[2:])
            if len(x) == 3 and x[0] == "loop": return x[:2]
            return tuple(self.gen(y) for y in x)
        if isinstance(x, (int, float, str, bool)) or x is None: return x
        if isinstance(x, frozenset): return x
        return self.tok(x)

    def objtok(self, oid):
        n = self.on.get(oid)
        if n is None:
            if oid in self.same: return ("g", oid)
            o = self.st.mem.get(oid)
            if o is None: return ("dead", oid)
            if o.const and o.kind == "global" or self.E.init0.get(oid) is o: return ("g", oid)
            n = self.on[oid] = len(self.objs)
            self.objs.append(oid)
        return n

    def tok(self, v):
        E = self.E; M = E.V
        t = type(v)
        if t is M.I: return ("i", v.w, self.ptok(v.p))
        if t is M.P: return ("p", self.objtok(v.o) if v.o else 0, self.ptok(v.off), v.gen)
        if t is M.FL:
            lo, hi, nan = E.frng(self.st, v)
            n = self.fn.setdefault(v.id, len(self.fn))
            self.fls.append(v)
            return ("F", lo, hi, nan, v.lb and self.ptok(v.lb), v.ub and self.ptok(v.ub), v.num and self.ptok(v.num), n, self.gen(v.ex))
        if t is M.B: return ("b", self.ctok(v.c))
        if t is M.XP: return ("x", self.xn.setdefault(v.id, len(self.xn)), v.nn)
        if t is M.FN: return ("fn", v.name)
        if t is M.AG: return ("a",) + tuple(self.tok(x) for x in v.v)
        if t is Poly: return self.ptok(v)
        if v is M.UN: return "UN"
        if t is M.Rec: return ("R", v.es, tuple((a, z, self.tok(x)) for a, z, x in v.f))
        if v is None or t in (int, str, bool, float): return v
        if t is tuple: return self.gen(v)
        if t is dict: return tuple(sorted((repr(a), self.tok(b)) for a, b in v.items()))
        if t is set or t is frozenset: return tuple(sorted(map(repr, v)))
        raise NoKey(repr(v))

    def objcontents(self, oid):
        o = self.st.mem[oid]
        b = o.base
        if o.kind == "FILE" and o.alive and "mark" not in o.attrs:
            # position and known bytes are joined, not part of the shape
            at = [k for k in o.attrs if k != "pos" and k != "bulk" and not (isinstance(k, tuple) and k[0] == "byte")]
            return (o.kind, o.label, o.site, o.const, tuple((repr(k), self.tok(o.attrs[k])) for k in sorted(at, key=repr)))
        return (o.kind, o.label, o.site, o.alive, o.gen, o.const, o.vol, id(o.frame) if o.frame is not None else 0,
                None if o.size is None else self.ptok(o.size),
                tuple((k, o.cells[k][0], self.tok(o.cells[k][1])) for k in sorted(o.cells)),
                tuple(sorted(((self.ptok(k), s, self.tok(v)) for k, (s, v) in sorted(o.sym.items(), key=lambda x: repr(x[0]))), key=repr)),
                tuple((self.ptok(lo), self.ptok(hi), self.tok(v)) for lo, hi, v in o.regs),
                self.tok(b),
                tuple(self.gen(x) for x in o.segs),
                tuple((repr(k), self.tok(o.attrs[k])) for k in sorted(o.attrs, key=repr)) if not o.attrs.get("sortver") else
                tuple((repr(k), self.tok(o.attrs[k])) for k in sorted(o.attrs, key=repr) if k != "sortver") + (o.attrs["sortver"] == o.ver,),
                o.data)

    def objshape(self, oid):
        o = self.st.mem[oid]
        if self.coarse and isdata(o):
            return ("data", o.kind, o.label, o.site, o.alive, o.gen, o.vol, id(o.frame) if o.frame is not None else 0, self.ptok(o.size),
                    tuple((repr(k), self.tok(o.attrs[k])) for k in sorted(o.attrs, key=repr) if k not in ("sortver", "sorted")))
        c = o.cshape
        if c is None:
            c = o.cshape = Local(self, oid).shape()
        k, syms, objs, fls, xs, us, fids = c
        r = [k]
        if syms: r.append(tuple([self.symtok(s) for s in syms]))
        if objs: r.append(tuple([self.objtok(x) for x in objs]))
        if fls:
            ft = []
            for v in fls:
                ft.append(self.E.frng(self.st, v)); self.fls.append(v)
            r.append(tuple(ft))
        if fids: r.append(tuple([self.fn.setdefault(x, len(self.fn)) for x in fids]))
        if xs: r.append(tuple([self.xn.setdefault(x, len(self.xn)) for x in xs]))
        if us: r.append(tuple([self.un.setdefault(x, len(self.un)) for x in us]))
        return tuple(r)

def isdata(o):
    """arrays of plain values, whose contents may be joined"""
    if o.kind not in ("heap", "vla", "stack") or o.size is None: return False
    if not o.size.t and o.size.c < 64: return False
    return not o.crefs if o.crefs is not None else not any(type(v).__name__ == "P" for s, v in o.cells.values())

def datajoin(E, a, b, x, y, m):
    """contents of object x of state a: what also holds for y of state b (m: symbols of a -> b)"""
    A, B = a.st.mem[x], b.st.mem[y]
    if A.regs == B.regs and A.cells == B.cells and A.sym == B.sym and A.base is B.base and A.segs == B.segs: return
    E.cjoin = True
    FL = E.V.FL
    w = a.st.w(x)
    vals = []
    for st, o in ((a.st, A), (b.st, B)):
        for s, v in o.cells.values(): vals.append((st, v))
        for s, v in o.sym.values(): vals.append((st, v))
        for lo, hi, v in o.regs: vals.append((st, v))
        for sg in o.segs: vals.append((st, sg[4]))
        if o.base != "uninit": vals.append((st, o.base))
    h = None
    for st, v in vals:
        if v is E.V.UN: continue
        if v == "zero": r = (0.0, 0.0, False)
        elif type(v) is FL: r = E.frng(st, v)
        else: h = "unk"; break
        h = r if h is None else (min(h[0], r[0]), max(h[1], r[1]), h[2] or r[2])
    vis = a.sn
    ub = lb = None
    if h is not None and h != "unk":
        fl = [(st, v) for st, v in vals if type(v) is FL]
        def bound(st, v, up):
            q = v.ub if up else v.lb
            if q is not None: return q
            x = E.frng(st, v)[1 if up else 0]
            return None if abs(x) > 2.0**53 else const(math.ceil(x) if up else math.floor(x))
        def pick(up):
            qs = [(st, bound(st, v, up)) for st, v in fl]
            if any(q is None for _, q in qs): return None
            for c in {repr(q): q for st, q in qs if q.t and st is a.st}.values():
                if not all(s in vis for s in c.syms()): continue
                cb = c.subst(m)
                if all((x.f.entails((c if x is a.st else cb) - q) if up else x.f.entails(q - (c if x is a.st else cb))) for x, q in qs) and \
                        (all(type(v) is FL for _, v in vals) or all(x.f.entails((y if up else -y)) for x, y in ((a.st, c), (b.st, cb)))): return c
        ub = pick(True); lb = pick(False)
    V = "unk" if h == "unk" else (E.V.FL(*h, lb, ub) if h is not None else "unk")
    keep = []
    if A.base == "uninit" or B.base == "uninit":
        for lo, hi, v in A.regs:
            if v is E.V.UN: continue
            if not all(s in vis for s in lo.syms()) or not all(s in vis for s in hi.syms()): continue
            l2, h2 = lo.subst(m), hi.subst(m)
            if E.written(b.st, B, l2, h2 - l2): keep.append((lo, hi, V))
        base = "uninit"
    else: base = A.base if A.base == B.base and not vals else V
    cells = {k: c for k, c in A.cells.items() if B.cells.get(k) == c and type(c[1]) is not FL}
    w.cells = cells; w.sym = {}; w.segs = (); w.regs = tuple(keep); w.base = base
    for k in ("sortver", "sorted"): w.attrs.pop(k, None)

def exactkey(E, st):
    """identity of a state: its shape together with the very symbols, objects and facts"""
    c = Canon(E, st, None, None)
    return (c.key, tuple(c.syms), tuple(c.objs), tuple(c.fn), tuple(c.xn), tuple(c.un), frozenset(st.f.f),
            frozenset((s, b) for s, b in st.f.b.items() if s in c.sn), frozenset(st.f.neq))

INTERN = {}
GREPR = {}
def first(x): return x[0]

class Common(Canon):
    """what a set of states shares (the very same objects and callers' frames): common to all their canonical forms"""
    def __init__(self, E, sts):
        self.E = E; st = self.st = sts[0]
        self.coarse = False
        self.sn = {}; self.syms = []; self.on = {}; self.objs = []
        self.xn = {}; self.fn = {}; self.un = {}; self.fls = []
        self.same = same = set(); init0 = E.init0
        rest = [s.mem for s in sts[1:]]
        for oid, o in st.mem.items():
            for r in rest:
                if r.get(oid) is not o: break
            else: same.add(oid)
        for oid in same:
            o = st.mem[oid]
            if init0.get(oid) is o: continue
            c = o.cshape
            if c is None: c = o.cshape = Local(self, oid).shape()
            k, syms, objs, fls, xs, us, fids = c
            for s in syms: self.symtok(s)
            for x in objs: self.objtok(x)
            self.fls.extend(fls)
            for x in fids: self.fn.setdefault(x, len(self.fn))
            for x in xs: self.xn.setdefault(x, len(self.xn))
            for x in us: self.un.setdefault(x, len(self.un))
        n = len(st.stack)
        self.frames = set()
        for i, fr in enumerate(st.stack):
            if all(i < len(s.stack) and s.stack[i] is fr for s in sts):
                self.frames.add(i)
                for v in fr.values(): self.tok(v)

class Local(Canon):
    """contents of one object, with its symbols and references numbered locally (cached)"""
    def __init__(self, c, oid):
        self.E = c.E; self.st = c.st; self.oid = oid
        self.sn = {}; self.syms = []; self.on = {}; self.objs = []
        self.xn = {}; self.fn = {}; self.un = {}; self.fls = []

    def shape(self):
        k = self.objcontents(self.oid)
        k = INTERN.setdefault(k, len(INTERN))
        return (k, tuple(self.syms), tuple(self.objs), tuple(self.fls), tuple(self.xn), tuple(self.un), tuple(self.fn))

    def symtok(self, s):
        n = self.sn.get(s)
        if n is None:
            n = self.sn[s] = len(self.syms)
            self.syms.append(s)
        return n

    def objtok(self, oid):
        n = self.on.get(oid)
        if n is None:
            n = self.on[oid] = len(self.objs)
            self.objs.append(oid)
        return n

    def gen(self, x):
        if isinstance(x, tuple) and len(x) and x[0] == "ld":
            return ("ld", self.objtok(x[1])) + tuple(self.gen(y) for y in x[2:])
        return Canon.gen(self, x)

    def tok(self, v):
        if type(v) is self.E.V.FL:
            n = self.fn.setdefault(v.id, len(self.fn))
            self.fls.append(v)
            return ("F", v.lb and self.ptok(v.lb), v.ub and self.ptok(v.ub), v.num and self.ptok(v.num), n, self.gen(v.ex))
        return Canon.tok(self, v)

def covers(a, b):
    """do the facts of a (over live symbols) hold in b?  -> list of a's visible facts that do not"""
    A, B = a.st.f, b.st.f
    m = {x: sym(y) for x, y in zip(a.syms, b.syms) if x != y}
    vis = a.sn
    bad = []
    for f in A.f:
        if not all(s in vis for s in f.syms()): continue
        g = f.subst(m) if m and not f.syms().isdisjoint(m) else f
        if g in B.f: continue
        if not B.entails(g): bad.append(f)
    wide = {}
    for x, y in zip(a.syms, b.syms):
        la, ha = A.bounds(x); lb, hb = B.bounds(y)
        if la > lb or ha < hb: wide[x] = (min(la, lb), max(ha, hb))
    badn = []
    for q in A.neq:
        if not all(s in vis for s in q.syms()): continue
        g = q.subst(m) if m else q
        if g in B.neq or -g in B.neq: continue
        lo, hi = B.iv(g)
        if lo > 0 or hi < 0: continue
        if B.entails(g - 1) or B.entails(-g - 1): continue
        badn.append(q)
    return bad, wide, badn

def weaken(E, a, bad, wide, badn, b):
    """restrict a's facts to those known to hold in b as well"""
    st = a.st; other = b.st
    m = {x: sym(y) for x, y in zip(a.syms, b.syms) if x != y}
    F = Facts()
    vis = a.sn
    bs = set(bad)
    F.b = {}
    for s, (l, h) in st.f.b.items():
        if s in vis: F.b[s] = (l, h)
        else:
            l2, h2 = other.f.bounds(s)
            F.b[s] = (min(l, l2), max(h, h2))
    for s, (l, h) in wide.items(): F.b[s] = (l, h)
    for f in st.f.f:
        if f in bs: continue
        if all(s in vis for s in f.syms()): F.f[f] = True
        else:
            g = f.subst(m) if m and not f.syms().isdisjoint(m) else f
            if g in other.f.f: F.f[f] = True
    nb = set(badn)
    F.neq = tuple(q for q in st.f.neq if q not in nb and all(s in vis for s in q.syms()))
    st.f = F
    for x, y in zip(a.objs, b.objs):
        o, p = st.mem[x], other.mem[y]
        if o.kind != "FILE" or not o.alive or "mark" in o.attrs: continue
        A, B = o.attrs, p.attrs
        drop = []
        for k in A:
            if isinstance(k, tuple) and k[0] == "byte":
                if k in B and B[k] == A[k]: continue
                l, h = F.iv(A[k]); l2, h2 = other.f.iv(B[k]) if k in B else (0, 1)
                if not (l == h == l2 == h2): drop.append(k)
        if drop or A["pos"] != B["pos"] or A["bulk"] != B["bulk"]:
            w = st.w(x, False)
            for k in drop: del w.attrs[k]
            if A["pos"] != B["pos"]: w.attrs["pos"] = sym(E.fixsym(("pos", x, 0)))
            w.attrs["bulk"] = ZERO
    if st.path != other.path: st.path = joinpath(st.path, other.path)
    if st.it != other.it:
        st.it = None if st.it is None or other.it is None or len(st.it | other.it) > 16 else st.it | other.it

def joinpath(a, b):
    """conditions of two joined paths: the common ones, and the alternatives"""
    sb = set(b); sa = set(a)
    com = tuple(x for x in a if x in sb)
    def alts(p, o):
        """remaining conditions as a set of conjunctions"""
        r = [()]
        for x in p:
            if x in o: continue
            if x[0] == "alt": r = [q + tuple(y) for q in r for y in x[1]]
            else: r = [q + (x,) for q in r]
            if len(r) > 8: return None
        return r
    ra, rb = alts(a, sb), alts(b, sa)
    if ra is None or rb is None or () in ra or () in rb or len(ra) + len(rb) > 8: return com
    return com + (("alt", tuple(dict.fromkeys(ra + rb))),)

JOIN = 6

DJ = 2

def merge(E, states, ret=None, envids=None, join=JOIN, data=False):
    """states: list of (state, ret); returns the indices that remain (states are weakened in place)"""
    n = len(states)
    if n < 2: return list(range(n))
    groups = {}
    keep = []
    for st, rv in states:
        if not st.f.bot: E.settle(st)
    live = [st for st, _ in states if not st.f.bot]
    try: base = Common(E, live) if len(live) > 1 else None
    except NoKey: base = None
    for i, (st, rv) in enumerate(states):
        if st.f.bot: continue
        try:
            c = Canon(E, st, rv, envids, base=base)
        except NoKey:
            keep.append(i); continue
        groups.setdefault(c.key, []).append((i, c))
    for key, g in groups.items():
        if len(g) == 1:
            keep.append(g[0][0]); continue
        reps = []
        for i, c in g:
            done = False
            for r in reps:
                bad, wide, badn = covers(r[1], c)
                if not bad and not wide and not badn:
                    weaken(E, r[1], (), {}, (), c); done = True; break
                b2, w2, n2 = covers(c, r[1])
                if not b2 and not w2 and not n2:
                    weaken(E, c, (), {}, (), r[1])
                    r[0], r[1] = i, c; done = True; break
            if not done:
                reps.append([i, c])
        if len(reps) > join:
            r = reps[0]
            for x in reps[1:]:
                bad, wide, badn = covers(r[1], x[1])
                weaken(E, r[1], bad, wide, badn, x[1])
            reps = [r]
            E.stats["joined"] = E.stats.get("joined", 0) + 1
        keep.extend(r[0] for r in reps)
    if data and len(keep) > DJ:
        groups = {}
        for i in keep:
            try: c = Canon(E, states[i][0], states[i][1], envids, coarse=True, base=base)
            except NoKey:
                groups[i] = [(i, None)]; continue
            groups.setdefault(c.key, []).append((i, c))
        keep = []
        for key, g in groups.items():
            if len(g) > DJ:
                i, r = g[0]
                for j, x in g[1:]:
                    m = {p: sym(q) for p, q in zip(r.syms, x.syms) if p != q}
                    for p, q in zip(r.objs, x.objs):
                        if p in r.st.mem and isdata(r.st.mem[p]): datajoin(E, r, x, p, q, m)
                    bad, wide, badn = covers(r, x)
                    weaken(E, r, bad, wide, badn, x)
                E.stats["datajoins"] = E.stats.get("datajoins", 0) + len(g) - 1
                keep.append(i)
            else: keep.extend(i for i, c in g)
    import os
    if os.environ.get("SA_MERGE") and len(keep) > int(os.environ.get("SA_MERGEN", 40)) and E.callstack and E.callstack[-1] == os.environ["SA_MERGE"]:
        explain(E, [states[i] for i in sorted(keep)], ret, envids)
    E.stats["merged"] = E.stats.get("merged", 0) + n - len(keep)
    keep.sort()
    return keep

def explain(E, states, ret=None, envids=None):
    import sys, os
    g = {}
    for i, (st, rv) in enumerate(states):
        c = Canon(E, st, rv, envids, True)
        g.setdefault(c.key, []).append(c)
    sys.stderr.write("MERGE at %s: %d states, %d shapes\n" % (E.cur.loc if E.cur else None, len(states), len(g)))
    ks = list(g)
    for k in ks[1:14]:
        A = {repr(x) for x in ks[0]}; B = {repr(x) for x in k}
        for x in A - B: sys.stderr.write("    - %s\n" % x[:700])
        for x in B - A: sys.stderr.write("    + %s\n" % x[:700])
        sys.stderr.write("  --\n")
    for k, cs in g.items():
        if len(cs) > 1:
            for c in cs[1:4]:
                sys.stderr.write("    same shape, facts: %s\n" % (covers(cs[0], c),))
