"""Numeric domain: polynomials over symbolic values, linear facts over their monomials.

A symbol stands for one fixed (unknown) runtime value, so a fact once established about symbols
never has to be retracted.  Entailment is decided inside this module: intervals first, then a linear
(Farkas) certificate over facts and products of facts, found by an exact rational simplex - the
entailment operation of the polyhedra domain over monomials."""
from fractions import Fraction
from math import gcd

class Sym:
    __slots__ = ("id", "name", "lo", "hi", "div", "cond", "defs", "wrap", "memo", "conds")

SYMS = []

def newsym(name, lo=None, hi=None):
    s = Sym()
    s.id = len(SYMS); s.name = name; s.lo = lo; s.hi = hi
    s.div = None; s.cond = None; s.defs = (); s.wrap = None; s.memo = None; s.conds = ()
    SYMS.append(s)
    return s.id

import os, array
IDS = os.environ.get("SA_IDS")
class Poly:
    __slots__ = ("t", "c", "h", "_syms")
    # t: dict monomial(tuple of sym ids, sorted) -> int ; c: int constant
    def __init__(self, t, c):
        self.t = t; self.c = c; self.h = None; self._syms = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((frozenset(self.t.items()), self.c))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def isconst(self):
        return not self.t

    def syms(self):
        if self._syms is None:
            s = set()
            for m in self.t:
                s.update(m)
            self._syms = s
        return self._syms

    def __add__(self, o):
        if isinstance(o, int):
            return Poly(self.t, self.c + o)
        if not o.t:
            return Poly(self.t, self.c + o.c)
        if not self.t:
            return Poly(o.t, self.c + o.c)
        t = dict(self.t)
        for m, k in o.t.items():
            v = t.get(m, 0) + k
            if v:
                t[m] = v
            else:
                del t[m]
        return Poly(t, self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -k for m, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Poly(self.t, self.c - o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            if o == 1:
                return self
            return Poly({m: k * o for m, k in self.t.items()}, self.c * o)
        if not o.t:
            return self * o.c
        if not self.t:
            return o * self.c
        t = {}
        for m, k in self.t.items():
            for n, l in o.t.items():
                mm = tuple(sorted(m + n))
                v = t.get(mm, 0) + k * l
                if v:
                    t[mm] = v
                else:
                    t.pop(mm, None)
            if o.c:
                v = t.get(m, 0) + k * o.c
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        if self.c:
            for n, l in o.t.items():
                v = t.get(n, 0) + self.c * l
                if v:
                    t[n] = v
                else:
                    t.pop(n, None)
        return Poly(t, self.c * o.c)

    __rmul__ = __mul__

    def subst(self, m):
        """m: sym -> Poly"""
        if not any(s in m for s in self.syms()):
            return self
        r = Poly({}, self.c)
        for mono, k in self.t.items():
            if any(s in m for s in mono):
                term = Poly({}, k)
                for s in mono:
                    term = term * (m[s] if s in m else Poly({(s,): 1}, 0))
                r = r + term
            else:
                r = r + Poly({mono: k}, 0)
        return r

    def single(self):
        """the symbol if this is exactly one symbol, else None"""
        if self.c == 0 and len(self.t) == 1:
            (m, k), = self.t.items()
            if k == 1 and len(m) == 1:
                return m[0]
        return None

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def __repr__(self):
        out = []
        for m, k in sorted(self.t.items()):
            n = "*".join(SYMS[s].name + ("#%d" % s if IDS else "") for s in m)
            if k == 1:
                out.append("+" + n)
            elif k == -1:
                out.append("-" + n)
            else:
                out.append("%+d*%s" % (k, n))
        if self.c or not out:
            if abs(self.c) >= 2**31 - 1:
                for b in (31, 32, 63, 64):
                    if abs(self.c - 2**b) <= 4:
                        out.append("+2^%d%+d" % (b, self.c - 2**b)); break
                    if abs(self.c + 2**b) <= 4:
                        out.append("-2^%d%+d" % (b, self.c + 2**b)); break
                else:
                    out.append("%+d" % self.c)
            else:
                out.append("%+d" % self.c)
        s = " ".join(out)
        return s[1:] if s.startswith("+") else s

ZERO = Poly({}, 0)
ONE = Poly({}, 1)

def const(c):
    return Poly({}, c)

def sym(s):
    return Poly({(s,): 1}, 0)

def fresh(name, lo=None, hi=None):
    return sym(newsym(name, lo, hi))

_divmemo = {}

def divsym(num, den):
    """floor(num/den) for num >= 0, den >= 1"""
    # floor(floor(a/b)/c) == floor(a/(b*c))
    s = num.single()
    if s is not None and SYMS[s].div:
        n0, d0 = SYMS[s].div
        return divsym(n0, d0 * den)
    if den.isconst() and num.isconst():
        return const(num.c // den.c)
    if den.isconst() and den.c == 1:
        return num
    if den.isconst() and num.c % den.c == 0 and all(k % den.c == 0 for k in num.t.values()):
        return Poly({m: k // den.c for m, k in num.t.items()}, num.c // den.c)
    key = (num, den)
    q = _divmemo.get(key)
    if q is None:
        i = newsym("(%r)/(%r)" % (num, den), 0, None)
        q = sym(i)
        SYMS[i].div = (num, den)
        if num.isconst():
            SYMS[i].hi = num.c
        SYMS[i].defs = (num - den * q, den * q + den - 1 - num)
        _divmemo[key] = q
    return q

def divsym_exact(p, n):
    """p/n as a polynomial, or None when it does not divide exactly"""
    if n == 0: return None
    if p.c % n or any(k % n for k in p.t.values()):
        return None
    return Poly({m: k // n for m, k in p.t.items()}, p.c // n)

def divpoly(p, q):
    """m with p == m*q for a monomial q (one term), else None"""
    if len(q.t) != 1 or q.c: return None
    (qm, qk), = q.t.items()
    if p.c: return None
    out = {}
    for m, k in p.t.items():
        if k % qk: return None
        r = list(m)
        for s in qm:
            if s not in r: return None
            r.remove(s)
        r = tuple(r)
        if r: out[r] = k // qk
        else: out[()] = k // qk
    c = out.pop((), 0)
    return Poly(out, c)

def norm(p):
    """integer tightening of p >= 0"""
    if not p.t:
        return p
    g = 0
    for k in p.t.values():
        g = gcd(g, k)
        if g == 1:
            return p
    return Poly({m: k // g for m, k in p.t.items()}, p.c // g)

def factors(p):
    """p as a product of simpler polynomials up to a nonzero constant (for p != 0 and p == 0), or None"""
    if not p.t: return None
    ms = iter(p.t)
    com = list(next(ms))
    if p.c or len(p.t) == 1 and len(com) == 1: com = []
    else:
        for m in ms:
            left = list(m); keep = []
            for x in com:
                if x in left: left.remove(x); keep.append(x)
            com = keep
            if not com: break
    g = 0
    for k in p.t.values(): g = gcd(g, k)
    if g == 1 and not com: return None
    if p.c % g: return None
    if not com: return [Poly({m: k // g for m, k in p.t.items()}, p.c // g)]
    out = [Poly({(x,): 1}, 0) for x in dict.fromkeys(com)]
    t = {}; c = 0
    for m, k in p.t.items():
        m = list(m)
        for x in com: m.remove(x)
        if m: t[tuple(m)] = k // g
        else: c = k // g
    if t: out.append(Poly(t, c))
    return out

INF = float("inf")

class Facts:
    """conjunction of p >= 0 facts, symbol bounds, disequalities; copied on fork"""
    __slots__ = ("f", "b", "neq", "bot", "ver", "_cache", "prov")

    def __init__(self):
        self.f = {}      # Poly -> True   (insertion ordered)
        self.b = {}      # sym -> (lo, hi)
        self.neq = ()    # polys known != 0
        self.bot = False
        self._cache = {}

    def copy(self):
        o = Facts.__new__(Facts)
        o.f = dict(self.f); o.b = dict(self.b); o.neq = self.neq; o.bot = self.bot
        o._cache = dict(self._cache) if len(self._cache) < 400 else {}
        return o

    def bounds(self, s):
        r = self.b.get(s)
        S = SYMS[s]
        if r is None:
            r = (-INF if S.lo is None else S.lo, INF if S.hi is None else S.hi)
        if S.div is not None:
            num, den = S.div
            nl, nh = self.iv(num)
            dl, dh = self.iv(den)
            if dl >= 1:
                l, h = r
                if nl > 0 and dh != INF and nl != INF:
                    l = max(l, nl // dh)
                if nh != INF:
                    h = min(h, nh // dl)
                return (l, h)
        return r

    def mono_iv(self, m):
        lo, hi = self.bounds(m[0])
        for s in m[1:]:
            l2, h2 = self.bounds(s)
            c = [mulinf(lo, l2), mulinf(lo, h2), mulinf(hi, l2), mulinf(hi, h2)]
            lo, hi = min(c), max(c)
        if len(m) == 2 and m[0] == m[1] and lo < 0:
            lo = 0
        return lo, hi

    def iv(self, p):
        lo = hi = p.c
        for m, k in p.t.items():
            l, h = self.mono_iv(m)
            if k > 0:
                lo = addinf(lo, mulinf(k, l)); hi = addinf(hi, mulinf(k, h))
            else:
                lo = addinf(lo, mulinf(k, h)); hi = addinf(hi, mulinf(k, l))
        return lo, hi

    # --- adding
    def add(self, p):
        """assume p >= 0; returns False when found infeasible"""
        if self.bot:
            return False
        p = norm(p)
        if not p.t:
            if p.c < 0:
                self.bot = True
                return False
            return True
        if p in self.f:
            return True
        lo, hi = self.iv(p)
        if hi < 0:
            self.bot = True
            return False
        if lo >= 0:
            return True
        for q in self.neq:
            if q == p or q == -p:
                self.neq = tuple(x for x in self.neq if x is not q)
                return self.add(p - 1)
        if len(p.t) == 1:
            (m, k), = p.t.items()
            if len(m) == 1:
                s = m[0]
                l, h = self.bounds(s)
                if k > 0:
                    l = max(l, -(p.c // k))       # k*s >= -c  -> s >= ceil(-c/k)
                else:
                    h = min(h, p.c // (-k))
                if l > h:
                    self.bot = True
                    return False
                self.setbound(s, l, h)
                return not self.bot
        q = norm(-p - 1)
        if q in self.f:
            self.bot = True
            return False
        self.f[p] = True
        self._drop(p)
        # simple bound propagation through this fact
        self._propagate(p)
        return not self.bot

    def _drop(self, p):
        self._cache = {}

    def setbound(self, s, l, h):
        ol, oh = self.bounds(s)
        if (l, h) == (ol, oh):
            return
        self.b[s] = (l, h)
        self._cache = {}
        S = SYMS[s]
        if S.div:
            num, den = S.div
            if l > ol and l != -INF and l > 0:
                self.add(num - den * l)
            if h < oh and h != INF:
                self.add(den * (h + 1) - 1 - num)
        if self.neq:
            for q in self.neq:
                if len(q.t) == 1:
                    (m, k), = q.t.items()
                    if m == (s,):
                        if q.c % k == 0:
                            v = -q.c // k
                            if v == l and l == h:
                                self.bot = True; return
                            if v == l:
                                self.setbound(s, l + 1, h); return
                            if v == h:
                                self.setbound(s, l, h - 1); return
        for f in list(self.f):
            if s in f.syms():
                self._propagate(f)
                if self.bot:
                    return

    def _propagate(self, p, depth=0):
        if len(p.t) > 6:
            return
        tot_hi = p.c
        infs = 0
        items = []
        for m, k in p.t.items():
            l, h = self.mono_iv(m)
            v = mulinf(k, h if k > 0 else l)
            items.append((m, k, v))
            if v == INF:
                infs += 1
            else:
                tot_hi += v
        if infs > 1:
            return
        if infs == 0 and tot_hi < 0:
            self.bot = True
            return
        for m, k, v in items:
            if len(m) != 1:
                continue
            if infs == 1 and v != INF:
                continue
            rest = tot_hi if v == INF else tot_hi - v
            # k*s + rest >= 0
            s = m[0]
            l, h = self.bounds(s)
            if k > 0:
                nl = -(rest // k)
                if nl > l:
                    if nl > h:
                        self.bot = True; return
                    if l == -INF or nl - l > 0:
                        self._tight(s, nl, h)
            else:
                nh = rest // (-k)
                if nh < h:
                    if nh < l:
                        self.bot = True; return
                    self._tight(s, l, nh)
            if self.bot:
                return

    _depth = 0
    def _tight(self, s, l, h):
        # bounded recursion
        if Facts._depth > 6:
            self.b[s] = (l, h); self._cache = {}
            return
        Facts._depth += 1
        try:
            self.setbound(s, l, h)
        finally:
            Facts._depth -= 1

    def add_neq(self, p):
        if self.bot:
            return False
        if not p.t:
            if p.c == 0:
                self.bot = True
                return False
            return True
        fs = factors(p)
        if fs is not None:
            return all([self.add_neq(q) for q in fs])
        lo, hi = self.iv(p)
        if lo > 0 or hi < 0:
            return True
        if lo == 0 or self.entails(p):
            return self.add(p - 1)
        if hi == 0 or self.entails(-p):
            return self.add(-p - 1)
        self.neq = self.neq + (p,)
        return True

    # --- entailment
    def entails(self, p, effort=2):
        """is p >= 0 certain?"""
        if self.bot:
            return True
        if not p.t:
            return p.c >= 0
        lo, hi = self.iv(p)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        p = norm(p)
        if p in self.f:
            return True
        key = (p, effort)
        r = self._cache.get(key)
        if r is None:
            r = self._cert(p) or self._factor(p, effort) or self._entails(p, effort)
            self._cache[key] = r
        return r

    def _factor(self, p, effort):
        """p = s * q with s >= 0 and q >= 0"""
        if p.c: return False
        ms = list(p.t)
        common = set(ms[0])
        for m in ms[1:]: common &= set(m)
        for s in common:
            if self.bounds(s)[0] < 0: continue
            t = {}; c = 0
            for m, k in p.t.items():
                m = list(m); m.remove(s)
                if m: t[tuple(m)] = k
                else: c += k
            if not t:
                if c >= 0: return True
                continue
            q = norm(Poly(t, c))
            if q in self.f or self.iv(q)[0] >= 0 or (len(ms) > 1 and self._small(q)): return True
        return False

    def _small(self, q):
        """does one fact imply q?"""
        return any(self.iv(q - f)[0] >= 0 for f in self.f if not q.syms().isdisjoint(f.syms()))

    def _cert(self, p):
        """does an earlier proof of the same shape apply?"""
        ps = sorted(p.syms())
        sups = CERTS.get(certkey(p, ps))
        if not sups: return False
        m = {-1 - i: s for i, s in enumerate(ps)}
        for sup in sups:
            for f in sup:
                f = renamed(f, m)
                if f in self.f: continue
                if self.iv(f)[0] >= 0: continue
                if any(f in SYMS[s].defs for s in f.syms()): continue
                break
            else:
                return True
        return False

    def _learn(self, p, sup):
        ps = sorted(p.syms())
        m = {s: -1 - i for i, s in enumerate(ps)}
        base = []
        for f in sup:
            for g in self.prov.get(f, (f,)):
                if g not in base: base.append(g)
        l = CERTS.setdefault(certkey(p, ps), [])
        if len(l) < 6: l.insert(0, tuple(renamed(f, m) for f in base))

    def _alldefs(self, syms):
        """definitional facts of derived symbols reachable from syms"""
        out = []
        todo = list(syms); seen = set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for d in SYMS[s].defs:
                out.append(d)
                todo.extend(d.syms())
        return out, seen

    def _entails(self, p, effort):
        for f in self.f:
            if not p.syms().isdisjoint(f.syms()):
                lo, _ = self.iv(p - f)
                if lo >= 0:
                    return True
        # gather relevant facts
        rel = []
        seen = set()
        syms = set(p.syms())
        for _ in range(3):
            new = set()
            d, s2 = self._alldefs(syms)
            for f in d:
                if f not in seen:
                    seen.add(f); rel.append(f); new |= f.syms()
            for f in self.f:
                if f not in seen and not syms.isdisjoint(f.syms()):
                    seen.add(f); rel.append(f); new |= f.syms()
            if new <= syms or len(rel) > 60:
                break
            syms |= new
        if not rel and p.degree() <= 1:
            return False
        rel = rel[:80]
        self.prov = {}
        if self._lp(p, rel):
            return True
        if effort < 2:
            return False
        # products
        nl = p.degree() > 1 or any(f.degree() > 1 for f in rel)
        if nl:
            prods = self._products(p, rel, syms)
            if prods and self._lp(p, rel + prods):
                return True
        return False

    def _products(self, p, rel, syms):
        interest = set(m for m in p.t if len(m) > 1)
        for f in rel:
            interest.update(m for m in f.t if len(m) > 1)
        isyms = set()
        for m in interest:
            isyms.update(m)
        base = list(rel)
        ck = (tuple(rel), frozenset(interest), tuple(sorted((s, self.bounds(s)) for s in isyms)))
        hit = PRODS.get(ck)
        if hit is not None:
            self.prov = hit[1]
            return hit[0]
        for s in isyms:
            l, h = self.bounds(s)
            if l != -INF:
                base.append(Poly({(s,): 1}, -l))
            if h != INF:
                base.append(Poly({(s,): -1}, h))
        # factors: nonneg linear facts and monomials whose symbols are all nonneg
        self.prov = prov = {}
        facs = [f for f in base if f.degree() == 1 and not f.syms().isdisjoint(isyms)]
        monos = set()
        for m in interest:
            if all(self.bounds(s)[0] >= 0 for s in m):
                for i in range(len(m)):
                    r = m[:i] + m[i + 1:]
                    if r:
                        monos.add(r)
        out = []
        seen = set(rel)
        maxdeg = max(len(m) for m in interest) if interest else 2
        mf = [Poly({m: 1}, 0) for m in monos]
        for f in facs:
            for g in mf:
                q = f * g
                if q.degree() > maxdeg or q in seen:
                    continue
                if any(m in interest for m in q.t):
                    seen.add(q); out.append(q); prov[q] = (f, g)
        small = facs if len(facs) < 30 else facs[:30]
        for i, f in enumerate(small):
            for g in small[i:]:
                if len(f.t) + len(g.t) > 6:
                    continue
                q = f * g
                if q in seen or q.degree() < 2:
                    continue
                if sum(1 for m in q.t if len(m) > 1 and m not in interest) > 1:
                    continue
                seen.add(q); out.append(q); prov[q] = (f, g)
        if len(PRODS) > 400: PRODS.clear()
        PRODS[ck] = (out[:160], prov)
        return out[:160]

    def _lp(self, p, rel):
        r = farkas(self, p, rel)
        if isinstance(r, list):
            self._learn(p, r)
        return bool(r) or r == []

PRODS = {}
CERTS = {}
def certkey(p, ps):
    i = {s: -1 - k for k, s in enumerate(ps)}
    return (frozenset((tuple(sorted(i[s] for s in m)), c) for m, c in p.t.items()), p.c)
def renamed(f, m):
    """f with symbols renamed"""
    if not any(s in m for s in f.syms()): return f
    return Poly({tuple(sorted(m.get(s, s) for s in mono)): c for mono, c in f.t.items()}, f.c)

def mulinf(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b

def addinf(a, b):
    return a + b

BIGC = 1 << 24
STATS = {"lp": 0, "lp_yes": 0}
LP = None
def loadlp(path):
    global LP
    import ctypes
    L = ctypes.CDLL(path).lp
    vp = ctypes.c_void_p; i = ctypes.c_int
    L.argtypes = [i, i, vp, vp, vp, vp, vp, ctypes.c_double, i, vp]; L.restype = i
    LP = L


def farkas(F, p, rel):
    """exists lambda >= 0: p = sum lambda_i f_i + c, c >= 0 ?  exact."""
    STATS["lp"] += 1
    # rows: monomials.  reduce: only facts transitively sharing monomials
    cols = []
    monos = set(p.t)
    used = set()
    changed = True
    pool = list(rel)
    while changed:
        changed = False
        rest = []
        for f in pool:
            if not monos.isdisjoint(f.t):
                cols.append(f)
                n = len(monos)
                monos.update(f.t)
                if len(monos) != n:
                    changed = True
            else:
                rest.append(f)
        pool = rest
    for m in monos:
        l, h = F.mono_iv(m)
        if l != -INF:
            cols.append(Poly({m: 1}, -l))
        if h != INF:
            cols.append(Poly({m: -1}, h))
    rows = {m: i for i, m in enumerate(monos)}
    r = None
    if LP is not None and len(cols) > 6:
        # facts with large constants drown the others in rounding errors: they come last
        big = not -BIGC < p.c < BIGC
        tiny = [j for j, f in enumerate(cols) if (big or -BIGC < f.c < BIGC) and all(-BIGC < x < BIGC for x in f.t.values())]
        for part in ((tiny, None) if len(tiny) < len(cols) else (None,)):
            k = _propose(rows, cols if part is None else [cols[j] for j in part], p)
            if k is False:
                if part is None: return False
                continue
            if k is not None:
                for q in k:
                    if part is not None: q = [part[j] for j in q]
                    r = _simplex(rows, [cols[j] for j in q], p)
                    if r is not False: break
                if r is False:
                    STATS["lp_bad"] = STATS.get("lp_bad", 0) + 1
                    if part is None: return False
                    r = None; continue
                if r is not True: r = [q[j] for j in r]
                break
    if r is None: r = _simplex(rows, cols, p)
    if r is not False: STATS["lp_yes"] += 1
    return r if r is True or r is False else [cols[j] for j in r]

def _propose(rows, cols, p):
    """columns worth combining; False when there are none; None when the floating-point run is inconclusive"""
    m = len(rows); n = len(cols)
    cp = array.array("i", [0]); ri = array.array("i"); v = array.array("d")
    try:
        for f in cols:
            for mono, k in f.t.items():
                ri.append(rows[mono]); v.append(k)
            cp.append(len(ri))
        b = array.array("d", bytes(8 * m))
        for mono, k in p.t.items(): b[rows[mono]] = k
        c = array.array("d", [f.c for f in cols])
        pc = float(p.c)
    except OverflowError:
        return None
    out = array.array("i", bytes(4 * (m + 1)))
    A = lambda x: x.buffer_info()[0]
    r = LP(m, n, A(cp), A(ri), A(v), A(b), A(c), pc, 300, A(out))
    if r == -1: return False
    if r < 0: return None
    return list(out[:r]), list(out[:out[m]])

def _simplex(rows, cols, p):
    """min sum lambda_j * c_j  s.t. A lambda = b, lambda >= 0.  True iff min <= p.c
    Integer tableau; every row carries its own positive scale, which no decision depends on."""
    m = len(rows); n = len(cols)
    T = [dict() for _ in range(m)]
    b = [0] * m
    for mono, i in rows.items():
        b[i] = p.t.get(mono, 0)
    for j, f in enumerate(cols):
        for mono, k in f.t.items():
            T[rows[mono]][j] = k
    for i in range(m):
        if b[i] < 0:
            b[i] = -b[i]
            T[i] = {j: -v for j, v in T[i].items()}
    basis = [n + i for i in range(m)]
    z1 = {}
    for i in range(m):
        for j, v in T[i].items():
            z1[j] = z1.get(j, 0) - v
    v1 = -sum(b)
    z2 = {j: f.c for j, f in enumerate(cols) if f.c}
    S = [z1, v1, z2, 0, 1]           # z1, v1, z2, v2, scale of the z2 row
    it = 0
    limit = 400
    phase = 1
    pc = p.c
    while True:
        it += 1
        if it > limit:
            return False
        if phase == 1 and S[1] == 0:
            # drive out remaining artificials in the basis (at zero level)
            phase = 2
            for i in range(m):
                if basis[i] >= n:
                    # pivot on any nonzero column
                    e = next((j for j, v in T[i].items() if v), None)
                    if e is not None:
                        _pivot(T, b, basis, i, e, S)
            continue
        z = S[0] if phase == 1 else S[2]
        if phase == 2 and -S[3] <= pc * S[4]:
            return [basis[i] for i in range(m) if basis[i] < n and b[i]]
        # entering: Dantzig for first part, Bland later
        e = None
        if it < 60:
            best = 0
            for j, v in z.items():
                if v < best:
                    best = v; e = j
        else:
            for j in sorted(z):
                if z[j] < 0:
                    e = j; break
        if e is None:
            return False
        # ratio
        r = None; bn = 0; bd = 1
        for i in range(m):
            a = T[i].get(e)
            if a is not None and a > 0:
                c = b[i] * bd - bn * a if r is not None else -1
                if c < 0 or (c == 0 and basis[i] < basis[r]):
                    bn = b[i]; bd = a; r = i
        if r is None:
            # unbounded: phase 2 -> minimum is -inf: the facts are contradictory enough
            return phase == 2
        _pivot(T, b, basis, r, e, S)

def _elim(ti, bi, row, br, a, k):
    """ti * a - k * row, reduced; a > 0"""
    if a != 1:
        ti = {j: v * a for j, v in ti.items()}
        bi *= a
    get = ti.get
    for j, v in row.items():
        nv = get(j, 0) - k * v
        if nv: ti[j] = nv
        else: ti.pop(j, None)
    return ti, bi - k * br

def _pivot(T, b, basis, r, e, S):
    row = T[r]; br = b[r]
    a = row[e]
    if a < 0:
        row = T[r] = {j: -v for j, v in row.items()}
        br = b[r] = -br; a = -a
    for i in range(len(T)):
        if i != r:
            k = T[i].get(e)
            if k:
                ti, bi = _elim(T[i], b[i], row, br, a, k)
                g = bi
                for v in ti.values():
                    g = gcd(g, v)
                    if g == 1: break
                if g > 1:
                    ti = {j: v // g for j, v in ti.items()}; bi //= g
                T[i] = ti; b[i] = bi
    k = S[0].get(e)
    if k:
        z, v1 = _elim(S[0], S[1], row, br, a, k)
        g = v1
        for v in z.values():
            g = gcd(g, v)
            if g == 1: break
        if g > 1:
            z = {j: v // g for j, v in z.items()}; v1 //= g
        S[0] = z; S[1] = v1
    k = S[2].get(e)
    if k:
        z, v2 = _elim(S[2], S[3], row, br, a, k)
        sc = S[4] * a
        g = gcd(v2, sc)
        if g != 1:
            for v in z.values():
                g = gcd(g, v)
                if g == 1: break
        if g > 1:
            z = {j: v // g for j, v in z.items()}; v2 //= g; sc //= g
        S[2] = z; S[3] = v2; S[4] = sc
    basis[r] = e
