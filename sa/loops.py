"""Loop heads.

Head states are {S0} + the states on back edges.  A loop whose control is decided by constants is
followed iteration by iteration.  Otherwise the head state is generalised: every memory slot that an
iteration changes becomes a closed form in the iteration number k (induction variables, regions that
grow, pointer tables), a symbol constrained by candidate invariants (kept only when inductive), a
widened hull, or - for pointers, flags and typestates - a finite set of alternatives with one
generalised state each.  When one further iteration from the generalised states yields nothing new they
cover every iteration; findings, exits and returns are then taken from S0 and from the states on
the back edges, which together are all head states."""
from num import *
import num as N

import os, sys, math
import merge
DEBUG = os.environ.get('SA_DEBUG')
NODISC = os.environ.get('SA_NODISC')
UNROLL = 700
TABLE = 40           # elements of a constant table that are visited one by one
MAXPASS = 14
BIG = 4000
KMAX = 1 << 62

def _e():
    import eng
    return eng

class D:
    """generalisation of one slot"""
    __slots__ = ("kind", "v0", "step", "w", "sym", "cands", "alts", "obj", "val", "lin", "tries", "gen", "hulls", "within", "vals", "deltas", "cnt")
    def __init__(self, kind):
        self.kind = kind; self.cands = []; self.alts = None; self.step = None; self.lin = None; self.tries = 0; self.gen = 0
        self.hulls = {}; self.within = True; self.vals = set(); self.deltas = set(); self.cnt = False

ABSENT = "<absent>"

class LoopMixin:
    def liveclear(self, f, L, st):
        self.deadclear(f, L.header, st)

    def deadclear(self, f, b, st):
        """forget scalar locals that are dead at the start of block b"""
        if not hasattr(f, "deadat"):
            f.deadat = compute_dead(f)
        for a in f.deadat.get(b, ()):
            p = st.env.get(a)
            E = _e()
            if isinstance(p, E.P) and p.o in st.mem:
                o = st.mem[p.o]
                if o.alive and (o.cells or o.regs or o.sym):
                    w = st.w(p.o, bump=False)
                    w.cells = {}; w.regs = (); w.sym = {}; w.base = "uninit"
        if not hasattr(f, "unmentioned"): f.unmentioned = compute_unmentioned(f)
        todo = {}
        for a in f.unmentioned.get(b, ()):
            p = st.env.get(a)
            if isinstance(p, E.P) and p.o in st.mem:
                o = st.mem[p.o]
                if o.alive and (o.cells or o.regs or o.sym or o.segs or o.base != "uninit"): todo[p.o] = a
        if todo:
            # address taken: dead only when nothing else points to it
            refs = []
            for d, v in st.env.items():
                if d not in todo.values(): self.vrefs(v, refs)
            for e in st.stack:
                for v in e.values(): self.vrefs(v, refs)
            for v in st.ghost.values(): self.vrefs(v, refs)
            for oid, o in st.mem.items():
                if oid in todo or not o.alive: continue
                if o.crefs is None: self.refsof(o)
                refs.extend(o.crefs)
            held = set(refs)
            for oid in todo:
                if oid in held: continue
                w = st.w(oid, bump=False)
                w.cells = {}; w.regs = (); w.sym = {}; w.segs = (); w.base = "uninit"
                w.attrs = {}

    def iterate(self, f, fid, L, pred, st):
        return self.exec_blocks(f, fid, [(L.header, 0, pred, st)], L)

    def handle_loop(self, f, fid, L, pred, S0):
        E = _e()
        key = (f.src, L.header)
        self.stats["loops"].setdefault((f.file, f.src, L.header), 0)
        self.stats["loops"][(f.file, f.src, L.header)] += 1
        ls = self.lsyms; self.lsyms = len(SYMS)
        try: return self.handle_loop2(f, fid, L, pred, S0)
        finally: self.lsyms = ls

    def terminated(self, S0):
        """note the small character arrays whose last byte terminates whatever they hold"""
        E = _e()
        for oid, o in list(S0.mem.items()):
            if o.kind == "stack" and o.alive and o.cells and "nul" not in o.attrs and o.size is not None and not o.size.t and 1 < o.size.c <= 64:
                c = o.cells.get(o.size.c - 1)
                if c is not None and c[0] == 1 and isinstance(c[1], E.I) and c[1].p == ZERO: S0.w(oid, False).attrs["nul"] = const(o.size.c - 1)

    def handle_loop2(self, f, fid, L, pred, S0):
        E = _e()
        exits = []; rets = []
        for n in range(UNROLL):
            self.liveclear(f, L, S0)
            self.settle(S0)
            self.terminated(S0)
            path0 = S0.path
            nd0 = self.undecided
            nt = len(self.triggers)
            for g in [g for g in S0.ghost if isinstance(g, tuple) and g[0] == "count" and len(g) == 3] if self.depth == 0 else ():
                self.triggers.append(First(S0.ghost[g], S0.ghost[g + ("n",)], self.countlist[S0.ghost[g + ("f",)]][1]))
            base0 = len(SYMS)
            try: backs, ex, rt = self.iterate(f, fid, L, pred, S0.copy())
            finally: del self.triggers[nt:]
            det = self.undecided == nd0
            backs = self.cleanbacks(f, L, backs, path0, not (det and len(backs) == 1 and not ex))
            if not backs:
                return exits + ex, rets + rt
            if det and len(backs) == 1 and not ex:
                rets += rt
                pred, S0 = backs[0]
                continue
            if len(backs) == 1 and n < TABLE and self.walkstable(f, L):
                exits += ex; rets += rt
                pred, S0 = backs[0]
                continue
            break
        exits += ex; rets += rt
        # every state on a back edge leaves the loop at once: there is nothing to generalise
        now = []
        for p, s in backs:
            out = []; rr = []
            self.exec_block(f, fid, L.header, 0, p, s.copy(), out, rr)
            if rr or any(o[0] in L.blocks for o in out): break
            now += out
        else:
            return exits + now, rets
        self.depth += 1
        try: e2, r2, recs = self.accelerate(f, fid, L, pred, S0, backs, base0)
        finally: self.depth -= 1
        for e in exits:
            for r in recs: self.putcount(e[3], r, r.v0, ZERO)
        return exits + e2, rets + r2

    def cleanbacks(self, f, L, backs, path, force=True):
        out = []
        seen = {}
        for p, s in backs:
            self.liveclear(f, L, s)
            s.it = self.iterconds(path, s.path)
            s.path = path
            for d in list(s.env):
                if d in L.defs: del s.env[d]
            self.gc(s)
            self.settle(s, force)
            out.append((p, s))
        if len(out) > 1:
            keep = _e().merge.merge(self, [(s, None) for p, s in out], join=12)
            out = [out[i] for i in keep]
        return out

    def guardblocks(self, f, L):
        """blocks of the loop reached from its header through blocks that only test"""
        g = L.guard
        if g is None:
            g = set(); todo = [L.header]
            while todo:
                b = todo.pop()
                if b in g or b not in L.blocks or b != L.header and b in f.loops: continue
                if any(i.op in ("call", "invoke", "store", "ret") for i in f.blocks[b]): continue
                g.add(b); todo.extend(f.succ[b])
            L.guard = g
        return g

    def walkstable(self, f, L):
        """is the loop's end found in a constant table?"""
        g = self.guardblocks(f, L)
        for b in L.blocks:
            if b in g or any(x not in L.blocks for x in f.succ[b]):
                if any(i.op == "load" and id(i) in self.creads for i in f.blocks[b]): return True
        return False

    def leaving(self, f, fid, L, pred, st):
        """does this state certainly leave the loop by the tests at its head?"""
        g = self.guardblocks(f, L)
        if L.header not in g: return False
        sink = self.sink; self.sink = {}; self.mute += 1
        cur = (self.cur, self.curfunc, self.undecided)
        nt = len(self.triggers); tr = self.triggers[:]; del self.triggers[:]
        try:
            todo = [(L.header, 0, pred, st.copy())]; n = 0
            while todo:
                b, idx, p, s = todo.pop(); n += 1
                if n > 12: return False
                out = []; rr = []
                self.exec_block(f, fid, b, idx, p, s, out, rr)
                if rr: return False
                for o in out:
                    if o[0] == L.header and o[1] == 0: return False
                    if o[0] not in L.blocks: continue
                    if o[0] not in g: return False
                    todo.append(o)
            return True
        except _e().Unsupported: return False
        finally:
            self.sink = sink; self.mute -= 1
            self.cur, self.curfunc, self.undecided = cur
            self.triggers[:] = tr

    # ------------------------------------------------------------ slots
    def diffslots(self, S, T):
        """slots of T whose value may differ from S"""
        out = []
        for oid, o in S.mem.items():
            t = T.mem.get(oid)
            if t is o: continue
            if t is None:
                if o.kind in ("stack", "vla") and not o.alive: continue
                out.append(("gone", oid)); continue
            if t.ver == o.ver and t.alive == o.alive and t.attrs == o.attrs and t.gen == o.gen: continue
            if t.alive != o.alive: out.append(("alive", oid))
            if (t.size is None) != (o.size is None) or (t.size is not None and t.size != o.size): out.append(("size", oid))
            for k in set(o.cells) | set(t.cells):
                if o.cells.get(k) != t.cells.get(k): out.append(("cell", oid, k))
            for k in set(o.attrs) | set(t.attrs):
                if o.attrs.get(k) != t.attrs.get(k): out.append(("attr", oid, k))
            if t.regs != o.regs or t.sym != o.sym or t.base is not o.base and t.base != o.base or t.segs != o.segs:
                out.append(("data", oid))
        for g in set(S.ghost) | set(T.ghost):
            if isinstance(g, tuple) and g[0] == "jsnap": continue
            if S.ghost.get(g) != T.ghost.get(g): out.append(("ghost", g))
        if S.jmps != T.jmps: out.append(("jmps",))
        return out

    def getslot(self, st, k, like=None):
        E = _e()
        t = k[0]
        if t == "cell":
            o = st.mem[k[1]]
            c = o.cells.get(k[2])
            if c is not None: return c[1]
            if o.base == "uninit" and not self.incov(st, o, const(k[2]), ONE): return E.UN
            if o.base == "zero" and not o.regs: return "zero"
            return ABSENT
        if t == "attr": return st.mem[k[1]].attrs.get(k[2], ABSENT)
        if t == "size": return st.mem[k[1]].size
        if t == "alive": return st.mem[k[1]].alive if k[1] in st.mem else False
        if t == "ghost": return st.ghost.get(k[1], ABSENT)
        if t == "jmps": return tuple(sorted(((repr(a), b is not None and (id(b[0]),) + b[1:]) for a, b in st.jmps.items()), key=repr))
        raise E.Unsupported("slot " + t)

    def setslot(self, st, k, v, size=None):
        t = k[0]
        if t == "cell":
            o = st.w(k[1])
            if v == ABSENT or v is ABSENT: o.cells.pop(k[2], None)
            else:
                E = _e()
                if v is E.UN and o.base == "uninit" and not o.regs: o.cells.pop(k[2], None)
                else: o.cells[k[2]] = (size, v)
        elif t == "attr":
            o = st.w(k[1], False)
            if v is ABSENT: o.attrs.pop(k[2], None)
            else: o.attrs[k[2]] = v
        elif t == "size": st.w(k[1], False).size = v
        elif t == "alive": st.w(k[1], False).alive = v
        elif t == "ghost":
            if v is ABSENT: st.ghost.pop(k[1], None)
            else: st.ghost[k[1]] = v

    def cellsize(self, states, k):
        for s in states:
            o = s.mem.get(k[1])
            if o is not None and k[2] in o.cells: return o.cells[k[2]][0]
        return 8

    # ------------------------------------------------------------ acceleration
    def accelerate(self, f, fid, L, pred, S0, backs0, base0):
        E = _e()
        self.settle(S0, True)
        ctx = LoopCtx()
        ctx.K = newsym("k", 0, KMAX); ctx.k = sym(ctx.K)
        ctx.S0 = S0; ctx.D = {}; ctx.f = f; ctx.L = L
        ctx.regs = {}           # oid -> list of generalised regions
        ctx.base0 = base0; ctx.syms0 = len(SYMS); ctx.isout = {}
        ctx.heads = {}          # signature -> representative state
        ctx.names = "%s:%s" % (f.src, L.header)
        ctx.sizes = {}
        ctx.cnt = {}
        ctx.trig = []
        self.mute += 1
        sink = self.sink
        cache = {}
        ntrig = len(self.triggers)
        try:
            pend = [(S0, s, True) for p, s in backs0 if not self.leaving(f, fid, L, p, s)]
            preds = [p for p, s in backs0]
            ok = False
            for npass in range(MAXPASS):
                ctx.npass = npass
                changed = npass == 0
                for g, b, first in pend:
                    if self.absorb(ctx, g, b, first): changed = True
                ch1 = changed
                if self.houdini(ctx, pend): changed = True
                if self.countrels(ctx, pend): changed = True
                if DEBUG: ctx.debug(self, npass, pend, ch1, changed)
                del self.triggers[ntrig:]
                self.triggers.extend(ctx.trig)
                if not changed:
                    ok = True
                    break
                pend = []
                finals = []
                used = []
                for sig, G in self.build(ctx):
                    if G is None: continue
                    try:
                        key = merge.exactkey(self, G)
                    except merge.NoKey:
                        key = None
                    hit = cache.get(key) if key is not None else None
                    if hit is None:
                        self.sink = {}
                        i0 = self.stats["ins"]
                        for t in ctx.trig: t.head(self, G, ctx.k)
                        backs, ex, rt = self.iterate(f, fid, L, pred, G.copy())
                        backs = self.cleanbacks(f, L, backs, S0.path)
                        hit = (G, backs, ex, rt, self.sink, self.stats["ins"] - i0, [not self.leaving(f, fid, L, p, b) for p, b in backs])
                        if key is not None: cache[key] = hit
                    else: self.stats["reused"] = self.stats.get("reused", 0) + 1
                    used.append(hit)
                    for (p, b), stays in zip(hit[1], hit[6]):
                        if stays: pend.append((hit[0], b, False))
                        finals.append((p, b))
            if not ok:
                raise E.Unsupported("no loop invariant found in %d passes (%s, %s)" % (MAXPASS, f.src, f.blocks[L.header][0].loc))
        finally:
            self.mute -= 1
            self.sink = sink
            del self.triggers[ntrig:]
        self.stats["accel"] = self.stats.get("accel", 0) + 1
        exits = []; rets = []
        recs = self.countrecs(ctx, used) if self.depth == 1 else []
        if sum(u[5] for u in used) > BIG or len(finals) > 24:
            # expensive body: what the last pass found in the generalised states stands
            for G, backs, ex, rt, fs, _, stays in used:
                for k, x in fs.items(): sink.setdefault(k, x)
                exits += ex
                rets += rt
                for (p, b), s in zip(backs, stays):
                    if s: continue
                    bk, ex, rt = self.iterate(f, fid, L, p, b.copy())
                    exits += ex; rets += rt
            return exits, rets, []
        # all head states: S0 (already explored by the caller) and the states on back edges
        todo = finals
        self.triggers.extend(ctx.trig)
        try:
            for p, b in todo:
                for t in ctx.trig: t.head(self, b, ctx.k + 1)
                b.note(f.blocks[L.header][0].loc, "after one or more iterations")
                b0 = b
                if recs or ctx.trig:
                    b0 = b.copy()
                    for r in recs:
                        v = self.num_of(self.getslot(b, r.k)) if r.k[1] in b.mem else None
                        if v is not None: self.putcount(b0, r, v, ctx.k + 1)
                backs, ex, rt = self.iterate(f, fid, L, p, b0)
                self.cleanbacks(f, L, backs, S0.path)
                for e in ex:
                    for t in ctx.trig: t.atexit(self, b, e[3], ctx.k + 1)
                    exits.append(e)
                rets += rt
        finally:
            del self.triggers[ntrig:]
        for u in used:
            # a generalised state that stopped there: what would follow was not analysed
            for k, x in u[4].items():
                if x.hard and k not in sink: sink[k] = x
        return exits, rets, recs

    # signature: values of the discrete slots
    def sigof(self, ctx, st):
        out = []
        for k in ctx.order():
            d = ctx.D[k]
            if d.kind == "disc":
                v = self.getslot(st, k) if k[0] in ("ghost", "jmps") or k[1] in st.mem else "gone"
                out.append((k, self.sigtok(ctx, k, d, st, v)))
            elif d.kind == "rng":
                # only whether the slot exists / holds an integer
                v = self.getslot(st, k) if k[0] in ("ghost", "jmps") or k[1] in st.mem else "gone"
                out.append((k, "int" if self.num_of(v) is not None and not isinstance(v, _e().P) else self.hashable(v)))
        return tuple(out)

    def sigtok(self, ctx, k, d, st, v):
        """discrete value; integers and offsets that vary are abstracted to their range"""
        E = _e()
        if isinstance(v, E.FL): return "FL"
        if isinstance(v, E.I) or isinstance(v, Poly):
            p = self.num_of(v)
            if self.outer(ctx, p): return ("v", p)
            return ("int", v.w if isinstance(v, E.I) else 0)
        if isinstance(v, E.P) and not self.outer(ctx, v.off): return ("P", v.o, v.gen)
        if isinstance(v, E.XP): return "XP"
        if isinstance(v, E.B): return "B"
        return self.hashable(v)

    def absorb_range(self, ctx, k, d, st, sg):
        """extend the range of a varying integer / offset / float"""
        E = _e()
        if k[0] not in ("ghost", "jmps") and k[1] not in st.mem: return False
        if k[0] == "jmps": return False
        v = self.getslot(st, k)
        if isinstance(v, E.FL):
            lo, hi, nan = self.frng(st, v)
        else:
            p = self.num_of(v)
            if p is None: return False
            if d.kind == "disc" and self.outer(ctx, p):
                d.vals.add(p)
                if len(d.vals) >= 3 and d.deltas == {0, 1} and isinstance(v, E.I) and k[0] == "cell":
                    z = self.getslot(ctx.S0, k)
                    if isinstance(z, E.I) or z == "zero":
                        # a counter: incremented by one in some iterations
                        d.v0 = self.num_of(z); d.w = v.w; d.obj = None; d.gen = 0; d.val = "I"; d.cnt = True; d.step = ONE
                        self.mkopq(ctx, k, d, st, z, v)
                        ctx.addcands([d.v0 + ctx.k - sym(d.sym)])
                        ctx.retype(self)
                        return True
                if len(d.vals) > 3 and None not in d.deltas and "up" in d.deltas and isinstance(v, E.I) and v.w >= 16 and k[0] == "cell" and \
                        any(x.kind == "opq" and x.lin is None for x in ctx.D.values()):
                    z = self.getslot(ctx.S0, k)
                    if isinstance(z, E.I) or z == "zero":
                        # grows by varying amounts, next to something else that does: perhaps in proportion
                        d.v0 = self.num_of(z); d.w = v.w; d.obj = None; d.gen = 0; d.val = "I"; d.step = None
                        self.mkopq(ctx, k, d, st, z, v)
                        ctx.retype(self)
                        return True
                if len(d.vals) > 3 and k[0] in ("cell", "attr", "ghost") and not isinstance(v, E.P):
                    d.kind = "rng"; d.hulls = {}
                    return True
                return False
            lo, hi = st.f.iv(p); nan = False
            if isinstance(v, E.P):
                o = st.mem.get(v.o)
                ok = o is not None and o.size is not None and st.f.entails(p) and st.f.entails(o.size - p)
                if not ok: d.within = False
        # one hull for each combination of the discrete slots
        if sg not in d.hulls:
            d.hulls[sg] = (lo, hi, nan, 0); return True
        l, h, n, nh = d.hulls[sg]
        if lo >= l and hi <= h and (n or not nan): return False
        nh += 1
        if nh > 2:
            if lo < l: lo = next((t for t in (0, -1, -128, -2**31, -2**63) if lo >= t), -INF)
            if nh > 4:
                if lo < l: lo = next((t for t in (0, -2**31, -2**63) if lo >= t), -INF)
                if hi > h: hi = next((t for t in (2**31 - 1, 2**63 - 1, 2**64 - 1) if hi <= t), INF)
            elif hi > h: hi = next((t for t in (1, 127, 255, 65535, 2**31 - 1, 2**32 - 1, 2**63 - 1, 2**64 - 1) if hi <= t), INF)
        d.hulls[sg] = (min(l, lo), max(h, hi), n or nan, nh)
        return True

    def ranged(self, ctx, k, d, v, sg, rep):
        """value representing the whole range of the slot"""
        E = _e()
        if sg not in d.hulls:
            if d.kind == "disc" and not d.hulls: return v
            self.absorb_range(ctx, k, d, rep, sg)
            if sg not in d.hulls: return v
        lo, hi, nan, nh = d.hulls[sg]
        if isinstance(v, E.FL):
            return E.FL(lo, hi, nan)
        if isinstance(v, E.B): return E.B(("b", newsym("flag", 0, 1)))
        p = self.num_of(v)
        if p is None or (d.kind == "disc" and self.outer(ctx, p)): return v
        s = newsym("r", None if lo == -INF else int(lo), None if hi == INF else int(hi))
        if isinstance(v, E.I): return E.I(sym(s), v.w)
        if isinstance(v, E.P): return E.P(v.o, sym(s), v.gen)
        return sym(s)

    def hashable(self, v):
        E = _e()
        if isinstance(v, E.FL): return ("FL", v.lo, v.hi, v.nan)
        if isinstance(v, list): return tuple(v)
        try:
            hash(v); return v
        except TypeError:
            return repr(v)

    def absorb(self, ctx, g, b, first):
        """update descriptors with the step g -> b; True when something changed"""
        E = _e()
        ch = False
        S0 = ctx.S0
        self.normalise(ctx, b)
        diffs = self.diffslots(g, b)
        changed_here = set(diffs)
        todo = list(diffs) + [k for k in ctx.D if k not in changed_here and k[0] != "data"]
        for k in todo:
            if k[0] == "gone":
                # object disappeared: no longer reachable
                if S0.mem.get(k[1]) is not None and ("alive", k[1]) not in ctx.D:
                    ctx.D[("alive", k[1])] = D("disc"); ch = True
                continue
            if k[0] == "cell" and k[1] in S0.mem and k[1] in g.mem and ("data", k[1]) not in changed_here and self.isarray(ctx, k[1]) and \
                    (k[1] in ctx.regs or not S0.mem[k[1]].size.isconst() and k[2] not in S0.mem[k[1]].cells):
                changed_here.add(("data", k[1]))
                if self.absorb_data(ctx, g, b, k[1], first): ch = True
                continue
            if k[0] == "data":
                if self.absorb_data(ctx, g, b, k[1], first): ch = True
                continue
            if k[0] in ("cell", "attr", "size", "alive") and (k[1] not in b.mem or k[1] not in g.mem or k[1] not in S0.mem):
                continue
            if self.absorb_slot(ctx, k, g, b, first): ch = True
        if not first and ctx.regs and self.checkregions(ctx, g, b): ch = True
        for oid, R in ctx.regs.items():
            # exactly known fields that every iteration leaves alone
            for k in [k for k, x in R.kept.items() if oid not in b.mem or b.mem[oid].cells.get(k) != x]:
                del R.kept[k]; ch = True
        sg = None
        for k, d in ctx.D.items():
            if d.kind in ("disc", "rng"):
                if sg is None: sg = self.sigof(ctx, b)
                if d.kind == "disc" and not d.vals and not d.hulls: self.absorb_range(ctx, k, d, S0, self.sigof(ctx, S0))
                kd = d.kind
                if self.absorb_range(ctx, k, d, b, sg): ch = True
                if d.kind != kd: sg = None
        # new signature?
        sg = self.sigof(ctx, b)
        if sg not in ctx.heads:
            if len(ctx.heads) > 24:
                raise E.Unsupported("too many discrete alternatives at loop head %s: %s" % (ctx.names, [x for x in ctx.D if ctx.D[x].kind=="disc"]))
            ctx.heads[sg] = b
            ch = True
        return ch

    def num_of(self, v):
        E = _e()
        if isinstance(v, E.I): return v.p
        if isinstance(v, Poly): return v
        if isinstance(v, E.P): return v.off
        if v == "zero": return ZERO
        return None

    def absorb_slot(self, ctx, k, g, b, first):
        E = _e()
        S0 = ctx.S0
        vp = self.getslot(g, k); vn = self.getslot(b, k); v0 = self.getslot(S0, k)
        d = ctx.D.get(k)
        if k[0] == "cell":
            sz = self.cellsize((b, g, S0), k); ctx.sizes[k] = sz
            o = S0.mem[k[1]]
            if o.size is not None and (not o.size.isconst() or k[1] in ctx.regs):
                # a cell of an array of unknown length: contents are tracked by regions
                if k[1] in ctx.regs and self.isarray(ctx, k[1]) or d is None and k[2] not in o.cells and not o.size.isconst():
                    return False
        if d is None:
            if self.sameval(b, vp, vn): return False
            d = self.newdesc(ctx, k, v0, vn, b)
            ctx.D[k] = d
            return True
        if d.kind == "aff":
            if type(vn) is not type(vp) and not (isinstance(vn, E.I) and vp == "zero"):
                self.demote(ctx, k, d, v0, vn, b, vp); return True
            pn, pp = self.num_of(vn), self.num_of(vp)
            if pn is None or (isinstance(vn, E.P) and (vn.o != d.obj or vn.gen != d.gen)):
                self.demote(ctx, k, d, v0, vn, b, vp); return True
            st = pn - pp
            if first:
                if st == d.step: return False
                if (st - d.step).isconst() or not self.eqz(b, st - d.step):
                    self.demote(ctx, k, d, v0, vn, b, vp); return True
                return False
            if st != d.step and not self.eqz(b, st - d.step):
                self.demote(ctx, k, d, v0, vn, b, vp); return True
            return False
        if d.kind == "opq":
            if self.num_of(vn) is None or (isinstance(vn, E.P) and (vn.o != d.obj)):
                self.demote(ctx, k, d, v0, vn, b, vp); return True
            if d.lin is not None:
                return self.checklin(ctx, k, d, g, b)
            return False      # candidates are handled by houdini
        if d.kind == "flt":
            if not isinstance(vn, E.FL):
                if vn == "zero" or (isinstance(vn, E.I) and vn.p == ZERO): vn = self.zero("float")
                else:
                    self.demote(ctx, k, d, v0, vn, b, vp); return True
            return self.widenfl(ctx, d, b, vn)
        if d.kind in ("disc", "rng"):
            if d.kind == "disc" and k[0] == "cell" and None not in d.deltas:
                pn, pp = self.num_of(vn), self.num_of(vp)
                x = pn - pp if pn is not None and pp is not None and not isinstance(vn, E.P) else None
                lo, hi = b.f.iv(x) if x is not None else (0, 9)
                if lo >= 0 and hi <= 1: d.deltas.update((0, 1) if lo < hi else (lo,))
                else: d.deltas.add("up" if x is not None and lo >= 0 else None)
            return False      # via signatures and ranges
        if d.kind == "top":
            return False
        return False

    def eqz(self, st, p):
        if not p.t: return p.c == 0
        return st.f.entails(p) and st.f.entails(-p)

    def sameval(self, st, a, b):
        E = _e()
        if a is b: return True
        if isinstance(a, E.FL) and isinstance(b, E.FL): return a.same(b) and a.id not in st.fr and b.id not in st.fr
        if a == "zero" and isinstance(b, E.I): return b.p == ZERO
        if isinstance(a, E.I) and isinstance(b, E.I): return a.w == b.w and (a.p == b.p or self.eqz(st, a.p - b.p))
        if isinstance(a, E.P) and isinstance(b, E.P): return a.o == b.o and a.gen == b.gen and (a.off == b.off or self.eqz(st, a.off - b.off))
        if isinstance(a, Poly) and isinstance(b, Poly): return a == b or self.eqz(st, a - b)
        try:
            return a == b
        except Exception:
            return False

    def outer(self, ctx, p):
        """does p only mention symbols fixed before the loop?"""
        return all(ctx.osym(s) for s in p.syms())

    def newdesc(self, ctx, k, v0, vn, b):
        E = _e()
        if k[0] in ("alive", "jmps") or k[0] == "attr" and k[2] in ("pos", "mark", "bmark"):
            return D("disc")
        if isinstance(vn, E.FL) or isinstance(v0, E.FL):
            d = D("flt")
            z = self.zero("float")
            a = z if v0 == "zero" or (isinstance(v0, E.I) and v0.p == ZERO) else v0
            c = z if vn == "zero" or (isinstance(vn, E.I) and vn.p == ZERO) else vn
            if isinstance(a, E.FL) and isinstance(c, E.FL):
                lo, hi, nan = self.frng(b, a)
                d.val = E.FL(lo, hi, nan, a.lb, a.ub, ex=("loop", ctx.K, k))
                self.widenfl(ctx, d, b, c, firstpass=True)
                return d
            return D("disc")
        p0, pn = self.num_of(v0), self.num_of(vn)
        if p0 is not None and pn is not None and not (isinstance(v0, E.P) != isinstance(vn, E.P)):
            if isinstance(v0, E.P):
                if v0.o != vn.o or v0.o == 0 or v0.gen != vn.gen: return D("disc")
            d = D("aff"); d.v0 = p0; d.step = pn - p0
            d.w = vn.w if isinstance(vn, E.I) else (v0.w if isinstance(v0, E.I) else None)
            d.obj = vn.o if isinstance(vn, E.P) else None
            d.gen = vn.gen if isinstance(vn, E.P) else 0
            d.val = "P" if isinstance(vn, E.P) else ("I" if isinstance(vn, E.I) else "poly")
            if self.outer(ctx, d.step) and self.outer(ctx, p0):
                if d.val == "I" and d.step.isconst() and p0.isconst() and (abs(d.step.c) > 64 or d.w == 8 and 0 <= p0.c + d.step.c <= 1):
                    return D("disc")
                self.affcands(ctx, k, d, b)
                return d
            if ctx.f.file.startswith("/") and not NODISC:
                # most general client: keep what it has done apart, instead of relating the numbers
                return D("disc")
            return self.mkopq(ctx, k, d, b, v0, vn)
        return D("disc")

    def affcands(self, ctx, k, d, b):
        p = d.v0 + ctx.k * d.step
        c = []
        if d.val == "I":
            w = d.w or 64
            for q in (p, p + (1 << (w - 1)), (1 << (w - 1)) - 1 - p, (1 << w) - 1 - p):
                c.append(q)
        else:
            c.append(p)
        if d.obj is not None and d.obj in b.mem:
            o = b.mem[d.obj]
            if o.size is not None: c.append(o.size - p)
            if o.kind == "cstr": c.append(o.attrs["len"] - p)
            if o.data is not None: c.append(const(len(o.data) - 1) - p)
        d.cands = c
        ctx.addcands(c)

    def mkopq(self, ctx, k, d, b, v0, vn, vp=None):
        d.kind = "opq"
        name = "v%d" % len(SYMS)
        w = d.w
        lo, hi = (0, (1 << w) - 1) if w else (None, None)
        # stored integers are residues; keep the reading the program uses
        d.sym = newsym(name, None, None)
        s = sym(d.sym)
        l0, h0 = ctx.S0.f.iv(d.v0); ln, hn = b.f.iv(self.num_of(vn))
        c = [s - d.v0, d.v0 - s, s, s + 1, 255 - s, ONE - s]
        for x in (l0, min(l0, ln)):
            if x != -INF: c.append(s - int(x))
        for x in (h0, max(h0, hn)):
            if x != INF: c.append(const(int(x)) - s)
        if w:
            for x in ((1 << (w - 1)) - 1, (1 << w) - 1): c.append(const(x) - s)
            c.append(s + (1 << (w - 1)))
        if d.obj is not None and d.obj in b.mem and b.mem[d.obj].size is not None:
            c.append(b.mem[d.obj].size - s)
        # bounds on the increment
        pp = self.num_of(vp) if vp is not None else None
        inc = self.num_of(vn) - (pp if pp is not None else d.v0)
        if d.tries == 0:
            ms = self.upper(ctx, b, inc)
            if d.step is not None and self.outer(ctx, d.step) and b.f.entails(d.step) and d.step not in ms: ms.insert(0, d.step)
            for m in ms: c.append(d.v0 + ctx.k * m - s)
        d.tries += 1
        ctx.addcands(c)
        return d

    def upper(self, ctx, b, inc):
        """loop-invariant upper bounds of an increment"""
        out = []
        lo, hi = b.f.iv(inc)
        if hi != INF and hi >= 0: out.append(const(int(hi)))
        syms = inc.syms()
        for f in b.f.f:
            if not syms or syms.isdisjoint(f.syms()): continue
            # rest - inc >= 0 ?
            r = f + inc
            if self.outer(ctx, r): out.append(r); continue
            # eliminate one symbol of the iteration by its own upper bound
            loc = [s for s in r.syms() if not ctx.osym(s)]
            for s in loc:
                # flags: by their numeric bound
                l, h = b.f.bounds(s)
                if h <= 1 and l >= 0 and r.t.get((s,), 0) > 0: r = r + (const(int(h)) - sym(s)) * r.t[(s,)]
            loc = [s for s in r.syms() if not ctx.osym(s)]
            if not loc and r not in out: out.append(r)
            if len(loc) != 1 or r.t.get((loc[0],), 0) <= 0: continue
            z = loc[0]; c = r.t[(z,)]
            for g in b.f.f:
                if g.t.get((z,), 0) == -1:
                    q = r + g * c
                    if self.outer(ctx, q) and q not in out: out.append(q)
        # symbolic bounds first: the numeric one is the weakest
        num = [r for r in out if not r.t]; out = [r for r in out if r.t]
        # this state's own slack need not hold in others
        for r in out[:6]:
            if r.c < 0 and Poly(r.t, 0) not in out: out.append(Poly(r.t, 0))
        return out[:8] + num

    def demote(self, ctx, k, d, v0, vn, b, vp=None):
        E = _e()
        if d.kind == "aff":
            p0, pn = self.num_of(v0), self.num_of(vn)
            same = p0 is not None and pn is not None and (isinstance(v0, E.P) == isinstance(vn, E.P)) and not (isinstance(vn, E.P) and (v0.o != vn.o or v0.gen != vn.gen))
            ctx.delcands(d.cands)
            if ctx.f.file.startswith("/") and not NODISC or same and p0.isconst() and pn.isconst() and d.val == "I":
                n = D("disc"); n.tries = d.tries
            elif same:
                n = D("opq"); n.v0 = p0; n.w = d.w; n.obj = d.obj; n.val = d.val; n.gen = d.gen
                n.step = d.step
                self.mkopq(ctx, k, n, b, v0, vn, vp)
            else:
                n = D("disc")
        elif d.kind == "opq":
            n = D("disc")
        else:
            n = D("disc")
        ctx.D[k] = n
        ctx.retype(self)

    def widenfl(self, ctx, d, b, v, firstpass=False):
        E = _e()
        a = d.val
        lo, hi, nan = self.frng(b, v)
        nlo, nhi, nnan = a.lo, a.hi, a.nan or nan
        if lo < a.lo: nlo = lo if firstpass else next((t for t in (0.0, -1.0) if lo >= t), float("-inf"))
        if hi > a.hi: nhi = hi if firstpass else next((t for t in (1.0, 65536.0) if hi <= t), float("inf"))
        def bnd(x, y, up):
            if x is None: return None
            if y is None: return None
            if x == y: return x
            q = (x - y) if up else (y - x)
            return x if b.f.entails(q) else None
        ub = a.ub; lb = a.lb
        if a.ub is not None:
            ub = bnd(a.ub, v.ub, True)
            if ub is None and v.ub is None and (lo, hi) != (0, 0): ub = None
        if a.lb is not None:
            lb = bnd(a.lb, v.lb, False)
        if (nlo, nhi, nnan, ub, lb) == (a.lo, a.hi, a.nan, a.ub, a.lb): return False
        d.val = E.FL(nlo, nhi, nnan, lb, ub, ex=a.ex)
        return True

    def checklin(self, ctx, k, d, g, b):
        other, m = d.lin
        inc = self.num_of(self.getslot(b, k)) - self.num_of(self.getslot(g, k))
        inco = self.num_of(self.getslot(b, other)) - self.num_of(self.getslot(g, other))
        if self.eqz(b, inc - m * inco): return False
        d.lin = None
        return True

    # ------------------------------------------------------------ candidate invariants
    def rename(self, ctx, b):
        """substitution giving the head values of the next iteration"""
        m = {ctx.K: ctx.k + 1}
        for k, d in ctx.D.items():
            if d.kind == "opq":
                v = self.getslot(b, k) if (k[0] == "ghost" or k[1] in b.mem) else None
                p = self.num_of(v)
                if p is None: return None
                m[d.sym] = p
        return m

    def houdini(self, ctx, pend):
        """drop candidates that do not hold initially or are not preserved; harvest new ones"""
        ch = False
        m0 = {ctx.K: ZERO}
        for k, d in ctx.D.items():
            if d.kind == "opq": m0[d.sym] = d.v0
        new = []
        if ctx.npass >= 1:
            for g, b, first in pend:
                if first: continue
                back = {ctx.K: ctx.k - 1}
                for k, d in ctx.D.items():
                    if d.kind == "opq" and (k[0] == "ghost" or k[1] in b.mem):
                        p = self.num_of(self.getslot(b, k))
                        if p is None: continue
                        if d.sym not in back and (p - sym(d.sym)).isconst() and p.t:
                            if p != sym(d.sym): back[d.sym] = sym(d.sym) - (p - sym(d.sym))
                            continue
                        for mm, c in p.t.items():
                            if len(mm) == 1 and c in (1, -1) and mm[0] != d.sym and not ctx.osym(mm[0]) and mm[0] != ctx.K and mm[0] not in back:
                                rest = Poly({x: y for x, y in p.t.items() if x != mm}, p.c)
                                if mm[0] in rest.syms(): continue
                                e = sym(d.sym) - rest
                                back[mm[0]] = e if c == 1 else -e
                                break
                cand = [q for q in b.f.f if q not in ctx.inv]
                for q in b.f.neq: cand += [q - 1, -q - 1]
                for s, (l, h) in b.f.b.items():
                    if s == ctx.K or s in back:
                        if h != INF: cand.append(const(int(h)) - sym(s))
                for q in cand:
                    if len(q.t) > 5 or q.degree() > 3: continue
                    if not any(s in back for s in q.syms()): continue
                    r = q.subst(back)
                    if r.t and norm(r) not in ctx.dropped and norm(r) not in ctx.inv and norm(r) not in new and all(ctx.osym(s) or s == ctx.K or s in m0 for s in r.syms()) and not g.f.entails(r):
                        new.append(norm(r))
        for r in new[:40]:
            if len(ctx.inv) < 60:
                ctx.addcands([r])
                ch = True
        for c in list(ctx.inv):
            if c in ctx.tested0: continue
            ctx.tested0.add(c)
            if not ctx.S0.f.entails(c.subst(m0)):
                ctx.drop(c); ch = True
        for g, b, first in pend:
            if first:
                continue
            m = self.rename(ctx, b)
            if m is None: continue
            for c in list(ctx.inv):
                if not ctx.assumed(c): continue
                if not b.f.entails(c.subst(m)):
                    ctx.drop(c); ch = True
        if any(not ctx.assumed(c) for c in ctx.inv): ch = True
        # proportional increments
        for g, b, first in pend:
            if first: continue
            self.linrel(ctx, g, b)
        return ch

    def linrel(self, ctx, g, b):
        opq = [(k, d) for k, d in ctx.D.items() if d.kind == "opq" and d.lin is None]
        if len(opq) < 2: return
        incs = []
        for k, d in opq:
            if k[0] != "ghost" and (k[1] not in b.mem or k[1] not in g.mem): return
            pn, pp = self.num_of(self.getslot(b, k)), self.num_of(self.getslot(g, k))
            if pn is None or pp is None: return
            incs.append((k, d, pn - pp))
        for k, d, i1 in incs:
            if d.tries >= 5: continue
            if any(x.lin and x.lin[0] == k for x in ctx.D.values()): continue
            for k2, d2, i2 in incs:
                if k2 == k or d2.lin is not None or not i2.t and (not i2.c or not i1.t): continue
                if not i2.t:
                    if any(c % i2.c for c in i1.t.values()) or i1.c % i2.c: continue
                    m = Poly({x: c // i2.c for x, c in i1.t.items()}, i1.c // i2.c)
                else: m = ONE if i1 == i2 else (divpoly(i1, i2) if len(i2.t) == 1 and not i2.c else None)
                if m is None or not self.outer(ctx, m): continue
                if not self.outer(ctx, d.v0) or not self.outer(ctx, d2.v0): continue
                d.lin = (k2, m); d.tries = 5
                ctx.force = True
                return

    # ------------------------------------------------------------ building the generalised states
    def build(self, ctx):
        E = _e()
        S0 = ctx.S0
        sigs = {}
        sigs[self.sigof(ctx, S0)] = S0
        for sg, rep in list(ctx.heads.items()):
            s2 = self.sigof(ctx, rep)
            sigs.setdefault(s2, rep)
        ctx.heads = dict(sigs)
        out = []
        ctx.marktested()
        for sg, rep in sigs.items():
            G = S0.copy()
            G.f.add(ctx.k)
            if rep is not S0:
                # objects that only exist on back edges
                for oid, o in rep.mem.items():
                    if oid not in S0.mem:
                        n = o.copy()
                        G.new(n)
                for oid in list(G.mem):
                    if oid not in rep.mem:
                        if G.mem[oid].kind in ("global", "root"): continue
                        del G.mem[oid]
                G.jmps = dict(rep.jmps)
            vals = {}
            for k in ctx.order():
                d = ctx.D[k]
                if k[0] in ("cell", "attr", "size", "alive") and k[1] not in G.mem: continue
                if d.kind in ("disc", "rng"):
                    if k[0] == "jmps": continue
                    if k[0] != "ghost" and k[1] not in rep.mem: continue
                    v0 = self.getslot(rep, k)
                    v = self.ranged(ctx, k, d, v0, sg, rep)
                    if v is not v0 and isinstance(v, E.P) and d.within and v.o in G.mem and G.mem[v.o].size is not None:
                        G.f.add(v.off); G.f.add(G.mem[v.o].size - v.off)
                elif d.kind == "aff":
                    v = self.wrapval(d, d.v0 + ctx.k * d.step)
                elif d.kind == "opq":
                    if d.lin is not None:
                        d2 = ctx.D.get(d.lin[0])
                        if d2 is None or d2.kind not in ("opq", "aff"):
                            d.lin = None
                            v = self.wrapval(d, sym(d.sym))
                        else:
                            other = sym(d2.sym) if d2.kind == "opq" else d2.v0 + ctx.k * d2.step
                            p = d.v0 + d.lin[1] * (other - d2.v0)
                            v = self.wrapval(d, p)
                            vals[d.sym] = p
                    else:
                        v = self.wrapval(d, sym(d.sym))
                elif d.kind == "flt":
                    v = d.val
                    v = E.FL(v.lo, v.hi, v.nan, v.lb, v.ub, ex=v.ex)
                    v.id = d.val.id
                else:
                    continue
                self.setslot(G, k, v, ctx.sizes.get(k, 8))
            bad = False
            for c in ctx.inv:
                if not G.f.add(c.subst(vals) if vals else c): bad = True; break
            for oid, R in ctx.regs.items():
                for r in R.items:
                    r.asm = True
                    if vals: r.lo = r.lo.subst(vals); r.hi = r.hi.subst(vals)
                R.asm = True; R.asmsegs = list(R.segs)
                if oid in G.mem: self.putregs(ctx, G, oid, R)
            if bad or G.f.bot: 
                out.append((sg, None)); continue
            out.append((sg, G))
        return out

    def wrapval(self, d, p):
        E = _e()
        if d.val == "I": return E.I(p, d.w)
        if d.val == "P": return E.P(d.obj, p, d.gen)
        return p

    # ------------------------------------------------------------ object identity / generations
    def normalise(self, ctx, b):
        """bring objects replaced or reallocated in the iteration back to the identity they had at the head"""
        E = _e()
        S0 = ctx.S0
        for oid, o in list(b.mem.items()):
            z = S0.mem.get(oid)
            if z is not None and o.gen != z.gen:
                self.regen(b, oid, o.gen, z.gen)
        # objects created in the iteration: canonical representative per creation site
        for oid, o in list(b.mem.items()):
            if oid in S0.mem or oid in ctx.canon.values(): continue
            key = (o.site if o.site is not None else o.label, o.kind)
            c = ctx.canon.get(key)
            if c is None:
                ctx.canon[key] = oid
            elif c not in b.mem:
                self.renobj(b, oid, c)
        return

    def regen(self, st, oid, old, new):
        E = _e()
        def fix(v):
            if isinstance(v, E.P) and v.o == oid:
                return E.P(v.o, v.off, new if v.gen == old else -1)
            return v
        st.w(oid, False).gen = new
        self.mapvals(st, fix, oid)

    def renobj(self, st, a, c):
        E = _e()
        def fix(v):
            if isinstance(v, E.P) and v.o == a: return E.P(c, v.off, v.gen)
            return v
        self.mapvals(st, fix, a)
        o = st.w(a, False)
        del st.mem[a]
        o.id = c
        st.mem[c] = o

    def mapvals(self, st, fix, oid):
        for i, o in list(st.mem.items()):
            ch = any(fix(v) is not v for s, v in o.cells.values()) or any(fix(v) is not v for s, v in o.sym.values()) or any(fix(g[4]) is not g[4] for g in o.segs) or any(fix(v) is not v for v in o.attrs.values())
            if ch:
                w = st.w(i)
                w.cells = {k: (s, fix(v)) for k, (s, v) in w.cells.items()}
                w.sym = {k: (s, fix(v)) for k, (s, v) in w.sym.items()}
                w.segs = tuple((a, b, c, d, fix(v), z) for a, b, c, d, v, z in w.segs)
                w.attrs = {k: fix(v) for k, v in w.attrs.items()}
        st.env = {k: fix(v) for k, v in st.env.items()}
        st.stack = tuple({k: fix(v) for k, v in e.items()} for e in st.stack)
        st.ghost = {k: fix(v) for k, v in st.ghost.items()}

    # ------------------------------------------------------------ array contents
    def isarray(self, ctx, oid):
        """numeric array of unknown length"""
        r = ctx.arrs.get(oid)
        if r is None:
            E = _e()
            o = ctx.S0.mem[oid]
            zs = {s for s, v in o.cells.values()}
            r = o.size is not None and len(zs) <= 1 and not (o.size.isconst() and zs and o.size.c <= max(zs)) and \
                all(v is E.UN or isinstance(v, (E.FL, E.I)) for s, v in o.cells.values())
            ctx.arrs[oid] = r
        return r

    def foldcells(self, st, o):
        regs = o.regs
        for k, (s, v) in o.cells.items():
            regs = self.addreg(st, regs, const(k), const(k + s), self.regval(st, v))
        return regs

    def absorb_data(self, ctx, g, b, oid, first):
        """contents of an array changed from g to b"""
        E = _e()
        if oid not in g.mem or oid not in b.mem or oid not in ctx.S0.mem: return False
        og, ob = g.mem[oid], b.mem[oid]
        R = ctx.regs.get(oid)
        ch = False
        if R is None:
            R = ctx.regs[oid] = Regs(ctx.S0.mem[oid])
            if self.isarray(ctx, oid):
                # all contents are described by regions from here on
                R.old = list(self.foldcells(ctx.S0, ctx.S0.mem[oid]))
                for k in [k for k in ctx.D if k[0] == "cell" and k[1] == oid]: del ctx.D[k]
                ctx.retype(self)
            ch = True
        # base changes (whole-object fills)
        if ob.base is not R.base and ob.base != R.base:
            nb = self.vjoin(b, R.base, ob.base)
            if not (nb is R.base or nb == R.base or (isinstance(nb, E.FL) and isinstance(R.base, E.FL) and nb.same(R.base))):
                R.base = self.widenval(R, "base", nb, R.base); ch = True
        if first:
            return ch
        # regions of b that are not those of g
        for lo, hi, v in (self.foldcells(b, ob) if self.isarray(ctx, oid) else ob.regs):
            if any(lo == a and hi == c and (v is x or (isinstance(v, E.FL) and isinstance(x, E.FL) and v.same(x)) or (not isinstance(v, E.FL) and v == x)) for a, c, x in og.regs):
                continue
            if self.addregion(ctx, R, g, b, og, ob, lo, hi, v): ch = True
        # regions of g that vanished in b: whole-object fill covers them, or they were dropped
        for sg in ob.segs:
            if sg not in og.segs:
                pass
        if self.addsegs(ctx, R, g, b, og, ob): ch = True
        # symbolic caches that were established before the loop are not trusted any more
        return ch

    def widenval(self, R, key, n, old):
        E = _e()
        c = R.cnt.get(key, 0) + 1
        R.cnt[key] = c
        if isinstance(n, E.FL):
            lo = n.lo; hi = n.hi
            if c > 2 and isinstance(old, E.FL):
                if lo < old.lo: lo = next((t for t in (0.0, -1.0) if lo >= t), -INF)
                if hi > old.hi: hi = next((t for t in (1.0, 65536.0) if hi <= t), INF)
            if c > 6: lo, hi = -INF, INF
            return E.FL(lo, hi, n.nan, n.lb if c <= 6 else None, n.ub if c <= 6 else None)
        if c > 4 and isinstance(n, tuple): return "unk"
        if type(n) is E.Rec and type(old) is E.Rec and n.layout() == old.layout():
            f = []
            for (a, z, x), (_, _, y) in zip(n.f, old.f):
                if isinstance(x, tuple) and x[0] == "int" and c > 4: x = ("int", 0 if x[1] >= 0 else -(1 << x[3]), (1 << x[3]) - 1, x[3])
                elif isinstance(x, E.FL): x = self.widenval(R, (key, a), x, y)
                f.append((a, z, x))
            return E.Rec(n.es, f)
        return n

    def addregion(self, ctx, R, g, b, og, ob, lo, hi, v):
        E = _e()
        if DEBUG: sys.stderr.write("   addreg %s %s %r %r %r opq=%r\n" % (ctx.names, ob.id, lo, hi, v, [(k, d.sym, d.lin, self.getslot(g, k), self.getslot(b, k)) for k, d in ctx.D.items() if d.kind == "opq"]))
        k = ctx.k; K = ctx.K
        def at(p, n): return p.subst({K: n})
        # already part of a generalised region?
        mine = None
        m = self.rename(ctx, b)
        for r in R.items:
            if m is not None and hi == r.hi.subst(m) and (lo == r.lo or lo == r.lo.subst(m)):
                mine = r; break
            # r describes [r.lo(k), r.hi(k)) at the head; after the iteration it must be [r.lo(k+1), r.hi(k+1))
            if (lo == r.lo or lo == at(r.lo, k + 1)) and (hi == at(r.hi, k + 1) or hi == r.hi):
                mine = r; break
        if mine is not None:
            return self.joinval(ctx, R, mine, b, v)
        usesym = [s for s in (lo.syms() | hi.syms()) if not ctx.osym(s) and s != K]
        if usesym:
            # relate the bounds to slots at the head (opaque counters): [slot before, slot after) was written
            for k2, d in ctx.D.items():
                if d.kind != "opq" or k2[0] == "ghost" or k2[1] not in b.mem or k2[1] not in g.mem: continue
                ph, pb = self.num_of(self.getslot(g, k2)), self.num_of(self.getslot(b, k2))
                if ph is None or pb is None: continue
                g_ = 0
                for x in hi.t.values(): g_ = math.gcd(g_, abs(x))
                for mul in (1, g_) if g_ > 1 else (1,):
                    c = hi - pb * mul
                    if (c.isconst() or self.outer(ctx, c)) and lo == ph * mul + c:
                        r = Region(d.v0 * mul + c, ph * mul + c, self.cleanval(ctx, b, v))
                        if (r.lo, r.hi) in R.banned: break
                        R.items.append(r)
                        return True
            return self.weakreg(ctx, R, b, v)
        l0, h0, l1, h1 = at(lo, ZERO), at(hi, ZERO), at(lo, k + 1), at(hi, k + 1)
        if K not in lo.syms() and K not in hi.syms():
            # same place in every iteration
            if self.written(ctx.S0, ctx.S0.mem[ob.id], lo, hi - lo) and ctx.S0.mem[ob.id].base == "uninit":
                pass
            return self.weakreg(ctx, R, b, v, lo, hi)
        if hi == l1:
            r = Region(l0, lo, v)       # ascending: [lo(0), lo(k))
        elif lo == h1:
            r = Region(hi, h0, v)       # descending: [hi(k), hi(0))
        elif lo == l0 and hi == at(hi, k):
            # grows from a fixed start: [lo, hi(k)) after the iteration, so [lo, hi(k-1)) at the head
            r = Region(lo, at(hi, k - 1), v) if self.eqz(ctx.S0, at(hi, const(-1)) - lo) else None
            if r is None: return self.weakreg(ctx, R, b, v)
        else:
            return self.weakreg(ctx, R, b, v)
        if (r.lo, r.hi) in R.banned: return self.weakreg(ctx, R, b, v)
        # merge with what is there before the loop: the region starts empty
        r.v = v if not isinstance(v, E.FL) else v
        r.v = self.cleanval(ctx, b, v)
        R.items.append(r)
        return True

    def checkregions(self, ctx, g, b):
        """generalised regions must have grown to what the next head claims"""
        E = _e()
        ch = False
        m = None
        live = {d.sym for d in ctx.D.values() if d.kind == "opq"}
        for oid, R in ctx.regs.items():
            if not R.asm or oid not in b.mem: continue
            for sg in [sg for sg in R.segs if sg in R.asmsegs]:
                a, stp, K, v, sz = sg
                if b.mem[oid].sym.get(a + ctx.k * stp) != (sz, self.vsubst(v, {K: ctx.k}, {K})):
                    R.segs.remove(sg); R.banned.add(sg); ch = True
            for sg in list(R.oldsegs):
                if sg not in b.mem[oid].segs and not any(t[:2] == sg[:2] and t[3:] == sg[3:] and b.f.entails(t[2] - sg[2]) for t in b.mem[oid].segs):
                    R.oldsegs.remove(sg); ch = True
            for i, (lo, hi, x) in enumerate(list(R.old)):
                vals = self.covering(b, b.mem[oid], lo, hi)
                if vals is None:
                    R.old.remove((lo, hi, x)); ch = True
            if not R.items: continue
            if m is None: m = self.rename(ctx, b) or False
            for r in list(R.items):
                if not r.asm: continue
                good = bool(m) and oid in b.mem and all(ctx.osym(s) or s == ctx.K or s in live for s in r.lo.syms() | r.hi.syms())
                if good:
                    lo, hi = r.lo.subst(m), r.hi.subst(m)
                    vals = self.covering(b, b.mem[oid], lo, hi)
                    if vals is None: good = False
                    else:
                        for v in vals:
                            if self.joinval(ctx, R, r, b, v): ch = True
                if not good:
                    if oid not in b.mem: continue
                    if DEBUG: sys.stderr.write("   ban %s %r %r m=%r got %r %r\n" % (oid, r.lo, r.hi, m, b.mem[oid].regs, b.mem[oid].cells))
                    R.items.remove(r); R.banned.add((r.lo, r.hi)); ch = True
                    self.weakreg(ctx, R, b, r.v)
        return ch

    def covering(self, st, o, lo, hi):
        """values of the known regions that cover [lo, hi) of o, or None"""
        pos = lo; out = []
        for _ in range(12):
            if st.f.entails(pos - hi): return out
            nxt = None
            for a, c, v in o.regs:
                if v is _e().UN or type(v) is _e().Rec and not v.complete(): continue
                if st.f.entails(pos - a) and (st.f.entails(c - pos - 1) or st.f.entails(c - hi)):
                    nxt = c; out.append(v); break
            if nxt is None and not pos.t and pos.c in o.cells and o.cells[pos.c][1] is not _e().UN:
                z, v = o.cells[pos.c]
                nxt = const(pos.c + z); out.append(self.regval(st, v))
            if nxt is None: return None
            pos = nxt
        return None

    def cleanval(self, ctx, b, v):
        """value summary without symbols of this iteration"""
        E = _e()
        if isinstance(v, E.FL):
            lb = v.lb if v.lb is not None and self.outer(ctx, v.lb) else None
            ub = v.ub if v.ub is not None and self.outer(ctx, v.ub) else None
            lo, hi, nan = self.frng(b, v)
            return E.FL(lo, hi, nan, lb, ub)
        if type(v) is E.Rec: return E.Rec(v.es, tuple((a, z, self.cleanval(ctx, b, x)) for a, z, x in v.f))
        return v

    def joinval(self, ctx, R, r, b, v):
        E = _e()
        v = self.cleanval(ctx, b, v)
        n = self.vjoin(b, r.v, v)
        n = self.cleanval(ctx, b, n) if isinstance(n, E.FL) else n
        if n is r.v or (isinstance(n, E.FL) and isinstance(r.v, E.FL) and n.same(r.v)) or (not isinstance(n, E.FL) and n == r.v):
            return False
        r.v = self.widenval(R, id(r), n, r.v)
        return True

    def weakreg(self, ctx, R, b, v, lo=None, hi=None):
        """somewhere in the object, v may have been written"""
        E = _e()
        v = self.cleanval(ctx, b, v)
        ch = False
        if R.base != "uninit":
            n = self.vjoin(b, R.base, v)
            if not (n is R.base or (isinstance(n, E.FL) and isinstance(R.base, E.FL) and n.same(R.base)) or (not isinstance(n, E.FL) and not isinstance(R.base, E.FL) and n == R.base)):
                R.base = self.widenval(R, "base", n, R.base); ch = True
        for i, (a, c, x) in enumerate(R.old):
            if lo is not None and (b.f.entails(a - hi) or b.f.entails(lo - c)): continue
            n = self.vjoin(b, x, v)
            if n is x or (isinstance(n, E.FL) and isinstance(x, E.FL) and n.same(x)) or (not isinstance(n, E.FL) and n == x): continue
            R.old[i] = (a, c, self.widenval(R, ("old", i), n, x)); ch = True
        if not R.weak:
            R.weak = True; ch = True
        return ch

    def addsegs(self, ctx, R, g, b, og, ob):
        E = _e()
        ch = False
        for off, (sz, v) in ob.sym.items():
            if off in og.sym and og.sym[off] == (sz, v): continue
            if not isinstance(v, (E.P, E.FN)): continue
            if ctx.K not in off.syms(): continue
            stp = off.subst({ctx.K: ctx.k + 1}) - off
            if not stp.isconst() or stp.c != sz: continue
            a = off.subst({ctx.K: ZERO})
            vs = v.off.syms() if isinstance(v, E.P) else ()
            if any(not ctx.osym(s) and s != ctx.K for s in vs): continue
            # the table's own index variable
            if ctx.KT is None: ctx.KT = newsym("ki", 0, KMAX)
            new = (a, sz, ctx.KT, self.vsubst(v, {ctx.K: sym(ctx.KT)}, {ctx.K}), sz)
            if new not in R.segs and new not in R.banned:
                if any(s[0] == a for s in R.segs): R.segs = [s for s in R.segs if s[0] != a]
                else: R.segs.append(new); ch = True
        return ch

    def putregs(self, ctx, G, oid, R):
        E = _e()
        o = G.w(oid)
        o.base = R.base
        # cells of arrays: fold into regions
        regs = tuple(R.old)
        if R.weak or R.items or self.isarray(ctx, oid):
            o.sym = {}
            if o.size is None or not o.size.isconst() or True:
                keep = {}
                for k, (s, v) in (() if self.isarray(ctx, oid) else o.cells.items()):
                    if any(type(x) is E.Rec for _, _, x in regs) or any(type(r.v) is E.Rec for r in R.items):
                        if k in R.kept and ("cell", oid, k) not in ctx.D: keep[k] = (s, v)
                    elif isinstance(v, (E.P, E.FN)) and not R.weak and all(G.f.entails(r.lo - (k + s)) or G.f.entails(k - r.hi) for r in R.items): keep[k] = (s, v)
                    elif ("cell", oid, k) in ctx.D or (o.size is not None and o.size.isconst() and not R.items): keep[k] = (s, v)
                    elif o.base == "uninit" and v is not E.UN:
                        regs = self.addreg(G, regs, const(k), const(k + s), self.regval(G, v))
                    elif not R.items: keep[k] = (s, v)
                o.cells = keep
        for r in R.items:
            if r.lo == r.hi: continue
            regs = self.addreg(G, regs, r.lo, r.hi, r.v)
        o.regs = self.mergeregs(regs, G)
        o.segs = tuple(R.oldsegs) + tuple((a, stp, ctx.k, K, v, sz) for a, stp, K, v, sz in R.segs)
        o.sym = {}

    # ------------------------------------------------------------ counting loops
    # A loop that counts the elements meeting some conditions (its counter grows by one exactly in the iterations
    # whose branch outcomes are among those seen) leaves a record of: the total, the number of iterations and the
    # outcomes of the iterations that did not count.  A later loop over the same elements whose own counter grows
    # only in iterations that contradict all of those can count at most that total.
    def iterconds(self, before, path):
        n = len(before)
        if path[:n] != before: return None
        r = [()]
        for x in path[n:]:
            if x[0] == "alt": r = [q + tuple(y) for q in r for y in x[1]]
            else: r = [q + (x,) for q in r]
            if len(r) > 16: return None
        return frozenset(frozenset(q) for q in r)

    def atoms(self, conj, K, shift=0):
        """outcomes of floating comparisons in a conjunction, independent of the iteration symbol"""
        E = _e(); out = {}
        for x in conj:
            if x[0] == "alt": continue
            c, t = x
            while c[0] == "not": c = c[1]; t = not t
            if c[0] != "fc": continue
            pred = self.fpred(c[1])
            a, b = self.exkey(c[2].ex, K, shift), self.exkey(c[3].ex, K, shift)
            s = set(pred) if t else set("LEGU") - set(pred)
            ra, rb = repr(a), repr(b)
            if ra > rb:
                ra, rb = rb, ra
                s = set("".join(s).translate(self.FFLIP))
            k = (ra, rb)
            out[k] = out.get(k, set("LEGU")) & s
        return {k: frozenset(v) for k, v in out.items()}

    def exkey(self, x, K, shift):
        if isinstance(x, Poly):
            if K not in x.syms(): return x
            if shift == "zero": return x.subst({K: ZERO})
            if shift: x = x.subst({K: sym(K) - shift})
            return ("p",) + tuple(sorted(((tuple("K" if s == K else s for s in m), c) for m, c in x.t.items()), key=repr)) + (x.c,)
        if isinstance(x, tuple): return tuple(self.exkey(y, K, shift) for y in x)
        return x

    def countrecs(self, ctx, used):
        out = []
        for k, d in ctx.D.items():
            if d.kind != "opq" or d.val != "I" or k[0] != "cell": continue
            non = []; non0 = []; good = True; inc = 0
            for G, backs, ex, rt, fs, _, stays in used:
                for p, b in backs:
                    if k[1] not in b.mem or k[1] not in G.mem: good = False; break
                    x, y = self.num_of(self.getslot(b, k)), self.num_of(self.getslot(G, k))
                    dl = y is not None and x is not None and x - y
                    if dl == ONE: inc += 1; continue
                    if dl != ZERO or b.it is None: good = False; break
                    for q in b.it:
                        non.append(frozenset(self.atoms(q, ctx.K).items()))
                        non0.append(frozenset(self.atoms(q, ctx.K, "zero").items()))
                if not good: break
            if not good or not inc or not non: continue
            non = set(non)
            if not all(non): continue        # an iteration that did not count for no visible reason
            r = CountRec(); r.k = k; r.v0 = d.v0; r.non = frozenset(non); r.non0 = frozenset(non0); r.key = ("count", ctx.f.src, ctx.L.header)
            out.append(r)
        return out[:1]

    def putcount(self, st, r, v, n):
        st.ghost[r.key] = v - r.v0
        st.ghost[r.key + ("n",)] = n
        self.countforms[r.key] = None
        st.ghost[r.key + ("f",)] = self.countintern.setdefault(r.non, len(self.countintern))
        self.countlist[st.ghost[r.key + ("f",)]] = (r.non, r.non0)

    def countrels(self, ctx, pend):
        """relate counters of this loop to totals counted by earlier loops"""
        S0 = ctx.S0
        keys = [g for g in S0.ghost if isinstance(g, tuple) and g[0] == "count" and len(g) == 3]
        if not keys: return False
        ch = False
        for k, d in ctx.D.items():
            if d.kind != "opq" or d.val != "I" or k[0] != "cell" : continue
            for g in keys:
                if ctx.cnt.get((k, g)) is d: continue
                t = Trigger(); t.k = k; t.d = d; t.K = ctx.K; t.shift = 0; t.hv = None
                t.T = S0.ghost[g]; t.N = S0.ghost[g + ("n",)]; t.non, _ = self.countlist[S0.ghost[g + ("f",)]]
                ctx.cnt[(k, g)] = d
                ctx.trig.append(t); ch = True
        for t in list(ctx.trig):
            good = ctx.D.get(t.k) is t.d
            for g, b, first in pend:
                if not good or first: continue
                if t.k[1] not in b.mem or t.k[1] not in g.mem: good = False; break
                x, y = self.num_of(self.getslot(b, t.k)), self.num_of(self.getslot(g, t.k))
                if x is None or y is None: good = False; break
                if x - y == ZERO: continue
                if x - y != ONE or not b.it or not all(t.against(self, q) for q in b.it): good = False; break
            if not good:
                ctx.trig.remove(t); ch = True
        return ch

    def usecounts(self, st):
        for t in self.triggers: t.use(self, st)

class CountRec:
    __slots__ = ("k", "v0", "non", "non0", "key")

class First:
    """the first iteration of a later loop over the same elements"""
    def __init__(self, T, N, non): self.T = T; self.N = N; self.non = non
    def use(self, E, st):
        n = E.iterconds((), st.path)
        if n and all(against(self.non, E.atoms(q, -1)) for q in n) and st.f.entails(self.N - 1): st.f.add(self.T - 1)

def against(non, at):
    return all(any(k in at and not (at[k] & s) for k, s in n) for n in non)

class Trigger:
    """counter d <= how many of the elements before this iteration the earlier loop counted (T in all of its N iterations)"""
    def against(self, E, conj, shift=0):
        return against(self.non, E.atoms(conj, self.K, shift))
    def bound(self, st, v, n):
        """v was reached after n iterations"""
        if st.f.entails(self.N - n): st.f.add(self.T - v + self.d.v0)
    def head(self, E, st, n):
        """an iteration starts in st, after n iterations"""
        self.hv = E.num_of(E.getslot(st, self.k)) if self.k[1] in st.mem else None
        self.shift = (n - sym(self.K)).c
        if self.hv is not None: self.bound(st, self.hv, n)
    def use(self, E, st):
        if self.hv is None or not any(x[0] == "alt" or x[0][0] in ("fc", "not") for x in st.path): return
        n = E.iterconds((), st.path)
        if not n or not all(self.against(E, q, self.shift) for q in n): return
        # this element was counted by the earlier loop: what precedes it counts less than the total
        if st.f.entails(self.N - sym(self.K) - self.shift - 1): st.f.add(self.T - 1 - self.hv + self.d.v0)
    def atexit(self, E, head, st, n):
        v = E.num_of(E.getslot(head, self.k)) if self.k[1] in head.mem else None
        if v is not None: self.bound(st, v, n)

class Region:
    __slots__ = ("lo", "hi", "v", "asm")
    def __init__(self, lo, hi, v):
        self.lo = lo; self.hi = hi; self.v = v
        self.asm = False        # part of the head states of the pass under way

class Regs:
    def __init__(self, o):
        self.base = o.base; self.old = list(o.regs); self.items = []; self.weak = False; self.segs = []; self.cnt = {}; self.banned = set(); self.asm = False; self.asmsegs = []; self.oldsegs = list(o.segs); self.kept = dict(o.cells)

class LoopCtx:
    def __init__(self):
        self.inv = []; self.dropped = set(); self.tested0 = set(); self._assumed = set(); self.canon = {}; self.force = False; self.arrs = {}; self.KT = None
    def debug(self, E, npass, pend, a, b):
        if DEBUG not in self.names and DEBUG != "all": return
        w = sys.stderr.write
        w("== %s pass %d pend %d absorbed=%s changed=%s\n" % (self.names, npass, len(pend), a, b))
        for k in self.order():
            d = self.D[k]
            o = self.S0.mem.get(k[1]) if len(k) > 1 else None
            w("   %s %s %s v0=%r step=%r val=%r lin=%r sym=%r\n" % (k, o.label if o else "", d.kind, getattr(d, "v0", None), d.step, getattr(d, "val", None), d.lin, getattr(d, "sym", None)))
        for oid, R in self.regs.items():
            w("   regs %s %s base=%r old=%r items=%r segs=%r weak=%r\n" % (oid, self.S0.mem[oid].label, R.base, R.old, [(r.lo, r.hi, r.v) for r in R.items], R.segs, R.weak))
        w("   inv %r\n   heads %d\n" % (self.inv, len(self.heads)))
        for sg in self.heads: w("      %r\n" % (sg,))
    def osym(self, s):
        """is s fixed before the loop, or a function of such symbols?"""
        if s == self.K: return False
        if s < self.base0: return True
        if s >= self.syms0: return False
        r = self.isout.get(s)
        if r is None:
            self.isout[s] = False
            S = SYMS[s]
            if S.div: r = self.opoly(S.div)
            elif S.wrap: r = self.opoly(S.wrap)
            elif S.cond is not None: r = self.opoly(S.cond)
            elif S.memo is not None: r = self.opoly(S.memo)
            else: r = False
            self.isout[s] = r
        return r
    def opoly(self, x):
        if isinstance(x, Poly): return all(self.osym(s) for s in x.syms())
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == "b" and isinstance(x[1], int): return self.osym(x[1])
            return all(self.opoly(y) for y in x)
        if isinstance(x, _e().I): return self.opoly(x.p)
        return True
    def order(self):
        return sorted(self.D, key=repr)
    def addcands(self, cs):
        if self.inv is None: self.inv = []
        for c in cs:
            c = norm(c)
            if not c.t: continue
            if c in self.dropped or c in self.inv: continue
            self.inv.append(c)
    def delcands(self, cs):
        for c in cs:
            c = norm(c)
            if c in self.inv: self.inv.remove(c)
    def drop(self, c):
        self.dropped.add(c)
        if c in self.inv: self.inv.remove(c)
        self._assumed.discard(c)
    def assumed(self, c): return c in self._assumed
    def marktested(self):
        self._assumed = set(self.inv)
        self.force = False
    def retype(self, eng):
        # candidates over symbols that no longer exist
        live = {d.sym for d in self.D.values() if d.kind == "opq"}
        dead = set()
        for c in self.inv:
            for s in c.syms():
                if not self.osym(s) and s != self.K and s not in live and SYMS[s].name.startswith("v") and SYMS[s].lo is None:
                    dead.add(c)
        for c in dead: self.drop(c)

def setjmpblocks(f):
    """blocks control may re-enter (in the middle) from anywhere later"""
    return [bi for bi, b in enumerate(f.blocks) if any(i.op == "call" and i.d["callee"][0] == "g" and i.d["callee"][1] in ("_setjmp", "setjmp", "__sigsetjmp", "sigsetjmp") for i in b)]

def compute_unmentioned(f):
    """block -> entry-block allocas that no block reachable from it mentions"""
    sj = setjmpblocks(f)
    al = {i.id for b in f.blocks for i in b if i.op == "alloca"}
    men = [set() for _ in f.blocks]
    def use(o, s):
        if isinstance(o, list) and o:
            if o[0] == "v": s.add(o[1])
            elif o[0] == "cast": use(o[2], s)
    for bi, b in enumerate(f.blocks):
        for i in b:
            if i.op == "call" and i.d["callee"][0] == "g" and i.d["callee"][1].startswith("llvm.dbg"): continue
            for o in i.ops: use(o, men[bi])
            for v, p in i.d.get("in", ()): use(v, men[bi])
            g = i.d.get("gep")
            if g:
                use(g["base"], men[bi])
                for x in g["idx"]: use(x[0], men[bi])
        men[bi] &= al
    ch = True
    while ch:
        ch = False
        for bi in reversed(range(len(f.blocks))):
            n = set(men[bi])
            for s in f.succ[bi]: n |= men[s]
            for s in sj: n |= men[s]
            if n != men[bi]: men[bi] = n; ch = True
    return {h: al - men[h] for h in range(len(f.blocks)) if h in f.loops or len(f.pred[h]) > 1}

def compute_dead(f):
    """loop header -> allocas (scalars, never escaping) whose value is not used before being overwritten"""
    sj = setjmpblocks(f)
    al = {}
    for b in f.blocks:
        for i in b:
            if i.op == "alloca" and i.ops[0][0] == "i": al[i.id] = i.d["size"] * int(i.ops[0][1])
    bad = set()
    def use(o):
        if isinstance(o, list) and o:
            if o[0] == "v": bad.add(o[1])
            elif o[0] == "cast": use(o[2])
    use_ = {}
    gen = [set() for _ in f.blocks]; kill = [set() for _ in f.blocks]
    for bi, b in enumerate(f.blocks):
        for i in b:
            if i.op == "load" and i.ops[0][0] == "v" and i.ops[0][1] in al:
                a = i.ops[0][1]
                if i.d["size"] != al[a]: bad.add(a)
                if a not in kill[bi]: gen[bi].add(a)
                continue
            if i.op == "store" and i.ops[1][0] == "v" and i.ops[1][1] in al:
                a = i.ops[1][1]
                use(i.ops[0])
                if i.d["size"] != al[a]: bad.add(a)
                elif a not in gen[bi]: kill[bi].add(a)
                continue
            if i.op == "call" and i.d["callee"][0] == "g" and i.d["callee"][1].startswith(("llvm.lifetime", "llvm.dbg")):
                for o in i.ops:
                    if o[0] == "v" and o[1] in al:
                        if o[1] not in gen[bi]: kill[bi].add(o[1])
                continue
            for o in i.ops: use(o)
            for v, p in i.d.get("in", ()): use(v)
            g = i.d.get("gep")
            if g:
                use(g["base"])
                for x in g["idx"]: use(x[0])
    cand = set(al) - bad
    anyuse = {}
    for s in sj:
        u = anyuse[s] = set()
        for i in f.blocks[s]:
            if i.op == "load" and i.ops[0][0] == "v": u.add(i.ops[0][1])
    live = [set() for _ in f.blocks]
    ch = True
    while ch:
        ch = False
        for bi in reversed(range(len(f.blocks))):
            out = set()
            for s in f.succ[bi]: out |= live[s]
            for s in sj:
                # a later longjmp re-enters behind the setjmp: kills in that block may be skipped
                out |= anyuse[s]
                for s2 in f.succ[s]: out |= live[s2]
            n = (gen[bi] & cand) | ((out - kill[bi]) & cand)
            if n != live[bi]: live[bi] = n; ch = True
    return {h: cand - live[h] for h in range(len(f.blocks)) if h in f.loops or len(f.pred[h]) > 1}
