"""Program representation on top of dump.cpp's JSON: functions, blocks, natural loops, escaping values."""

class Ins:
    __slots__ = ("id", "op", "ty", "loc", "ops", "d")
    def __init__(self, d):
        self.id = d["id"]; self.op = d["op"]; self.ty = d["ty"]; self.loc = d.get("loc"); self.ops = d["ops"]; self.d = d

class Loop:
    __slots__ = ("header", "blocks", "defs", "func", "guard")

class Func:
    def __init__(self, name, d):
        self.name = name
        self.decl = d["decl"]; self.args = d["args"]; self.ret = d["ret"]; self.vararg = d["vararg"]
        self.file = d.get("file"); self.line = d.get("line"); self.src = d.get("src", name)
        self.local = d["local"]
        self.blocks = []
        self.loops = {}; self.irreducible = False; self.escape = set()
        if self.decl:
            return
        self.blocks = [[Ins(i) for i in b] for b in d["blocks"]]
        self.succ = [self._succ(b) for b in self.blocks]
        n = len(self.blocks)
        self.pred = [[] for _ in range(n)]
        for b, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(b)
        self._loops()
        self._escape()

    def _succ(self, b):
        t = b[-1]
        if t.op == "br":
            return list(dict.fromkeys(t.d["succ"]))
        if t.op == "switch":
            return list(dict.fromkeys([c[1] for c in t.d["cases"]] + [t.d["default"]]))
        return []

    def _loops(self):
        n = len(self.blocks)
        # reachable + dominators
        order = []; seen = set(); st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x; ch = True
        self.rpo = rpo
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if dom(s, b):
                    L = self.loops.get(s)
                    if L is None:
                        L = Loop(); L.guard = None; L.header = s; L.blocks = {s}; L.func = self
                        self.loops[s] = L
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in L.blocks:
                            L.blocks.add(x)
                            todo.extend(p for p in self.pred[x] if p in idx)
        self.irreducible = False
        for b in rpo:
            for s in self.succ[b]:
                if idx[s] <= idx[b] and not dom(s, b):
                    self.irreducible = True
        for L in self.loops.values():
            L.defs = {i.id for b in L.blocks for i in self.blocks[b]}

    def _escape(self):
        where = {}
        for b, ins in enumerate(self.blocks):
            for i in ins:
                where[i.id] = b
        esc = set()
        def use(o, b):
            if isinstance(o, list) and o:
                if o[0] == "v":
                    if where.get(o[1], -1) != b:
                        esc.add(o[1])
                elif o[0] == "cast":
                    use(o[2], b)
        for b, ins in enumerate(self.blocks):
            for i in ins:
                for o in i.ops:
                    use(o, b)
                if i.op == "phi":
                    for v, p in i.d["in"]:
                        if v[0] == "v":
                            esc.add(v[1])
                g = i.d.get("gep")
                if g:
                    use(g["base"], b)
                    for x in g["idx"]:
                        use(x[0], b)
                if "callee" in i.d:
                    use(i.d["callee"], b)
        esc.update(range(len(self.args)))
        self.escape = esc

class Program:
    def __init__(self, js):
        self.funcs = {n: Func(n, d) for n, d in js["funcs"].items()}
        self.globals = js["globals"]
