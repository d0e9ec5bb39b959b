"""Per-function control-flow facts: weak topological order, loop heads, liveness."""


def succs(ins):
    if ins.op == "br": return [ins.a[0]]
    if ins.op == "cbr": return [ins.a[1], ins.a[2]]
    if ins.op == "switch": return [ins.a[1]] + [l for _, l in ins.a[2]]
    return []


def regs_of(o, out):
    if o[0] == "r": out.append(o[1])
    elif o[0] == "ge": regs_of(o[1], out)
    elif o[0] == "agg":
        for _, x in o[1]: regs_of(x, out)


def uses(ins):
    """registers read by an instruction (phi handled separately)"""
    out = []
    op, a = ins.op, ins.a
    if op in ("store",): regs_of(a[0], out); regs_of(a[1], out)
    elif op == "load": regs_of(a[0], out)
    elif op == "gep":
        regs_of(a[0], out)
        for o, _ in a[2]: regs_of(o, out)
    elif op in ("icmp", "fcmp"): regs_of(a[1], out); regs_of(a[2], out)
    elif op == "cbr": regs_of(a[0], out)
    elif op == "switch": regs_of(a[0], out)
    elif op == "ret":
        if a[0] is not None: regs_of(a[0], out)
    elif op == "alloca":
        if a[0] is not None: regs_of(a[0], out)
    elif op == "call":
        regs_of(a[0], out) if a[0][0] in ("r", "ge") else None
        for x in a[1]: regs_of(x, out)
    elif op == "select":
        for x in a: regs_of(x, out)
    elif op == "phi": pass
    elif op in ("br", "unreachable", "fence", "va_arg"): pass
    elif op == "extractvalue": regs_of(a[0], out)
    elif op == "insertvalue": regs_of(a[0], out); regs_of(a[1], out)
    elif op in ("cmpxchg", "atomicrmw"):
        regs_of(a[0], out); regs_of(a[1], out)
        if a[2] is not None: regs_of(a[2], out)
    else:
        for x in a:
            if isinstance(x, tuple) and x and x[0] in ("r", "ge", "agg"): regs_of(x, out)
    return out


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        self.succ = {b: succs(fn.blocks[b][-1]) for b in fn.order}
        self.pred = {b: [] for b in fn.order}
        for b in fn.order:
            for s in self.succ[b]: self.pred[s].append(b)
        self.pos = {}; self.heads = set(); self.comp = {}
        reach = self._reach(fn.order[0])
        self._wto([b for b in fn.order if b in reach], fn.order[0])
        self._live()

    def _reach(self, b0):
        seen = {b0}; st = [b0]
        while st:
            b = st.pop()
            for s in self.succ[b]:
                if s not in seen: seen.add(s); st.append(s)
        return seen

    def _sccs(self, nodes, roots):
        nodes = set(nodes); index = {}; low = {}; on = set(); stack = []; out = []; n = [0]

        def visit(v):
            work = [(v, iter(self.succ[v]))]
            index[v] = low[v] = n[0]; n[0] += 1; stack.append(v); on.add(v)
            while work:
                u, it = work[-1]
                adv = False
                for w in it:
                    if w not in nodes: continue
                    if w not in index:
                        index[w] = low[w] = n[0]; n[0] += 1; stack.append(w); on.add(w)
                        work.append((w, iter(self.succ[w]))); adv = True; break
                    elif w in on: low[u] = min(low[u], index[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    c = []
                    while True:
                        w = stack.pop(); on.discard(w); c.append(w)
                        if w == u: break
                    out.append(c)
        for r in roots:
            if r in nodes and r not in index: visit(r)
        for b in nodes:
            if b not in index: visit(b)
        out.reverse()
        return out

    def _wto(self, nodes, entry):
        """components are contiguous, so a loop's body precedes what follows the loop"""
        ctr = [0]

        def rec(nodes, entry):
            for c in self._sccs(nodes, [entry]):
                cs = set(c)
                if len(c) == 1 and c[0] not in self.succ[c[0]]:
                    self.pos[c[0]] = ctr[0]; ctr[0] += 1; continue
                # head: the block entered from outside the component
                ents = [b for b in c if b == self.fn.order[0] or any(p not in cs for p in self.pred[b])]
                order = {b: i for i, b in enumerate(self.fn.order)}
                h = min(ents or c, key=lambda b: order[b])
                self.heads.add(h); self.comp[h] = cs
                self.pos[h] = ctr[0]; ctr[0] += 1
                rest = [b for b in c if b != h]
                if rest:
                    nxt = [s for s in self.succ[h] if s in cs and s != h]
                    rec(rest, nxt[0] if nxt else rest[0])
        rec(nodes, entry)

    def _live(self):
        fn = self.fn
        use = {}; dfn = {}; phiuse = {}; phidef = {}
        for b in fn.order:
            u = set(); d = set()
            for ins in fn.blocks[b]:
                if ins.op == "phi":
                    d.add(ins.res)
                    for pb, v in ins.a:
                        o = []; regs_of(v, o)
                        for r in o: phiuse.setdefault((pb, b), set()).add(r)
                    phidef.setdefault(b, set()).add(ins.res)
                    continue
                for r in uses(ins):
                    if r not in d: u.add(r)
                if ins.res: d.add(ins.res)
            use[b] = u; dfn[b] = d
        # live-in after the phis have been evaluated
        self.live_in = {b: set() for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                out = set()
                for s in self.succ[b]:
                    out |= (self.live_in[s] - phidef.get(s, set())) | phiuse.get((b, s), set())
                n = use[b] | (out - dfn[b])
                n |= phidef.get(b, set()) & n   # phis used here
                # phi results used in the block count as live-in after phi evaluation
                pu = set()
                d = set()
                for ins in fn.blocks[b]:
                    if ins.op == "phi": continue
                    for r in uses(ins):
                        if r not in d: pu.add(r)
                    if ins.res: d.add(ins.res)
                n |= {r for r in pu}
                n |= {r for r in out if r not in d}
                if n != self.live_in[b]: self.live_in[b] = n; ch = True
        self._after = {}
        self._out = {}
        for b in fn.order:
            out = set()
            for s in self.succ[b]:
                out |= (self.live_in[s] - phidef.get(s, set())) | phiuse.get((b, s), set())
            self._out[b] = out

    def live_at(self, b, idx):
        """registers live just before instruction idx of block b"""
        k = (b, idx)
        r = self._after.get(k)
        if r is None:
            live = set(self._out[b])
            ins = self.fn.blocks[b]
            for j in range(len(ins) - 1, idx - 1, -1):
                if ins[j].res: live.discard(ins[j].res)
                live.update(uses(ins[j]))
            r = self._after[k] = frozenset(live)
        return r


def cfg(fn):
    c = getattr(fn, "_cfg", None)
    if c is None:
        c = Cfg(fn); fn._cfg = c
    return c
