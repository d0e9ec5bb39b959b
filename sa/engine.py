"""Abstract interpreter over the parsed LLVM IR.

State = (registers of the active frames, memory regions, numeric facts).  Control is followed
along a weak topological order; states that meet at a block are merged when they have the same
shape, and at loop heads they are joined (affine-equality join + retained inequalities, widening)
until nothing changes.  Calls to defined functions are interpreted in place, so the analysis is
fully context sensitive; calls to anything else use a model or return an unknown value.

No program code is executed and no solver is called.
"""
import heapq, os, re, sys, time
from fractions import Fraction
from math import gcd
import dom
from dom import Lin, K, A, ZERO, ONE, var, term, ATOMS, Facts, Infeasible, INF, ld, psum, bswap
from cfg import cfg
import ir

M64 = 1 << 64
sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    pass


class Budget(Exception):
    pass


class Restart(Exception):
    """a memory cell turned out to be an unbounded counter: begin again, knowing that"""


class Reg:
    """a memory region (immutable once stored in a state)"""
    __slots__ = ("cells", "size", "base", "dirty", "kind", "alive", "name", "flag", "tk", "csh", "clive", "cpk")

    def __init__(self, size, base, kind, name):
        self.cells = {}; self.size = size; self.base = base; self.dirty = None; self.kind = kind; self.alive = True; self.name = name; self.flag = None; self.tk = (); self.csh = None; self.clive = None; self.cpk = None

    def copy(self):
        r = Reg(self.size, self.base, self.kind, self.name)
        r.cells = dict(self.cells); r.dirty = self.dirty; r.alive = self.alive; r.flag = self.flag; r.tk = self.tk
        return r


class St:
    __slots__ = ("regs", "stack", "mem", "f", "trace", "ctx")

    def __init__(self):
        self.regs = {}; self.stack = (); self.mem = {}; self.f = Facts(); self.trace = None; self.ctx = ()

    def copy(self):
        s = St()
        s.regs = dict(self.regs); s.stack = self.stack; s.mem = self.mem; s.f = self.f; s.trace = self.trace; s.ctx = self.ctx
        return s

    def put(self, b, r):
        self.mem = dict(self.mem); self.mem[b] = r

    def drop(self, b):
        if b in self.mem:
            self.mem = dict(self.mem); del self.mem[b]


class Fn(tuple):
    pass


def is_region_atom(i):
    return ATOMS[i].kind in ("alloca", "heap", "glob", "fn", "obj")


def wide(v):
    return v.n or bool(v.t)


class Engine:
    def __init__(self, mods, driver, opts=None):
        """mods: list of library modules; driver: module whose definitions take precedence"""
        self.mods = list(mods); self.driver = driver
        self.jhead = {}
        self.opts = {"nmem": 1, "mem": True, "assert": False, "volatile": "havoc", "unroll": 1, "cellcap": 0, "peel": 0, "ctx": 3, "widen": 4, "budget": 600, "malloc_null": True,
                     "leak": False, "maxstates": 400, "models": {}, "nsw": True}
        if opts: self.opts.update(opts)
        self.funcs = {}; self.globals = {}; self.dbg_parts = {}
        for m in list(mods) + [driver]:
            for f in m.funcs.values():
                if not f.internal: self.funcs[f.name] = f
            for g in m.globals.values():
                if g.defined and not g.internal: self.globals[g.name] = (m, g)
        self.driver_names = set(driver.funcs)
        self.viol = []; self.checks = {}; self.reached = {}; self.unknown_calls = {}; self.fn_seen = {}; self.calls = 0; self.loops = set()
        self.joins = 0; self.steps = 0
        self.t0 = time.time()
        self.ctxid = {}
        self.instid = {}
        self.templates = {}; self.ghost_templates = []
        self.hook = None
        self.blk_seen = set(); self.call_sites = set()
        self.guards = {}
        self.alog = {}; self.cellvals = {}; self.counters = set()
        self.in_hook = False
        self.cmem = {}
        self.notes = {}
        self.skipped = set(); self.ended = 0

    # ------------------------------------------------------------ reporting
    def loc(self, ins):
        f, l = ins.fn.mod.loc(ins.dbg)
        return "%s:%d" % (f, l)

    def where(self, st, ins):
        out = [(self.loc(ins), ins.fn.name)]
        for c in reversed(st.ctx):
            out.append((self.loc(c), c.fn.name))
        # the innermost frame that is code under analysis, not driver code
        for l, f in out:
            if "/drivers/" not in l and not l.startswith("?") and "sa/" not in l: return l, f
        return out[0]

    def report(self, st, ins, rule, msg):
        loc, fn = self.where(st, ins)
        frames = ["%s (%s)" % (self.loc(ins), ins.fn.name)] + ["%s (%s)" % (self.loc(c), c.fn.name) for c in reversed(st.ctx)]
        path = []
        t = st.trace
        while t is not None and len(path) < 60:
            path.append(t[0]); t = t[1]
        self.viol.append({"rule": rule, "loc": loc, "function": fn, "msg": msg, "frames": frames, "path": list(reversed(path))})

    def note_step(self, st, ins, txt=None):
        l = self.loc(ins)
        e = l + (" " + txt if txt else "")
        if st.trace is not None and st.trace[0] == e: return
        st.trace = (e, st.trace)

    # ------------------------------------------------------------ values
    def region_atom(self, kind, key, name):
        a = term(kind, (key,), 1 << 12, (1 << 62), True)
        if a.name is None: a.name = name
        return a

    def iid(self, ins):
        k = id(ins)
        r = self.instid.get(k)
        if r is None:
            r = len(self.instid); self.instid[k] = r; setattr(self, "_keep", getattr(self, "_keep", []) + [ins]) if False else None
        return r

    def ctx_key(self, st, ins, depth=None):
        k = tuple(self.iid(c) for c in (st.ctx if depth is None else st.ctx[-depth:])) + (self.iid(ins),)
        r = self.ctxid.get(k)
        if r is None: r = self.ctxid[k] = len(self.ctxid)
        return r

    def gname(self, mod, name):
        """module-qualified key of a global"""
        g = mod.globals.get(name)
        if g is not None and g.internal: return mod.name + ":" + name
        if name in self.globals:
            m, gg = self.globals[name]
            return name
        return name

    def find_func(self, mod, name):
        f = self.driver.funcs.get(name)
        if f is not None: return f
        f = mod.funcs.get(name)
        if f is not None: return f
        return self.funcs.get(name)

    def glob(self, st, mod, name):
        f = self.find_func(mod, name)
        if f is not None or name in mod.decls:
            key = f if f is not None else name
            a = self.region_atom("fn", ("fn", f.mod.name if f is not None and f.internal else "", name), "&" + name)
            self.notes.setdefault("fnatom", {})[a.id] = (f, name)
            return A(a)
        key = self.gname(mod, name)
        a = self.region_atom("glob", key, "&" + name)
        if a.id not in st.mem and a.id not in self.cmem:
            g = mod.globals.get(name)
            m = mod
            if g is None or not g.defined:
                if name in self.globals: m, g = self.globals[name]
            if g is None or not g.defined:
                r = Reg(None, ("undef",), "glob", name)
            else:
                r = Reg(K(m.sizeof(g.ty)), ("zero",), "glob", name)
                self.init_global(st, r, m, g.ty, g.init, 0)
                if g.const and g.init and g.init[0] == "s": r.flag = ("str", g.init[1])
            if g is not None and g.defined and g.const: self.cmem[a.id] = r
            else: st.put(a.id, r)
        return A(a)

    def init_global(self, st, r, m, ty, init, off):
        if init is None or init[0] in ("z", "u"): return
        if ty.k == "named": ty = m.types[ty.name]
        if init[0] == "s":
            b = decode_cstr(init[1]); r.flag = ("str", init[1]) if off == 0 else r.flag
            r.cells[("bytes", off)] = b if False else None
            del r.cells[("bytes", off)]
            if len(b) <= 300:
                for i, c in enumerate(b): r.cells[off + i] = (1, K(c))
            else: r.base = ("undef",)
            return
        if init[0] == "agg":
            if ty.k == "arr":
                s = m.sizeof(ty.elems)
                if len(init[1]) > 600:
                    r.base = ("undef",); return
                for i, (t, o) in enumerate(init[1]): self.init_global(st, r, m, t, o, off + i * s)
            else:
                for (fo, t), (t2, o) in zip(m.fields(ty), init[1]): self.init_global(st, r, m, t2, o, off + fo)
            return
        if init[0] == "c":
            r.cells[off] = (m.sizeof(ty), K(init[1])); return
        if init[0] == "g":
            r.cells[off] = (8, self.glob(st, m, init[1])); return
        if init[0] == "ge":
            r.cells[off] = (8, self.glob(st, m, init[1][1]) + init[2]); return

    def op(self, st, ins, o, ty=None):
        k = o[0]
        if k == "r":
            v = st.regs.get(o[1])
            if v is None: raise AnalysisError("undefined register %s at %s in %s" % (o[1], self.loc(ins), ins.fn.name))
            return v
        if k == "c": return Lin(o[1])
        if k == "g": return self.glob(st, ins.fn.mod, o[1])
        if k == "ge": return self.op(st, ins, o[1]) + o[2]
        if k == "z":
            if ty is not None and ty.k in ("struct", "named", "arr"): return self.zero_agg(ins.fn.mod, ty)
            return ZERO
        if k == "u":
            if ty is not None and ty.k in ("struct", "named", "arr"): return self.zero_agg(ins.fn.mod, ty, True)
            return self.fresh_ty(ty, "undef")
        if k == "f": return var("float")
        if k == "md": return ZERO
        if k == "agg": return ("agg", [self.op(st, ins, x, t) for t, x in o[1]])
        raise AnalysisError("operand %r" % (o,))

    def zero_agg(self, m, ty, undef=False):
        if ty.k == "named": ty = m.types[ty.name]
        if ty.k == "struct": return ("agg", [self.zero_agg(m, t, undef) for t in ty.elems])
        if ty.k == "arr": return ("agg", [self.zero_agg(m, ty.elems, undef) for _ in range(ty.n)])
        return self.fresh_ty(ty, "undef") if undef else ZERO

    def fresh_ty(self, ty, name="v"):
        if ty is None: return var(name)
        if ty.k == "ptr": return var(name, 0, (1 << 63) - 1, ptr=True)
        if ty.k == "int": return var(name, 0, (1 << ty.n) - 1)
        if ty.k in ("struct", "named", "arr"): return None
        return var(name)

    def fresh_agg(self, m, ty, name):
        if ty.k == "named": ty = m.types[ty.name]
        if ty.k == "struct": return ("agg", [self.fresh_agg(m, t, name) for t in ty.elems])
        if ty.k == "arr": return ("agg", [self.fresh_agg(m, ty.elems, name) for _ in range(ty.n)])
        return self.fresh_ty(ty, name)

    # modular normalisation: lists of (state, value)
    def as_u(self, st, v, n):
        if not v.t:
            return [(st, Lin(v.c % (1 << n), (), v.n))]
        lo, hi = st.f.interval(v)
        N = 1 << n
        if lo >= 0 and hi < N: return [(st, v)]
        if n >= 64 and hi >= INF // 4 and lo >= 0:
            return [(st, v)]
        return self._wrap(st, v, lo, hi, 0, N)

    def as_s(self, st, v, n):
        H = 1 << (n - 1); N = 1 << n
        if not v.t:
            c = (v.c + H) % N - H
            return [(st, Lin(c, (), v.n))]
        lo, hi = st.f.interval(v)
        if lo >= -H and hi < H: return [(st, v)]
        if n >= 64 and (hi >= INF // 4 or lo <= -INF // 4): return [(st, v)]
        return self._wrap(st, v, lo, hi, -H, N)

    def _wrap(self, st, v, lo, hi, base, N):
        k0 = (lo - base) // N; k1 = (hi - base) // N
        if k1 - k0 > 3:
            # use the relational facts to narrow
            if st.f.le0(Lin(base) - v): lo = max(lo, base)
            elif st.f.le0(Lin(base - N) - v): lo = max(lo, base - N)
            if st.f.le0(v - (base + N - 1)): hi = min(hi, base + N - 1)
            elif st.f.le0(v - (base + 2 * N - 1)): hi = min(hi, base + 2 * N - 1)
            k0 = (lo - base) // N; k1 = (hi - base) // N
            if k0 == k1 == 0: return [(st, v)]
        if k1 - k0 > 3:
            w = A(term("wrap", (Lin(v.c, v.t), base, N), base, base + N - 1))
            return [(st, w)]
        out = []
        for k in range(k0, k1 + 1):
            w = v - k * N
            f = st.f.copy()
            try:
                if k > k0 or lo < base + k * N: f.add_le(Lin(base) - w)
                if k < k1 or hi >= base + (k + 1) * N: f.add_le(w - (base + N - 1))
            except Infeasible:
                continue
            if k1 == k0: s = st
            else: s = st.copy()
            s.f = f
            out.append((s, Lin(w.c, w.t, True)))
        return out

    def cases(self, st, conds):
        """fork: conds is a list of (kind, lin, payload) -> [(state, payload)] for the feasible ones"""
        out = []
        for kind, l, p in conds:
            f = st.f.assume(kind, l)
            if f is not None: out.append((f, p))
        res = []
        for i, (f, p) in enumerate(out):
            s = st if i == len(out) - 1 else st.copy()
            res.append((s, f, p))
        for s, f, p in res: s.f = f
        return [(s, p) for s, f, p in res]

    # ------------------------------------------------------------ pointers and memory
    def split_ptr(self, p):
        """(base atom id or None, offset Lin)"""
        base = None
        for i, k in p.t:
            if ATOMS[i].ptr:
                if k != 1 or base is not None: return None, p
                base = i
        if base is None: return None, p
        return base, Lin(p.c, tuple((i, k) for i, k in p.t if i != base), p.n)

    def deref(self, st, ins, p, size, write):
        """resolve a pointer for an access of `size` bytes (int or Lin). Returns (base, off) or None (path ends)."""
        p = st.f.norm(p)
        b, off = self.split_ptr(p)
        if b is None:
            if not p.t and 0 <= p.c < 4096:
                if self.opts["mem"]: self.report(st, ins, "null-dereference", "%s through a NULL pointer" % ("store" if write else "load"))
                return None
            return ("?", off)
        r = st.mem.get(b)
        if r is None: r = self.cmem.get(b)
        if r is None:
            k = ATOMS[b].kind
            if k == "alloca":
                if self.opts["mem"]: self.report(st, ins, "dangling-stack", "access to %s after its function returned" % ATOMS[b].name)
                return None
            if k == "heap":
                if self.opts["mem"]: self.report(st, ins, "use-after-free", "access to freed memory %s" % ATOMS[b].name)
                return None
            if k == "fn": return ("?", off)
            # a pointer of unknown provenance: may be NULL
            if st.f.interval(p)[0] < 1:
                f = st.f.assume("eq", p)
                if f is not None and self.opts["mem"] and self.opts.get("null_strict"):
                    self.report(st, ins, "null-dereference", "%s through %s, which may be NULL" % ("store" if write else "load", dom.show_atom(b)))
                f = st.f.assume("le", Lin(1) - A(ATOMS[b]))
                if f is None: return None
                st.f = f
            r = Reg(None, ("ld", 0), "ext", ATOMS[b].name or "?")
            st.put(b, r)
        if not r.alive:
            if self.opts["mem"]: self.report(st, ins, "use-after-free", "access to freed memory %s" % (r.name,))
            return None
        if r.flag and r.flag[0] == "guard": self.check_guard(st, ins, r, write)
        if r.size is not None and self.opts["mem"]:
            sz = size if isinstance(size, Lin) else Lin(size)
            if not (st.f.le0(-off) and st.f.le0(off + sz - r.size)):
                self.report(st, ins, "out-of-bounds", "%s of %s byte(s) at offset %s of %s (size %s) is not provably inside it" % (
                    "store" if write else "load", show(sz), show(st.f.norm(off)), r.name, show(st.f.norm(r.size))))
                f = st.f.copy()
                try:
                    f.add_le(-off); f.add_le(off + sz - r.size)
                except Infeasible:
                    return None
                st.f = f
        if r.name and r.name[0] == "#": self.record(st, ins, r, off, size, write)
        return b, off

    def ghost(self, st, name, at=0):
        """the literal value of a static of the driver, or None"""
        self.glob(st, self.driver, name)
        r = st.mem.get(self.region_atom("glob", self.gname(self.driver, name), "&" + name).id)
        if r is None: return None
        c = r.cells.get(at)
        if c is None: return 0 if r.base[0] == "zero" else None
        v = st.f.norm(c[1]) if c[1] is not None else None
        return v.c if v is not None and v.const else None

    def record(self, st, ins, r, off, size, write):
        """logs an access of the code under analysis to a tagged object: which bytes, how, in which role and under which locks"""
        if self.in_hook or "/drivers/" in self.loc(ins): return
        role = self.ghost(st, "phase")
        if role == 0: return
        off = st.f.norm(off) if isinstance(off, Lin) else K(off)
        o = off.c if off.const else None
        if isinstance(size, Lin): size = st.f.norm(size).c if st.f.norm(size).const else None
        locks = tuple(k for k in range(4) if self.ghost(st, "mx_held", k) == 1)
        plain = not ("volatile" in ins.flags or "atomic" in ins.flags or ins.op in ("cmpxchg", "atomicrmw"))
        k = (int(r.name[1:].split()[0]), o, size, bool(write), plain, locks, role, ins.fn.name, self.loc(ins))
        self.alog[k] = self.alog.get(k, 0) + 1

    def m___sa_tag(self, st, ins, av):
        b, off = self.split_ptr(st.f.norm(av[0])); n = st.f.norm(av[1])
        r = st.mem[b].copy(); r.name = "#%d allocated by fstrm_iothr_init" % (n.c if n.const else 0); st.put(b, r)
        return [st]

    def check_guard(self, st, ins, r, write):
        gptr = r.flag[1]
        b, off = self.split_ptr(gptr)
        gr = st.mem.get(b)
        c = gr.cells.get(off.c) if gr else None
        v = c[1] if c else ZERO
        if self.in_hook: return
        if "/drivers/" in self.loc(ins): return
        if not (v.const and v.c != 0):
            self.report(st, ins, r.flag[2], "%s of shared %s while its lock is not held" % ("write" if write else "read", r.name))
        else:
            self.count(r.flag[2], self.loc(ins))

    def count(self, rule, site):
        self.checks.setdefault(rule, {}); d = self.checks[rule]; d[site] = d.get(site, 0) + 1

    def rel(self, f, k1, s1, k2, s2):
        """relation of [k1,k1+s1) and [k2,k2+s2): 'same' start and size, 'disjoint', 'cover' (1 covers 2), 'maybe'"""
        if isinstance(k1, int) and isinstance(k2, int) and isinstance(s1, int) and isinstance(s2, int):
            if k1 == k2 and s1 == s2: return "same"
            if k1 + s1 <= k2 or k2 + s2 <= k1: return "disjoint"
            if k1 <= k2 and k2 + s2 <= k1 + s1: return "cover"
            return "overlap"
        a = Lin(k1) if isinstance(k1, int) else k1
        b = Lin(k2) if isinstance(k2, int) else k2
        n1 = Lin(s1) if isinstance(s1, int) else s1
        n2 = Lin(s2) if isinstance(s2, int) else s2
        d = f.norm(b - a)
        if isinstance(s1, int) and isinstance(s2, int):
            if d.const:
                if d.c == 0 and s1 == s2: return "same"
                if d.c >= s1 or d.c + s2 <= 0: return "disjoint"
                if d.c >= 0 and d.c + s2 <= s1: return "cover"
                return "overlap"
            g = 0
            for _, k in d.t: g = gcd(g, k)
            m = d.c % g
            # d is congruent to m modulo g
            if m >= s1 and m + s2 <= g: return "disjoint"
            if s1 == s2 and f.eq0(d): return "same"
        if f.le0(n1 - d) or f.le0(d + n2): return "disjoint"
        if f.le0(-d) and f.le0(d + n2 - n1): return "cover"
        return "maybe"

    def kill(self, st, r, off, size, ins):
        """remove (a copy of) r's cells that may overlap [off, off+size); extends dirty for what is lost"""
        key = off.c if off.const else off
        for k in list(r.cells):
            s, v = r.cells[k]
            x = self.rel(st.f, key, size, k, s)
            if x == "disjoint": continue
            if x in ("same", "cover"):
                del r.cells[k]; continue
            del r.cells[k]
            self.dirty(st, r, k, s)

    def dirty(self, st, r, off, size):
        off = Lin(off) if isinstance(off, int) else off
        end = off + (Lin(size) if isinstance(size, int) else size)
        if r.dirty is None: r.dirty = (off, end); return
        lo, hi = r.dirty
        if lo is not None:
            if st.f.le0(lo - off): pass
            elif st.f.le0(off - lo): lo = off
            else: lo = None
        if hi is not None:
            if st.f.le0(end - hi): pass
            elif st.f.le0(hi - end): hi = end
            else: hi = None
        r.dirty = (lo, hi)

    def clean(self, st, r, off, size):
        if r.dirty is None: return True
        lo, hi = r.dirty
        if hi is not None and st.f.le0(hi - off): return True
        if lo is not None and st.f.le0(off + size - lo): return True
        return False

    def store(self, st, ins, p, size, v):
        """-> list of states"""
        d = self.deref(st, ins, p, size, True)
        if d is None: return []
        b, off = d
        if b == "?": return [st]
        if b not in st.mem:
            self.report(st, ins, "write-to-constant", "store into a constant object"); return []
        r = st.mem[b]
        off = st.f.norm(off)
        key = off.c if off.const else off
        if key not in r.cells:
            for k, (s, w) in r.cells.items():
                if not isinstance(s, int) or not self.important(r, k, w): continue
                if self.rel(st.f, key, size, k, s) != "maybe": continue
                # may or may not hit the tracked cell: decide by cases
                kk = lin(k); out = []
                cs = []
                if s == size: cs.append(st.f.assume("eq", off - kk))
                cs.append(st.f.assume("le", off + size - kk)); cs.append(st.f.assume("le", kk + s - off))
                g = 0
                for _, c in (off - kk).t: g = gcd(g, c)
                if not (s == size and g >= size and (off.c - kk.c) % g == 0): continue      # may overlap partially
                for f in cs:
                    if f is not None:
                        s2 = st.copy(); s2.f = f; out += self.store(s2, ins, p, size, v)
                return out
        r = r.copy()
        self.kill(st, r, off, size, ins)
        r.cells[off.c if off.const else Lin(off.c, off.t)] = (size, v)
        st.put(b, r)
        return [st]

    def load(self, st, ins, p, ty, size):
        """-> list of (state, value)"""
        d = self.deref(st, ins, p, size, False)
        if d is None: return []
        b, off = d
        isptr = ty.k == "ptr"
        if b == "?": return [(st, self.fresh_ty(ty, "mem"))]
        r = st.mem.get(b) or self.cmem[b]
        off = st.f.norm(off)
        key = off.c if off.const else off
        c = r.cells.get(key)
        if c is not None and c[0] == size: return [(st, c[1])]
        amb = []
        for k in r.cells:
            s, v = r.cells[k]
            x = self.rel(st.f, k, s, key, size)
            if x == "disjoint": continue
            if x == "same": return [(st, v)]
            if x == "cover" and isinstance(v, tuple) and v[0] == "blk":
                return [(st, ld(v[1], v[2] + (off - (Lin(k) if isinstance(k, int) else k)), size, v[3], isptr))]
            if x == "cover" and isinstance(v, Lin) and v.const and isinstance(k, int) and isinstance(key, int):
                sh = 8 * (key - k)
                return [(st, K((v.c >> sh) % (1 << (8 * size))))]
            if x == "cover" and isinstance(v, Lin) and isinstance(k, int) and isinstance(key, int) and isinstance(s, int) and size == 1 and s in (2, 4, 8) \
               and not any(ATOMS[i].ptr for i, _ in v.t) and st.f.interval(v)[0] >= 0:
                return [(st, self.byteof(st.f, v, key - k, s))]
            if x == "cover" and isinstance(v, Lin) and isinstance(k, int) and isinstance(key, int) and key == k and isinstance(s, int):
                return [(st, v)] if not isptr else [(st, self.fresh_ty(ty, "part"))]
            amb.append((k, s, v, x))
        if amb:
            # a tracked (important) cell is worth a case split
            for k, s, v, x in amb:
                if x == "maybe" and s == size and self.important(r, k, v) and isinstance(s, int):
                    kk = Lin(k) if isinstance(k, int) else k
                    out = []
                    f = st.f.assume("eq", off - kk)
                    if f is not None:
                        s1 = st.copy(); s1.f = f; out.append((s1, v))
                    rest = []
                    f = st.f.assume("le", off + size - kk)
                    if f is not None: s2 = st.copy(); s2.f = f; rest.append(s2)
                    f = st.f.assume("le", kk + size - off)
                    if f is not None: s2 = st.copy(); s2.f = f; rest.append(s2)
                    for s2 in rest: out += self.load(s2, ins, p, ty, size)
                    return out
            if isinstance(key, int) and not any(x in ("maybe",) for _, _, _, x in amb) and size <= 8:
                w = self.assemble(r, key, size, st.f)
                if w is not None: return [(st, w)]
            return [(st, self.fresh_ty(ty, r.name or "mem"))]
        if r.base[0] == "zero" and self.clean(st, r, off, size): return [(st, ZERO)]
        if r.base[0] == "ld" and self.clean(st, r, off, size):
            return [(st, ld(r.base[2] if len(r.base) > 2 else b, Lin(off.c, off.t), size, r.base[1], isptr))]
        v = self.fresh_ty(ty, "%s+%s" % (r.name, show(off)))
        # remember what was read so that reading again gives the same value
        r = r.copy(); r.cells[off.c if off.const else Lin(off.c, off.t)] = (size, v); st.put(b, r)
        return [(st, v)]

    def byteof(self, f, v, k, size):
        """byte k of the value v of `size` bytes"""
        v = f.norm(v)
        if v.const: return K((v.c >> (8 * k)) % 256)
        lo, hi = f.interval(v)
        if 0 <= lo and hi < 256: return v if k == 0 else ZERO
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            a = ATOMS[v.t[0][0]]
            if a.kind == "bswap" and a.args[1] == 8 * size: return self.byteof(f, a.args[0], size - 1 - k, size)
        return A(term("byte", (Lin(v.c, v.t), k), 0, 255))

    def rebyte(self, f, v, n):
        """v, or the value whose bytes it is the sum of"""
        if v.c != 0 or len(v.t) != n // 8: return v
        src = None; at = {}
        if all(ATOMS[i].kind == "ld" and ATOMS[i].args[2] == 1 and c > 0 for i, c in v.t):
            # bytes of memory in a row
            by = {c: ATOMS[i].args for i, c in v.t}
            if any(256 ** b not in by for b in range(n // 8)): return v
            a0 = by[1]
            if any(x[0] != a0[0] or x[3] != a0[3] for x in by.values()): return v
            for sg in (1, -1):
                if all(f.norm(by[256 ** b][1] - a0[1]) == K(sg * b) for b in range(n // 8)):
                    w = ld(a0[0], a0[1] if sg == 1 else by[256 ** (n // 8 - 1)][1], n // 8, a0[3], False)
                    return w if sg == 1 else bswap(w, n)
            return v
        for i, c in v.t:
            a = ATOMS[i]
            if a.kind != "byte" or c <= 0: return v
            if src is None: src = a.args[0]
            elif src != a.args[0]: return v
            at[c] = a.args[1]
        for b in range(n // 8):
            if 256 ** b not in at: return v
        lo, hi = f.interval(src)
        if lo < 0 or hi >= 1 << n: return v
        if all(at[256 ** b] == b for b in range(n // 8)): return src
        if all(at[256 ** b] == n // 8 - 1 - b for b in range(n // 8)): return bswap(src, n)
        return v

    def assemble(self, r, key, size, f):
        w = self._assemble(r, key, size)
        if w is not None: return w
        parts = []
        for i in range(size):
            c = r.cells.get(key + i)
            if c is None or c[0] != 1 or not isinstance(c[1], Lin): return None
            p = f.norm(c[1])
            lo, hi = f.interval(p)
            if lo < 0 or hi > 255:
                # the low byte of a value
                if len(p.t) == 1 and p.c == 0 and p.t[0][1] == 1: p = None
                else: return None
            parts.append(p)
        low = [i for i, p in enumerate(parts) if p is None]
        if len(low) > 1: return None
        if low:
            # the other bytes tell which value it is: v - 256 * (v >> 8)
            i = low[0]; v = f.norm(r.cells[key + i][1])
            q = var("byte", 0, 255)
            parts[i] = q
        for rev in (True, False):
            t = ZERO
            for i, p in enumerate(parts): t = t + p.scale(256 ** (size - 1 - i if rev else i))
            t = f.norm(t)
            if low:
                # everything but the low byte: 256 * (v >> 8)
                if low[0] != (size - 1 if rev else 0): continue
                t = t - q
                k = [(i, c) for i, c in t.t]
                if len(k) != 1 or t.c or k[0][1] != 256: continue
                a = ATOMS[k[0][0]]
                if a.kind == "shr" and a.args[1] == 8 and f.norm(a.args[0]) == v or a.kind == "div" and a.args[1] == 256 and f.norm(a.args[0]) == v: t = v
                else: continue
            if t.const or len(t.t) == 1 and t.c == 0 and t.t[0][1] == 1: return bswap(t, 8 * size) if rev else t
        return None

    def _assemble(self, r, key, size):
        """a multi-byte load from byte cells holding a value's bytes"""
        parts = []
        for i in range(size):
            c = r.cells.get(key + i)
            if c is None or c[0] != 1: 
                return None
            parts.append(c[1])
        if all(p.const for p in parts):
            return K(sum((p.c % 256) << (8 * i) for i, p in enumerate(parts)))
        idx = []
        src = None
        for p in parts:
            if p.c != 0 or len(p.t) != 1 or p.t[0][1] != 1: return None
            a = ATOMS[p.t[0][0]]
            if a.kind != "byte": return None
            if src is None: src = a.args[0]
            elif src != a.args[0]: return None
            idx.append(a.args[1])
        if idx == list(range(size)): return src
        if idx == list(range(size - 1, -1, -1)): return bswap(src, 8 * size)
        return None

    def important(self, r, k, v):
        if k in r.tk: return True
        return isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and ATOMS[v.t[0][0]].track and ATOMS[v.t[0][0]].ptr

    def havoc_region(self, st, b, why):
        r = st.mem.get(b)
        if r is None: return
        r = r.copy(); r.cells = {}; r.base = ("undef",); r.dirty = None; st.put(b, r)

    def alloc(self, st, ins, size, base, kind="heap", name=None):
        k = 0
        ck = self.ctx_key(st, ins, self.opts["ctx"])
        while True:
            a = self.region_atom(kind, (ck, k), name or "%s@%s%s" % (kind, self.loc(ins), "'" * k))
            if a.id not in st.mem: break
            if not st.mem[a.id].alive:
                self.collect_regions(st)
                if a.id not in st.mem: break
            k += 1
            if k > 64: raise AnalysisError("more than 64 live allocations from one site: %s" % self.loc(ins))
        r = Reg(size, base, kind, a.name)
        st.put(a.id, r)
        return A(a)

    def free(self, st, ins, p):
        """-> bool continue"""
        p = st.f.norm(p)
        b, off = self.split_ptr(p)
        if b is None:
            return True
        r = st.mem.get(b)
        if r is None:
            if ATOMS[b].kind == "heap" and self.opts["mem"]:
                self.report(st, ins, "double-free", "free of already freed %s" % ATOMS[b].name)
                return False
            return True
        if r.kind not in ("heap", "ext"):
            if self.opts["mem"]: self.report(st, ins, "bad-free", "free of %s, which is not a heap allocation" % r.name)
            return False
        if not r.alive:
            if self.opts["mem"]: self.report(st, ins, "double-free", "%s is freed twice" % r.name)
            return False
        if not (off.const and off.c == 0) and not st.f.eq0(off):
            if self.opts["mem"]: self.report(st, ins, "bad-free", "free of the inside of %s" % r.name)
            return False
        if r.flag and r.flag[0] == "guard": self.check_guard(st, ins, r, True)
        if r.name and r.name[0] == "#": self.record(st, ins, r, ZERO, None, True)
        r = r.copy(); r.alive = False; r.cells = {}; r.base = ("undef",)
        st.put(b, r)
        return True

    def memcpy(self, st, ins, dst, src, n, nz=False):
        n = st.f.norm(n)
        if n.const and n.c == 0: return [st]
        if not nz and not n.const and st.f.interval(n)[0] < 1:
            # zero-length copies touch nothing
            out = []
            f = st.f.assume("eq", n)
            if f is not None:
                s0 = st.copy(); s0.f = f; out.append(s0)
            f = st.f.assume("le", Lin(1) - n)
            if f is not None:
                st.f = f; out += self.memcpy(st, ins, dst, src, n, True)
            return out
        size = n.c if n.const else n
        d = self.deref(st, ins, src, size, False)
        if d is None: return []
        sb, so = d
        d = self.deref(st, ins, dst, size, True)
        if d is None: return []
        db, do = d
        if db == "?": return [st]
        so = st.f.norm(so); do = st.f.norm(do)
        new = {}
        exact = False
        sr = (st.mem.get(sb) or self.cmem.get(sb)) if sb != "?" else None
        unknown = True
        if sr is not None:
            unknown = False
            skey = so.c if so.const else so
            for k, (s, v) in sr.cells.items():
                x = self.rel(st.f, skey, size, k, s)
                if x == "disjoint": continue
                if x in ("same", "cover"):
                    kk = Lin(k) if isinstance(k, int) else k
                    o2 = st.f.norm(do + (kk - so))
                    if isinstance(v, tuple) and v[0] == "blk": new[o2.c if o2.const else Lin(o2.c, o2.t)] = (s, v)
                    else: new[o2.c if o2.const else Lin(o2.c, o2.t)] = (s, v)
                else: unknown = True
        r = st.mem[db].copy()
        self.kill(st, r, do, size, ins)
        dkey = do.c if do.const else Lin(do.c, do.t)
        if unknown or sr is None:
            self.dirty(st, r, dkey, size)
            if r.base[0] == "zero" : pass
        else:
            if sr.base[0] == "zero" and r.base[0] == "zero" and self.clean(st, sr, so, n):
                # make sure nothing dirty remains underneath
                if not self.clean(st, r, do, n):
                    if isinstance(size, int) and size <= 256:
                        self.fill_gaps(new, dkey, size)
            elif sr.base[0] == "zero" and isinstance(size, int) and isinstance(dkey, int) and size <= 256 and self.clean(st, sr, so, n):
                self.fill_gaps(new, dkey, size)
            elif not new and sr.base[0] == "ld" and self.clean(st, sr, so, n):
                if isinstance(size, int) and size in (1, 2, 4, 8):
                    new[dkey] = (size, ld(sr.base[2] if len(sr.base) > 2 else sb, Lin(so.c, so.t), size, sr.base[1], False))
                else:
                    new[dkey] = (size, ("blk", sr.base[2] if len(sr.base) > 2 else sb, Lin(so.c, so.t), sr.base[1]))
            elif not new and sr.flag and sr.flag[0] == "opaque":
                new[dkey] = (size, ("blk", sb, Lin(so.c, so.t), sr.flag[1]))
            else:
                self.dirty(st, r, dkey, size)
        r.cells.update(new)
        st.put(db, r)
        return [st]

    def fill_gaps(self, new, dkey, size):
        if not isinstance(dkey, int): return
        pos = dkey; end = dkey + size
        ks = sorted(k for k in new if isinstance(k, int))
        for k in ks + [end]:
            while pos < k:
                w = 8 if (pos % 8 == 0 and pos + 8 <= k) else 4 if (pos % 4 == 0 and pos + 4 <= k) else 1
                new[pos] = (w, ZERO); pos += w
            if k != end: pos = max(pos, k + (new[k][0] if isinstance(new[k][0], int) else 0))

    def memset(self, st, ins, dst, c, n):
        n = st.f.norm(n)
        if n.const and n.c == 0: return [st]
        size = n.c if n.const else n
        d = self.deref(st, ins, dst, size, True)
        if d is None: return []
        b, off = d
        if b == "?": return [st]
        off = st.f.norm(off)
        r = st.mem[b].copy()
        if c.const and c.c == 0 and off.const and off.c == 0 and r.size is not None and st.f.eq0(r.size - n):
            r.cells = {}; r.base = ("zero",); r.dirty = None
            st.put(b, r); return [st]
        was_clean = r.base[0] == "zero" and c.const and c.c == 0 and self.clean(st, r, off, size)
        self.kill(st, r, off, size, ins)
        if was_clean: pass
        elif c.const and c.c == 0 and off.const and n.const and n.c <= 512:
            if r.base[0] == "zero" and r.dirty is None: pass
            else:
                new = {}; self.fill_gaps(new, off.c, n.c); r.cells.update(new)
        else:
            self.dirty(st, r, off.c if off.const else Lin(off.c, off.t), size)
        st.put(b, r)
        return [st]

    # ------------------------------------------------------------ slots, merging and joining
    def normalise(self, st):
        """apply the equalities to every value"""
        f = st.f
        if not f.sub: return
        nv = lambda v: (f.norm(v) if isinstance(v, Lin) else v)
        st.regs = {k: norm_val(v, f) for k, v in st.regs.items()}
        st.stack = tuple({k: norm_val(v, f) for k, v in d.items()} for d in st.stack)
        mem = {}
        keys = f.sub.keys()
        for b, r in st.mem.items():
            ch = False
            for k, (s, v) in r.cells.items():
                if not isinstance(k, int) or not isinstance(s, int) or touches(v, keys): ch = True; break
            if not ch and (r.size is not None and touches(r.size, keys)): ch = True
            if not ch and r.dirty: ch = True
            if ch:
                r2 = r.copy(); r2.cells = {}
                for k, (s, v) in r.cells.items():
                    if not isinstance(k, int):
                        k = f.norm(k); k = k.c if k.const else Lin(k.c, k.t)
                    if not isinstance(s, int):
                        s = f.norm(s); s = s.c if s.const else s
                    r2.cells[k] = (s, norm_val(v, f))
                if r.size is not None: r2.size = f.norm(r.size)
                if r.tk: r2.tk = tuple(fix_key(f.norm(lin(k))) for k in r.tk)
                if r.dirty: r2.dirty = tuple(None if x is None else f.norm(x) for x in r.dirty)
                mem[b] = r2
            else: mem[b] = r
        if any(b in f.sub for b in mem):
            m2 = {}
            for b, r in mem.items():
                if b in f.sub:
                    n = f.sub[b]; nb, off = self.split_ptr(n)
                    if nb is not None and nb in mem: continue      # keep the concrete one
                    if nb is not None and off.const and off.c == 0: m2[nb] = r
                    continue
                m2[b] = r
            mem = m2
        st.mem = mem

    def collect(self, st):
        """drop unreachable regions and facts about dead atoms"""
        seen = set(); todo = []
        live = set()

        def val(v, acc):
            if isinstance(v, Lin):
                for i, _ in v.t: acc.add(i)
            elif isinstance(v, tuple):
                if v[0] == "blk":
                    acc.add(v[1]); val(v[2], acc)
                else:
                    for x in v[1]: val(x, acc)
        acc = set()
        for d in (st.regs,) + st.stack:
            for v in d.values(): val(v, acc)
        for b, r in st.mem.items():
            if r.kind in ("glob", "alloca") or (r.flag and r.flag[0] == "pin"): acc.add(b)
        todo = list(acc)
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b); live.add(b)
            a = ATOMS[b]
            if a.support:
                live.update(a.support)
                for i in a.support:
                    if i not in seen: todo.append(i)
            if a.args and a.kind in ("ld", "psum") and a.args[0] not in seen: todo.append(a.args[0])
            r = st.mem.get(b)
            if r is None: continue
            c = r.clive
            if c is None:
                c = set()
                if r.size is not None: val(r.size, c)
                if r.dirty:
                    for x in r.dirty:
                        if x is not None: val(x, c)
                if r.flag and r.flag[0] in ("guard", "cstr"): val(r.flag[1], c)
                for k, (s, v) in r.cells.items():
                    if not isinstance(k, int): val(k, c)
                    if not isinstance(s, int): val(s, c)
                    val(v, c)
                r.clive = c
            for i in c:
                if i not in seen: todo.append(i)
        dead = [b for b in st.mem if b not in seen and b not in live]
        lost = []
        if dead:
            m = dict(st.mem)
            for b in dead:
                if m[b].alive and m[b].kind == "heap": lost.append(m[b])
                del m[b]
            st.mem = m
        f = st.f.copy()
        f.gc(live)
        st.f = f
        return lost

    def collect_regions(self, st):
        """forget freed regions nothing refers to any more (without touching the facts)"""
        used = set()

        def val(v):
            if isinstance(v, Lin): used.update(v.all_atoms())
            elif isinstance(v, tuple):
                if v[0] == "blk": used.add(v[1]); val(v[2])
                else:
                    for x in v[1]: val(x)
        for d in (st.regs,) + st.stack:
            for v in d.values(): val(v)
        for b, r in st.mem.items():
            for k, (s, v) in r.cells.items():
                val(v)
                if not isinstance(k, int): val(k)
            if r.flag and r.flag[0] in ("guard", "cstr"): val(r.flag[1])
        for i in list(used):
            if ATOMS[i].support: used.update(ATOMS[i].support)
        for b in [b for b, r in st.mem.items() if not r.alive and b not in used and r.kind == "heap"]: del st.mem[b]

    def tidy(self, st, ins=None):
        self.normalise(st)
        lost = self.collect(st)
        if lost and self.opts["leak"] and ins is not None:
            for r in lost: self.report(st, ins, "leak", "the last reference to %s is lost without it being freed" % r.name)

    def shape(self, st):
        """hashable description of a tidy state up to renaming of plain unknowns; plus the renaming order"""
        ren = {}
        ren_touched = [False]

        def ra(i):
            x = ren.get(i)
            if x is not None:
                ren_touched[0] = True; return x
            a = ATOMS[i]
            if a.kind in ("v", "j"):
                ren_touched[0] = True
                x = ren[i] = ("v", len(ren), a.ptr, a.track, a.lo, a.hi)
            elif a.args and a.kind not in ("alloca", "heap", "glob", "fn", "obj"):
                x = (a.kind, a.ptr) + tuple(rl(y) if isinstance(y, Lin) else (ra(y) if k == 0 and a.kind in ("ld", "psum") else y) for k, y in enumerate(a.args))
            else: x = i
            return x

        def rl(v):
            if isinstance(v, Lin):
                if not v.t: return v.c
                return (v.c,) + tuple((ra(i), k) for i, k in v.t)
            if isinstance(v, tuple):
                if v[0] == "blk": return ("blk", ra(v[1]), rl(v[2]), v[3])
                return ("agg",) + tuple(rl(x) for x in v[1])
            return v
        out = []
        for d in (st.regs,) + st.stack:
            for k in sorted(d): out.append((k, rl(d[k])))
        for b in sorted(st.mem):
            r = st.mem[b]
            if r.csh is not None:
                out.append(r.csh); continue
            n0 = len(ren)
            ren_touched[0] = False
            o = [(ra(b) if not is_region_atom(b) else b, r.alive, r.base, rl(r.size) if r.size is not None else None,
                        None if r.dirty is None else tuple(None if x is None else rl(x) for x in r.dirty), r.flag if not r.flag or r.flag[0] != "guard" else "guard")]
            ks = sorted((k for k in r.cells if isinstance(k, int)))
            for k in ks:
                s, v = r.cells[k]; o.append((k, s if isinstance(s, int) else rl(s), rl(v)))
            if len(ks) != len(r.cells):
                for k in sorted((k for k in r.cells if not isinstance(k, int)), key=lambda l: (l.c, l.t)):
                    s, v = r.cells[k]; o.append((rl(k), s if isinstance(s, int) else rl(s), rl(v)))
            o = tuple(o)
            if not ren_touched[0]:
                o = HS(o); r.csh = o
            out.append(o)
        return tuple(out), list(ren)

    def merge(self, sts, live=None, ins=None):
        """merge states of equal shape"""
        if live is not None:
            for s in sts:
                if len(s.regs) > len(live): s.regs = {k: v for k, v in s.regs.items() if k in live}
                else:
                    d = [k for k in s.regs if k not in live]
                    if d: s.regs = {k: v for k, v in s.regs.items() if k in live}
        if len(sts) == 1: return sts
        by = {}
        order = []
        for s in sts:
            self.tidy(s, ins)
            sh, ren = self.shape(s)
            e = by.get(sh)
            if e is None: by[sh] = (s, ren); order.append(sh)
            else:
                a, ra = e
                a.f = self.meet_facts(a.f, s.f, ra, ren)
        out = [by[x][0] for x in order]
        if len(out) > self.opts["maxstates"]:
            out = self.coarse(out)
        return out

    def coarse(self, sts):
        parts = {}
        for s in sts:
            k = self.partkey(s)
            if k in parts:
                _, parts[k] = self.join(parts[k], s, 9)
            else: parts[k] = s
        return list(parts.values())

    def meet_facts(self, fa, fb, ra, rb):
        """facts true in both (fb's atoms rb renamed to ra)"""
        if fa is fb: return fa
        m = {y: x for x, y in zip(ra, rb) if x != y}
        if m: fb = rename_facts(fb, m)
        if same_facts(fa, fb): return fa
        return join_facts(fa, fb, [])[0]

    # ---- loop-head join
    def partkey(self, st, n_is_const=False):
        out = []

        def cl(v):
            if isinstance(v, Lin):
                if not v.t:
                    if v.n and not n_is_const: return "x"
                    return ("c", v.c)
                b, off = self.split_ptr(v)
                tr = tuple(x for x in v.t if ATOMS[x[0]].track)
                if b is not None and is_region_atom(b): return ("p", b) + ((off.c,) if n_is_const and off.const else ()) + tr
                if tr: return ("t",) + tr
                return "x"
            return "t"
        for d in (st.regs,) + st.stack:
            out.append(tuple((k, cl(d[k])) for k in sorted(d)))
        cap = self.opts["cellcap"]
        if not self.opts["nmem"]: n_is_const = False     # results of arithmetic kept in memory do not tell loop states apart
        for b in sorted(st.mem):
            r = st.mem[b]
            if not is_region_atom(b):
                continue
            if r.cpk is not None and n_is_const in r.cpk:
                out.append(r.cpk[n_is_const]); continue
            o = [(b, r.alive, r.base[0] if r.base[0] != "ld" else r.base)]
            for k in r.cells:
                if k in r.tk or (not isinstance(k, int) and self.important(r, k, r.cells[k][1])):
                    o.append((tuple(x for x in lin(k).t if ATOMS[x[0]].track), cl(r.cells[k][1])))
            if r.size is None or not r.size.const or r.size.c > 512: pass      # array-like
            else:
                for k in sorted(k for k in r.cells if isinstance(k, int)):
                    s, v = r.cells[k]
                    if n_is_const and cap and isinstance(v, Lin) and not v.t and v.n:
                        # a counter without bound does not tell loop states apart
                        nm = (ATOMS[b].name, k)
                        if nm in self.counters: c = "x"
                        else:
                            vals = self.cellvals.setdefault((b, k), set())
                            vals.add(v.c)
                            if len(vals) > cap:
                                self.counters.add(nm)
                                raise Restart()
                            c = ("c", v.c)
                    else: c = cl(v)
                    if r.base[0] == "zero":
                        if c == ("c", 0) or (c == "x" and not self.opts["nmem"]): continue
                    elif c == "x" or c == "t": continue
                    o.append((k, c))
            o = HS(tuple(o))
            if r.cpk is None: r.cpk = {}
            r.cpk[n_is_const] = o
            out.append(o)
        return tuple(out)

    def slots(self, st):
        d = {}
        for i, fr in enumerate((st.regs,) + st.stack):
            for k, v in fr.items(): d[("r", i, k)] = v
        return d

    def join(self, a, b, n, head=None):
        """(changed, joined).  a: the accumulated state, b: the new one (same partition key)"""
        self.joins += 1
        a = a.copy(); b = b.copy()
        sa = {}; sb = {}          # slot -> value
        widthless = set()
        for i, (fa, fb) in enumerate(zip((a.regs,) + a.stack, (b.regs,) + b.stack)):
            for k in fa:
                if k in fb: sa[("r", i, k)] = fa[k]; sb[("r", i, k)] = fb[k]
        regs = []
        changed = False
        mem = {}
        # regions reached through renamable pointers are matched by identity only
        for rb in a.mem:
            if rb not in b.mem:
                changed = True; continue
            ra_, rb_ = a.mem[rb], b.mem[rb]
            r = ra_.copy(); r.cells = {}
            mem[rb] = r
            if ra_.size is not None and rb_.size is not None:
                if ra_.size != rb_.size:
                    sa[("z", rb)] = ra_.size; sb[("z", rb)] = rb_.size
            elif ra_.size is not None: r.size = None; changed = True
            if ra_.base != rb_.base:
                if r.base != ("undef",): changed = True
                r.base = ("undef",)
            # dirty intervals
            da, db = ra_.dirty, rb_.dirty
            ca = dict(ra_.cells); cb = dict(rb_.cells)
            keys = [k for k in ca if k in cb and ca[k][0] == cb[k][0]]
            lost = []
            for k in keys:
                sa[("m", rb, k)] = ca[k][1]; sb[("m", rb, k)] = cb[k][1]
            resta = {k: v for k, v in ca.items() if k not in cb or cb[k][0] != v[0]}
            restb = {k: v for k, v in cb.items() if k not in ca or ca[k][0] != v[0]}
            # constant-offset cells present on one side only: materialise from the base
            for side, rest, oth, st, rr in (("a", resta, restb, b, rb_), ("b", restb, resta, a, ra_)):
                for k in list(rest):
                    s, v = rest[k]
                    if isinstance(k, int) and isinstance(s, int) and not any(self.rel(Facts(), k, s, k2, s2) != "disjoint" if isinstance(k2, int) and isinstance(s2, int) else True for k2, (s2, _) in oth.items()):
                        base = None
                        if rr.base[0] == "zero" and self.clean(st, rr, Lin(k), s) and self.nocell(st, rr, k, s): base = ZERO
                        elif rr.base[0] == "ld" and self.clean(st, rr, Lin(k), s) and self.nocell(st, rr, k, s) and isinstance(v, Lin):
                            pb, _ = self.split_ptr(v)
                            base = ld(rr.base[2] if len(rr.base) > 2 else rb, Lin(k), s, rr.base[1], pb is not None)
                        if base is not None:
                            if side == "a": sa[("m", rb, k)] = v; sb[("m", rb, k)] = base; r.cells[k] = (s, v)
                            else: sa[("m", rb, k)] = base; sb[("m", rb, k)] = v; r.cells[k] = (s, v); changed = changed or v != base
                            keys.append(k) if side == "a" else keys.append(k)
                            del rest[k]
            # symbolic cells: pair those of equal size
            la = sorted(resta, key=lambda k: (0, k) if isinstance(k, int) else (1, k.c, k.t)); lb = sorted(restb, key=lambda k: (0, k) if isinstance(k, int) else (1, k.c, k.t))
            pairs = []
            bysz = {}
            for k in lb: bysz.setdefault(resta_sz(restb[k][0]), []).append(k)
            for k in la:
                s = resta_sz(resta[k][0])
                cand = bysz.get(s)
                if cand and sum(1 for q in la if resta_sz(resta[q][0]) == s) == len([q for q in lb if resta_sz(restb[q][0]) == s]) and s is not None:
                    # pair by alignment residue first
                    j = None
                    for q in cand:
                        if kres(q) == kres(k): j = q; break
                    if j is None: continue
                    cand.remove(j); pairs.append((k, j))
            for k, j in pairs:
                sa[("k", rb, k, j)] = lin(k); sb[("k", rb, k, j)] = lin(j)
                sa[("kv", rb, k, j)] = resta[k][1]; sb[("kv", rb, k, j)] = restb[j][1]
                del resta[k]; del restb[j]
            if resta: changed = True
            ra2 = ra_.copy(); rb2 = rb_.copy()
            for k, (s, v) in resta.items(): self.dirty(a, ra2, k, s)
            for k, (s, v) in restb.items(): self.dirty(b, rb2, k, s)
            da, db = ra2.dirty, rb2.dirty
            if da is None and db is None: r.dirty = None
            else:
                if da is None:
                    z = db[0] if db[0] is not None else (db[1] if db[1] is not None else ZERO)
                    da = (z, z); changed = True
                if db is None:
                    z = da[0] if da[0] is not None else (da[1] if da[1] is not None else ZERO)
                    db = (z, z)
                lo = hi = "s"
                if da[0] is None or db[0] is None:
                    lo = None
                    if da[0] is not None: changed = True
                else: sa[("dl", rb)] = da[0]; sb[("dl", rb)] = db[0]
                if da[1] is None or db[1] is None:
                    hi = None
                    if da[1] is not None: changed = True
                else: sa[("dh", rb)] = da[1]; sb[("dh", rb)] = db[1]
                r.dirty = (lo, hi)
            for k in keys:
                if k not in r.cells: r.cells[k] = (ca[k][0] if k in ca else cb[k][0], None)
            if pairs:
                for k, j in pairs: r.cells[("pair", k, j)] = (ca[k][0], None)
        # --- numeric part
        new = {}; basis = []; diffs = []
        for s in sa:
            x, y = sa[s], sb[s]
            if x is y: new[s] = x; continue
            if isinstance(x, Lin) and isinstance(y, Lin):
                if x == y:
                    new[s] = x if x.n or not y.n else y
                    continue
                diffs.append(s)
            elif x == y: new[s] = x
            else:
                new[s] = None      # unknown aggregate: dropped
                if x is not None: changed = True
        tmpl = list(self.templates.get(head, ())) if head is not None else []
        tmpl += self.ghost_templates
        tslots = {}; tdep = set()
        for t in tmpl:
            if t[0] in sa and isinstance(sa[t[0]], Lin) and isinstance(sb[t[0]], Lin) and t[1] in sa and t[0] not in tslots:
                tslots[t[0]] = t; tdep.add(t[1])
        # basis order: index slots of templates first, then template slots, then constants, simple
        def rank(s):
            d = sa[s] - sb[s]
            return (0 if s in tdep and s not in tslots else 1 if s in tslots else 2, not d.const, abs(d.c) if d.const else 0, len(d.t), str(s))
        diffs.sort(key=rank)
        strides = {}
        rows = []        # (echelon vector dict, combination dict over basis)
        allb = []        # (new, a, b): what the rows' combinations refer to

        def slot(s, x, y):
            """the joined value of a slot that is x on one side and y on the other"""
            if x == y: return x if x.n or not y.n else y
            d = x - y
            lam = self.solve(rows, d)
            if lam is not None:
                r = x
                for i, l in lam.items():
                    p, pa, pb = allb[i]
                    r = r + (p - pa).scale(l)
                # late joins: a relation that only refers to values nothing else holds any more would be found and lost for ever
                if n < 12 or not r.all_atoms() & {i for p, pa, pb in allb for i, _ in pa.t if ATOMS[i].kind == "j"}:
                    return Lin(r.c, r.t, True)
            bx, ox = self.split_ptr(x); by_, oy = self.split_ptr(y)
            if d.const and abs(d.c) > 1 and not (head is not None and any(abs(c) == 1 and self.jhead.get(i) == head for i, c in x.t)):
                # keep the stride: the slot is a multiple of it away from its first value
                k = abs(d.c); q = None
                for i, c in x.t:
                    if ATOMS[i].kind == "j" and abs(c) == k: q = (i, c)
                p = var("j", kind="j")
                if q is not None:
                    j = Lin(0, ((q[0], 1),)); basis.append((p, j, j - d.c // q[1])); r = (x + (p - j).scale(q[1])).num()
                else:
                    basis.append((p, ZERO, ONE)); r = (x - p.scale(d.c)).num(); strides[p.t[0][0]] = k
                d = basis[-1][1] - basis[-1][2]
            elif bx is not None and bx == by_:
                p = var("j", kind="j"); basis.append((p, ox, oy)); r = A(ATOMS[bx]) + p; self.jhead[p.t[0][0]] = head
            else:
                isp = bx is not None or by_ is not None
                p = var("j", kind="j", ptr=isp); basis.append((p, x, y)); r = p; self.jhead[p.t[0][0]] = head
            allb.append(basis[-1])
            rows_add(rows, d, len(allb) - 1)
            return r
        for s in diffs:
            if s in tslots:
                # slot = rest + sum of prefix sums at an index that follows another slot
                t = tslots[s]; nq = new.get(t[1], sa[t[1]] if sa[t[1]] == sb[t[1]] else None)
                if nq is not None:
                    va, vb, vn = self.tsum(t, sa[t[1]]), self.tsum(t, sb[t[1]]), self.tsum(t, nq)
                    if va is not None and vb is not None and vn is not None:
                        if va != vb:
                            allb.append((vn, va, vb)); rows_add(rows, a.f.norm(va) - b.f.norm(vb), len(allb) - 1)
                        r = slot(s, a.f.norm(sa[s] - va), b.f.norm(sb[s] - vb))
                        new[s] = (r + vn).num(); continue
            new[s] = slot(s, sa[s], sb[s])
        # --- facts
        fa = a.f.copy(); fb = b.f.copy()
        fa.sub = dict(fa.sub); fb.sub = dict(fb.sub)
        for p, pa, pb in basis:
            i = p.t[0][0]
            fa.sub[i] = fa.norm(pa); fb.sub[i] = fb.norm(pb)
        fa._fresh(); fb._fresh()
        f, kept_all = join_facts(fa, fb, basis, widen=(n >= self.opts["widen"]), names=True, base=a.f, strides=strides)
        # --- rebuild
        st = a
        st.regs = {k: new[("r", 0, k)] for k in a.regs if new.get(("r", 0, k)) is not None}
        st.stack = tuple({k: new[("r", i + 1, k)] for k in fr if new.get(("r", i + 1, k)) is not None} for i, fr in enumerate(a.stack))
        for rb, r in mem.items():
            cells = {}
            for k, (s, v) in r.cells.items():
                if isinstance(k, tuple) and k[0] == "pair":
                    kk = new[("k", rb, k[1], k[2])]; vv = new[("kv", rb, k[1], k[2])]
                    kk = kk.c if kk.const else Lin(kk.c, kk.t)
                    if vv is not None: cells[kk] = (s, vv)
                    continue
                vv = new.get(("m", rb, k))
                if vv is not None: cells[k] = (s, vv)
            r.cells = cells
            if ("z", rb) in new: r.size = new[("z", rb)]
            if r.dirty is not None:
                r.dirty = (None if r.dirty[0] is None else new[("dl", rb)], None if r.dirty[1] is None else new[("dh", rb)])
        st.mem = mem
        st.f = f
        if not changed:
            # isomorphic to a?
            used = set()
            for p, pa, pb in basis:
                if len(pa.t) != 1 or abs(pa.t[0][1]) != 1: changed = True; break
                x = pa.t[0][0]
                if x in used or ATOMS[x].kind not in ("j", "v"): changed = True; break
                used.add(x)
            if not changed:
                live = set()
                for v in new.values():
                    if isinstance(v, Lin): live |= v.all_atoms()
                if used & live: changed = True
            if not changed and not kept_all: changed = True
        st.trace = a.trace
        return changed, st

    def nocell(self, st, r, k, s):
        for k2, (s2, v2) in r.cells.items():
            if self.rel(st.f, k, s, k2, s2) != "disjoint": return False
        return True

    def solve(self, rows, d):
        """express d as an integer combination of the basis rows, or None"""
        v = {i: Fraction(k) for i, k in d.t}
        if d.c: v[-1] = Fraction(d.c)
        comb = {}
        for piv, row, cmb in rows:
            k = v.get(piv)
            if k:
                m = k / row[piv]
                for i, x in row.items():
                    y = v.get(i, Fraction(0)) - m * x
                    if y: v[i] = y
                    else: v.pop(i, None)
                for i, x in cmb.items(): comb[i] = comb.get(i, Fraction(0)) + m * x
        if v: return None
        out = {}
        for i, x in comb.items():
            if x.denominator != 1: return None
            if x: out[i] = int(x)
        return out

    # ------------------------------------------------------------ control
    def run_loop(self, fn, g, h, sts):
        """sts: states entering the head.  -> list of (succ, state) leaving the component"""
        comp = g.comp[h]
        live = g.live_at(h, self.first(fn, h))
        headkey = (fn.mod.name, fn.name, h)
        self.loops.add(headkey)
        ins0 = fn.blocks[h][self.first(fn, h)]
        unroll = self.opts["unroll"]
        early = []
        for rnd in range(self.opts["peel"]):
            back = []
            for s in self.merge([x.copy() for x in sts], live, ins0):
                pend = {}
                for succ, s in self.exec_block(fn, g, h, s):
                    if succ == h: back.append(s)
                    elif succ in comp: pend.setdefault(succ, []).append(s)
                    else: early.append((succ, s))
                for succ, s in self.run_region(fn, g, pend, comp, h):
                    if succ == h: back.append(s)
                    else: early.append((succ, s))
            sts = back
            if not sts: return early
        for attempt in range(6):
            parts = {}; queue = []; self.dbg_parts[headkey] = parts
            restart = False
            graph = {}; src = set()    # which partitions lead where; None: out of the loop

            def add(s):
                self.tidy(s, ins0)
                k = self.partkey(s, True)
                p = parts.get(k) if unroll > 1 else None
                if p is None:
                    if unroll > 1 and len(parts) < unroll:
                        parts[k] = [s, 0, None, [s.copy()], True]; queue.append(k); src.add(k); return
                    k = self.partkey(s)
                    p = parts.get(k)
                src.add(k)
                if p is None:
                    parts[k] = [s, 0, None, [s.copy()], False]; queue.append(k); return
                if len(p[3]) < 4: p[3].append(s.copy())
                old = p[0]
                ch, j = self.join(old, s, p[1], (headkey, st_depth(s)))
                if p[1] >= 1 and self.find_template(headkey, old, s, p[3][0], st_depth(s)): return "restart"
                if ch:
                    self.tidy(j, ins0)
                    j.trace = s.trace
                    p[0] = j; p[1] += 1
                    if p[1] > 40: raise AnalysisError("no fixpoint at loop %s of %s" % (self.loc(ins0), fn.name))
                    if k not in queue: queue.append(k)
            for s in self.merge([x.copy() for x in sts], live, ins0):
                if add(s) == "restart": restart = True; break
            while queue and not restart:
                self.check_budget()
                k = queue.pop(0)
                p = parts[k]
                saved = self.viol; self.viol = []
                res = []
                back = []
                pend = {}
                src = graph[k] = set(); ended = self.ended
                for succ, s in self.exec_block(fn, g, h, p[0].copy()):
                    if succ == h: back.append(s)
                    elif succ in comp: pend.setdefault(succ, []).append(s)
                    else: res.append((succ, s))
                for succ, s in self.run_region(fn, g, pend, comp, h):
                    if succ == h: back.append(s)
                    else: res.append((succ, s))
                p[2] = (res, self.viol); self.viol = saved
                if res or self.ended > ended or not back: src.add(None)
                if back:
                    back = self.merge(back, live, ins0)
                    for s in back:
                        if add(s) == "restart": restart = True; break
            if not restart: break
        out = early
        if fn.mod is not self.driver or (self.opts.get("subject") and re.match(self.opts["subject"], fn.name)):
            # partitions from which no execution ever leaves the loop
            leaves = {None}; n0 = 0
            while len(leaves) != n0:
                n0 = len(leaves)
                for k, ss in graph.items():
                    if ss & leaves: leaves.add(k)
            self.count("endless-loop", headkey)
            for k in graph:
                if k not in leaves and k in parts:
                    self.report(parts[k][0], ins0, "endless-loop", "in some reachable state this loop is never left"); break
        for p in parts.values():
            if p[2] is None: continue
            out += p[2][0]; self.viol += p[2][1]
        return out

    def find_template(self, headkey, inv, s1, s0, depth):
        """look for slots that are prefix sums of a region's initial content.
        inv: the invariant so far, s1: a state after one more iteration from it, s0: the first state seen"""
        key = (headkey, depth)
        have = {t[0] for t in self.templates.get(key, ())}
        va = self.all_slots(inv); vb = self.all_slots(s1); v0 = self.all_slots(s0)
        f = s1.f
        steps = None
        found = False
        for s in vb:
            if s in have or s not in va or s not in v0: continue
            if not (isinstance(va[s], Lin) and isinstance(vb[s], Lin) and isinstance(v0[s], Lin)): continue
            x = va[s]
            if not any(ATOMS[i].kind == "j" for i, _ in x.t): continue
            d = f.norm(vb[s] - x)
            if not d.t or not all(ATOMS[i].kind == "ld" and not ATOMS[i].ptr for i, _ in d.t): continue
            if steps is None:
                steps = []
                for q in vb:
                    if q in va and q in v0 and isinstance(vb[q], Lin) and isinstance(va[q], Lin) and isinstance(v0[q], Lin):
                        e = f.norm(vb[q] - va[q])
                        if e.const and e.c != 0 and any(ATOMS[i].kind == "j" for i, _ in va[q].t): steps.append((q, e.c))
            for q, k in steps:
                X = self.tview(va[q])
                j = next((i for i, _ in X.t if ATOMS[i].kind == "j"), None)
                if j is None: continue
                cj = X.coef(j)
                parts = []
                for i, c in d.t:
                    R, off, size, ver = ATOMS[i].args
                    if off.coef(j) % cj: break
                    al = off.coef(j) // cj; be = off - X.scale(al)
                    if al == 0 or not be.const: break
                    st = al * (k if k > 0 else -k)       # distance of consecutive elements
                    if st <= 0: break
                    parts.append((c if k > 0 else -c, R, ver, st, be.c % st, size, al, be.c - be.c % st))
                else:
                    if not parts or d.c: continue
                    self.templates.setdefault(key, []).append((s, q, parts)); found = True
                    break
        return found

    def tview(self, v):
        b, off = self.split_ptr(v)
        return off if b is not None else v

    def tsum(self, t, x):
        """the prefix sums of template t when its index slot is x"""
        if not isinstance(x, Lin): return None
        x = self.tview(x); r = ZERO
        for c, R, ver, st, co, size, al, be in t[2]:
            e = x.scale(al) + be
            if e.c % st or any(k % st for _, k in e.t): return None
            r = r + psum(R, ver, st, co, size, Lin(e.c // st, tuple((i, k // st) for i, k in e.t))).scale(c)
        return r

    def all_slots(self, st):
        d = self.slots(st)
        for b, r in st.mem.items():
            for k, (s, v) in r.cells.items():
                if isinstance(k, int): d[("m", b, k)] = v
        return d

    def first(self, fn, b):
        blk = fn.blocks[b]
        i = 0
        while blk[i].op == "phi": i += 1
        return i

    def run_region(self, fn, g, pend, scope, head):
        """pend: block -> states.  -> [(succ, state)] leaving scope or returning to head"""
        out = []
        while pend:
            self.check_budget()
            b = min(pend, key=lambda x: g.pos[x])
            sts = pend.pop(b)
            if b in g.heads and b != head:
                res = self.run_loop(fn, g, b, sts)
            else:
                live = g.live_at(b, self.first(fn, b))
                res = []
                for s in self.merge(sts, live, fn.blocks[b][-1]): res += self.exec_block(fn, g, b, s)
            for succ, s in res:
                if succ == "RET" or succ == head or (scope is not None and succ not in scope): out.append((succ, s))
                else: pend.setdefault(succ, []).append(s)
        return out

    def check_budget(self):
        dl = self.opts.get("deadline")
        if dl is not None and time.time() > dl(): raise Budget("the run's time is used up")
        if time.time() - self.t0 > self.opts["budget"]: raise Budget("analysis budget of %d s exceeded" % self.opts["budget"])

    def run_function(self, fn, st):
        """st.regs holds the parameters.  -> list of (state, return value)"""
        g = cfg(fn)
        self.fn_seen[fn.name] = self.fn_seen.get(fn.name, 0) + 1
        res = self.run_region(fn, g, {fn.order[0]: [st]}, None, None) if fn.order[0] not in g.heads else self.run_loop(fn, g, fn.order[0], [st])
        return [s for succ, s in res]

    def edge(self, fn, st, frm, to):
        """evaluate the phis of `to`"""
        blk = fn.blocks[to]
        if blk[0].op != "phi": return (to, st)
        vals = []
        for ins in blk:
            if ins.op != "phi": break
            for pb, v in ins.a:
                if pb == frm:
                    vals.append((ins.res, self.op(st, ins, v, ins.ty))); break
        for r, v in vals: st.regs[r] = v
        return (to, st)

    def exec_block(self, fn, g, b, st):
        self.blk_seen.add((fn.mod.name, fn.name, b))
        return self.exec_from(fn, g, b, self.first(fn, b), st)

    def exec_from(self, fn, g, b, i, st):
        blk = fn.blocks[b]; n = len(blk)
        while i < n:
            ins = blk[i]; op = ins.op
            self.steps += 1
            if op == "br": return [self.edge(fn, st, b, ins.a[0])]
            if op == "cbr":
                c = self.op(st, ins, ins.a[0])
                out = []
                for s, v in self.as_u(st, c, 1):
                    if v.const:
                        self.note_step(s, ins)
                        out.append(self.edge(fn, s, b, ins.a[1] if v.c & 1 else ins.a[2]))
                    else:
                        for s2, k in self.cases(s, [("eq", v - 1, 1), ("eq", v, 0)]):
                            self.note_step(s2, ins)
                            out.append(self.edge(fn, s2, b, ins.a[1] if k else ins.a[2]))
                return out
            if op == "switch":
                out = []
                n_ = ins.ty.n
                for s, v in self.as_u(st, self.op(st, ins, ins.a[0]), n_):
                    if v.const:
                        for cv, l in ins.a[2]:
                            if cv % (1 << n_) == v.c: out.append(self.edge(fn, s, b, l)); break
                        else: out.append(self.edge(fn, s, b, ins.a[1]))
                        continue
                    s0 = s.copy()
                    dead = False
                    for cv, l in ins.a[2]:
                        cc = cv % (1 << n_)
                        f = s.f.assume("eq", v - cc)
                        if f is not None:
                            s2 = s.copy(); s2.f = f; self.note_step(s2, ins, "case %d" % cv); out.append(self.edge(fn, s2, b, l))
                        f = s0.f.assume("ne", v - cc)
                        if f is None: dead = True; break
                        s0.f = f
                    if not dead:
                        self.note_step(s0, ins, "default"); out.append(self.edge(fn, s0, b, ins.a[1]))
                return out
            if op == "ret":
                v = None
                if ins.a[0] is not None: v = self.op(st, ins, ins.a[0], ins.ty)
                st.regs = {"%ret": v} if v is not None else {}
                return [("RET", st)]
            if op == "unreachable":
                self.ended += 1; return []
            r = self.step(st, ins, g, b, i)
            if r is None:
                i += 1; continue
            if not r:
                self.ended += 1; return []
            if len(r) == 1:
                st = r[0]; i += 1; continue
            if op == "call" and len(r) > 1:
                r = self.merge(r, g.live_at(b, i + 1), ins)
            out = []
            for s in r: out += self.exec_from(fn, g, b, i + 1, s)
            return out
        return []

    # ------------------------------------------------------------ instructions
    def step(self, st, ins, g, b, i):
        """None: done in place; otherwise list of successor states"""
        op = ins.op
        m = getattr(self, "i_" + op, None)
        if m is not None: return m(st, ins, g, b, i)
        if op in ir.BINOPS: return self.binop(st, ins)
        if op in ir.CASTS: return self.cast(st, ins)
        raise AnalysisError("instruction %s not handled" % op)

    def setv(self, pairs, res):
        out = []
        for s, v in pairs:
            s.regs[res] = v; out.append(s)
        return out

    def i_alloca(self, st, ins, g, b, i):
        m = ins.fn.mod
        sz = m.sizeof(ins.ty)
        size = K(sz)
        if ins.a[0] is not None:
            c = self.op(st, ins, ins.a[0])
            size = c.scale(sz) if c.const else A(term("mul", (Lin(c.c, c.t), sz), 0, INF)) if False else c.scale(sz)
        a = self.region_atom("alloca", self.ctx_key(st, ins), (ins.res or "%tmp")[1:])
        st.put(a.id, Reg(size, ("undef",), "alloca", "local '%s' of %s" % (a.name, ins.fn.name)))
        st.regs[ins.res] = A(a)

    def i_load(self, st, ins, g, b, i):
        r = self._load0(st, ins)
        if "atomic" in ins.flags and ("acquire" in ins.flags or "seq_cst" in ins.flags):
            out = []
            for s in ([st] if r is None else r):
                x = self.barrier(s, ins); out += [s] if x is None else x
            return out
        return r

    def _load0(self, st, ins):
        p = self.op(st, ins, ins.a[0])
        size = ins.fn.mod.sizeof(ins.ty)
        if ins.ty.k in ("struct", "named", "arr"):
            raise AnalysisError("aggregate load at " + self.loc(ins))
        pre = self.access_hook(st, ins, p, False)
        if pre is not None:
            out = []
            for s in pre: out += self.setv(self._load1(s, ins, p, size), ins.res)
            return out
        return self.setv(self._load1(st, ins, p, size), ins.res)

    def _load1(self, st, ins, p, size):
        if ("volatile" in ins.flags or "atomic" in ins.flags) and self.opts["volatile"] == "havoc":
            d = self.deref(st, ins, p, size, False)
            if d is None: return []
            return [(st, self.fresh_ty(ins.ty, "volatile"))]
        res = self.load(st, ins, p, ins.ty, size)
        return res

    def i_store(self, st, ins, g, b, i):
        if "atomic" in ins.flags and ("release" in ins.flags or "seq_cst" in ins.flags):
            x = self.barrier(st, ins)
            if x is not None:
                out = []
                for s in x:
                    y = self._store0(s, ins); out += [s] if y is None else y
                return out
        return self._store0(st, ins)

    def _store0(self, st, ins):
        v = self.op(st, ins, ins.a[0], ins.ty); p = self.op(st, ins, ins.a[1])
        size = ins.fn.mod.sizeof(ins.ty)
        if isinstance(v, tuple):
            m = ins.fn.mod
            t = ins.ty if ins.ty.k != "named" else m.types[ins.ty.name]
            sts = [st]
            if t.k == "struct": fl = m.fields(t)
            else: fl = [(j * m.sizeof(t.elems), t.elems) for j in range(t.n)]
            for (o, ft), x in zip(fl, v[1]):
                nx = []
                for s in sts: nx += self.store(s, ins, p + o, m.sizeof(ft), x)
                sts = nx
            return sts
        pre = self.access_hook(st, ins, p, True)
        if pre is not None:
            out = []
            for s in pre: out += self.store(s, ins, p, size, v)
            return out
        return self.store(st, ins, p, size, v)

    def access_hook(self, st, ins, p, write):
        """calls the driver's sa_access(kind) before accesses to watched regions"""
        if self.in_hook: return None
        b, off = self.split_ptr(st.f.norm(p))
        if b is None: return None
        r = st.mem.get(b)
        if r is None or not r.flag or r.flag[0] != "watch": return None
        if "/drivers/" in self.loc(ins): return None
        return self.call_hook(st, ins, "sa_access", [r.flag[1], A(ATOMS[b]) + off, K(1 if write else 0)])

    def call_hook(self, st, ins, name, args):
        f = self.driver.funcs.get(name)
        if f is None: return None
        self.in_hook = True
        try:
            s = st.copy()
            keep = dict(st.regs)
            s.stack = (keep,) + st.stack; s.ctx = st.ctx + (ins,)
            s.regs = {nm: a for (t, nm), a in zip(f.params, args)}
            out = []
            for s2 in self.run_function(f, s):
                s2.regs = dict(s2.stack[0]); s2.stack = s2.stack[1:]; s2.ctx = st.ctx
                out.append(s2)
            return out
        finally:
            self.in_hook = False

    def i_gep(self, st, ins, g, b, i):
        base, off, terms, et = ins.a
        p = self.op(st, ins, base) + off
        if not terms:
            st.regs[ins.res] = p if isinstance(p, Lin) else p
            return None
        pairs = [(st, p)]
        for o, s in terms:
            nx = []
            for s1, q in pairs:
                v = self.op(s1, ins, o)
                # indices are sign-extended to 64 bits already or of type i64/i32
                for s2, w in self.as_s(s1, v, 64): nx.append((s2, q + w.scale(s)))
            pairs = nx
        return self.setv(pairs, ins.res)

    def i_icmp(self, st, ins, g, b, i):
        pred, x, y = ins.a
        a = self.op(st, ins, x); c = self.op(st, ins, y)
        if ins.ty.k == "ptr": return self.ptr_cmp(st, ins, pred, a, c)
        n = ins.ty.n
        f = st.f
        if pred in ("eq", "ne"):
            d = f.norm(a - c)
            if not d.t:
                r = d.c % (1 << n) == 0
                st.regs[ins.res] = K(int(r == (pred == "eq"))); return None
            lo, hi = f.interval(d)
            N = 1 << n
            if lo > -N and hi < N or (n >= 64):
                return self.setv([(s, K(int(v == (pred == "eq")))) for s, v in self.eq_cases(st, d)], ins.res)
            prs = []
            for s1, a1 in self.as_u(st, a, n):
                for s2, c1 in self.as_u(s1, c, n): prs.append((s2, a1, c1))
            out = []
            for s, a1, c1 in prs:
                out += [(s3, K(int(v == (pred == "eq")))) for s3, v in self.cases(s, [("eq", a1 - c1, True), ("ne", a1 - c1, False)])]
            return self.setv(out, ins.res)
        conv = self.as_s if pred[0] == "s" else self.as_u
        prs = []
        for s1, a1 in conv(st, a, n):
            for s2, c1 in conv(s1, c, n): prs.append((s2, a1, c1))
        out = []
        for s, a1, c1 in prs: out += self.cmp_cases(s, pred[1:], a1, c1)
        return self.setv(out, ins.res)

    def eq_cases(self, st, d):
        at = {i for i, _ in d.t}
        for t in st.f.ineq:
            for i, _ in t:
                if ATOMS[i].kind == "psum" and not at.isdisjoint(ATOMS[i].support): return self.cases(st, [("eq", d, True), ("le", d + 1, False), ("le", Lin(1) - d, False)])
        return self.cases(st, [("eq", d, True), ("ne", d, False)])

    def cmp_cases(self, s, rel, a, c):
        d = a - c
        if rel == "lt": t, e = d + 1, -d
        elif rel == "le": t, e = d, Lin(1) - d
        elif rel == "gt": t, e = Lin(1) - d, d
        else: t, e = -d, d + 1
        return [(s2, K(v)) for s2, v in self.cases(s, [("le", t, 1), ("le", e, 0)])]

    def ptr_cmp(self, st, ins, pred, a, c):
        f = st.f
        a = f.norm(a); c = f.norm(c)
        ba, oa = self.split_ptr(a); bc, oc = self.split_ptr(c)
        if pred in ("eq", "ne"):
            t = None
            if ba is not None and bc is not None and ba != bc and is_region_atom(ba) and is_region_atom(bc): t = False
            elif ba is not None and is_region_atom(ba) and not c.t: t = False
            elif bc is not None and is_region_atom(bc) and not a.t: t = False
            if t is not None:
                st.regs[ins.res] = K(int(t == (pred == "eq"))); return None
            d = a - c
            return self.setv([(s, K(int(v == (pred == "eq")))) for s, v in self.cases(st, [("eq", d, True), ("ne", d, False)])], ins.res)
        return self.setv(self.cmp_cases(st, pred[1:], a, c), ins.res)

    def i_fcmp(self, st, ins, g, b, i):
        return self.setv([(st.copy(), K(1)), (st, K(0))], ins.res)

    def i_fneg(self, st, ins, g, b, i): st.regs[ins.res] = var("float")

    def i_freeze(self, st, ins, g, b, i): st.regs[ins.res] = self.op(st, ins, ins.a[0], ins.ty)

    def i_select(self, st, ins, g, b, i):
        c = self.op(st, ins, ins.a[0])
        out = []
        for s, v in self.as_u(st, c, 1):
            if v.const: out.append((s, self.op(s, ins, ins.a[1 if v.c else 2], ins.ty)))
            else:
                for s2, k in self.cases(s, [("eq", v - 1, 1), ("eq", v, 0)]):
                    out.append((s2, self.op(s2, ins, ins.a[1 if k else 2], ins.ty)))
        return self.setv(out, ins.res)

    def i_extractvalue(self, st, ins, g, b, i):
        v = self.op(st, ins, ins.a[0], None)
        for k in ins.a[1]: v = v[1][k]
        st.regs[ins.res] = v

    def i_insertvalue(self, st, ins, g, b, i):
        v = self.op(st, ins, ins.a[0], ins.ty); w = self.op(st, ins, ins.a[1])

        def setp(v, path):
            l = list(v[1])
            l[path[0]] = w if len(path) == 1 else setp(l[path[0]], path[1:])
            return ("agg", l)
        st.regs[ins.res] = setp(v, ins.a[2])

    def i_fence(self, st, ins, g, b, i):
        return self.barrier(st, ins)

    def barrier(self, st, ins):
        if "sa_barrier" in self.driver.funcs and not self.in_hook: return self.call_hook(st, ins, "sa_barrier", [])
        return None

    def i_cmpxchg(self, st, ins, g, b, i):
        st.regs[ins.res] = ("agg", [self.fresh_ty(ins.ty), var("ok", 0, 1)])
        p = self.op(st, ins, ins.a[0])
        return self.store(st, ins, p, ins.fn.mod.sizeof(ins.ty), self.fresh_ty(ins.ty))

    def i_atomicrmw(self, st, ins, g, b, i):
        st.regs[ins.res] = self.fresh_ty(ins.ty)
        p = self.op(st, ins, ins.a[0])
        return self.store(st, ins, p, ins.fn.mod.sizeof(ins.ty), self.fresh_ty(ins.ty))

    def i_va_arg(self, st, ins, g, b, i): st.regs[ins.res] = var("va")

    def cast(self, st, ins):
        t0, o = ins.a
        v = self.op(st, ins, o)
        op = ins.op
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            st.regs[ins.res] = v; return None
        if op == "zext": return self.setv(self.as_u(st, v, t0.n), ins.res)
        if op == "sext": return self.setv(self.as_s(st, v, t0.n), ins.res)
        if op == "trunc":
            if v.const: st.regs[ins.res] = Lin(v.c % (1 << ins.ty.n), (), v.n); return None
            if ins.ty.n == 1:
                out = []
                for s, w in self.as_u(st, v, t0.n):
                    lo, hi = s.f.interval(w)
                    if lo >= 0 and hi <= 1: out.append((s, w))
                    else:
                        out += [(s2, K(k)) for s2, k in self.trunc1(s, w)]
                return self.setv(out, ins.res)
            if ins.ty.n == 8 and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
                a = ATOMS[v.t[0][0]]
                if a.kind == "shr" and a.args[1] % 8 == 0:
                    st.regs[ins.res] = A(term("byte", (a.args[0], a.args[1] // 8), 0, 255)); return None
                if a.kind == "byte": st.regs[ins.res] = v; return None
            st.regs[ins.res] = v; return None
        st.regs[ins.res] = self.fresh_ty(ins.ty, "float") if ins.ty.k == "int" else var("float")
        return None

    def trunc1(self, s, w):
        # a byte used as a truth value: _Bool objects hold 0 or 1
        return self.cases(s, [("eq", w - 1, 1), ("eq", w, 0)])

    def binop(self, st, ins):
        op = ins.op
        a = self.op(st, ins, ins.a[0], ins.ty); c = self.op(st, ins, ins.a[1], ins.ty)
        if op[0] == "f": st.regs[ins.res] = var("float"); return None
        n = ins.ty.n
        if op == "add":
            v = a + c
            if len(v.t) > 1 and v.c == 0 and ATOMS[v.t[0][0]].kind in ("byte", "ld"): v = self.rebyte(st.f, st.f.norm(v), n)
            st.regs[ins.res] = v; return None
        if op == "sub": st.regs[ins.res] = a - c; return None
        f = st.f
        a = f.norm(a); c = f.norm(c)
        if op == "mul":
            if c.const: v = a.scale(self.sgn(c.c, n))
            elif a.const: v = c.scale(self.sgn(a.c, n))
            else:
                la, ha = f.interval(a); lc, hc = f.interval(c)
                lo, hi = (la * lc, ha * hc) if la >= 0 and lc >= 0 else (-INF, INF)
                x, y = sorted((Lin(a.c, a.t), Lin(c.c, c.t)), key=lambda l: (l.c, l.t))
                v = A(term("mul", (x, y), max(lo, -INF), min(hi, INF)))
            st.regs[ins.res] = v; return None
        if op == "shl":
            if c.const: v = a.scale(1 << c.c) if c.c < n else ZERO
            else:
                v = A(term("shl", (Lin(a.c, a.t), Lin(c.c, c.t)), 0, (1 << n) - 1))
            st.regs[ins.res] = v; return None
        if op in ("udiv", "urem", "lshr", "sdiv", "srem", "ashr"):
            if a.const and c.const:
                x = a.c % (1 << n); y = c.c % (1 << n)
                if op in ("sdiv", "srem", "ashr"): x = self.sgn(x, n); y = self.sgn(y, n) if op != "ashr" else y
                if op == "lshr" or op == "ashr": r = x >> y
                elif y == 0: return []
                elif op == "udiv": r = x // y
                elif op == "urem": r = x % y
                else:
                    q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                    r = q if op == "sdiv" else x - q * y
                st.regs[ins.res] = K(r).num(); return None
            if c.const:
                k = c.c
                if op in ("lshr", "ashr"): k = 1 << k
                if k <= 0: st.regs[ins.res] = self.fresh_ty(ins.ty); return None
                conv = self.as_u if op[0] in "ul" else self.as_s
                out = []
                for s, v in conv(st, a, n): out += self.divmod_(s, v, k, op, n)
                return self.setv(out, ins.res)
            out = []
            conv = self.as_u if op[0] in "ul" else self.as_s
            for s, v in conv(st, a, n):
                for s2, w in conv(s, c, n):
                    v_ = s2.f.norm(v); w_ = s2.f.norm(w)
                    lo, hi = s2.f.interval(v_)
                    if op in ("udiv", "lshr"):
                        out.append((s2, A(term(op, (Lin(v_.c, v_.t), Lin(w_.c, w_.t)), 0, max(hi, 0)))))
                    elif op == "urem":
                        x = A(term("urem", (Lin(v_.c, v_.t), Lin(w_.c, w_.t)), 0, max(hi, 0)))
                        f2 = s2.f.copy()
                        try:
                            f2.add_le(x - w_ + 1)
                            if f2.le0(v_ - w_ + 1): f2.add_eq(x - v_)
                        except Infeasible:
                            continue
                        s2.f = f2
                        out.append((s2, x))
                    else: out.append((s2, var(op)))
            return self.setv(out, ins.res)
        if op in ("and", "or", "xor"):
            return self.bitop(st, ins, op, a, c, n)
        raise AnalysisError("binop " + op)

    def sgn(self, c, n):
        return (c + (1 << (n - 1))) % (1 << n) - (1 << (n - 1))

    def divmod_(self, s, v, k, op, n):
        """v / k or v % k for constant k > 0"""
        if k == 1: return [(s, v if op not in ("urem", "srem") else ZERO)]
        lo, hi = s.f.interval(v)
        if op in ("sdiv", "srem") and lo < 0:
            return [(s, var(op, -(abs(lo)), max(abs(hi), abs(lo))))]
        v = s.f.norm(v)
        if all(c % k == 0 for _, c in v.t):
            q = Lin(v.c // k, tuple((i, c // k) for i, c in v.t), True)
            return [(s, q if op not in ("urem", "srem") else K(v.c % k).num())]
        if 0 <= lo and hi < k: return [(s, ZERO.num() if op not in ("urem", "srem") else v)]
        if op == "lshr" and k >= 256 and (k.bit_length() - 1) % 8 == 0:
            # keep the byte structure visible
            pass
        qt = term("shr" if op == "lshr" else "div", (Lin(v.c, v.t), k.bit_length() - 1 if op == "lshr" else k), lo // k if lo > -INF else -INF, hi // k if hi < INF else INF)
        q = A(qt)
        f = s.f.copy()
        try:
            r = v - q.scale(k)
            f.add_le(-r); f.add_le(r - (k - 1))
        except Infeasible:
            return []
        s.f = f
        return [(s, q if op not in ("urem", "srem") else r)]

    def bitop(self, st, ins, op, a, c, n):
        N = (1 << n) - 1
        if a.const and not c.const: a, c = c, a
        if a.const and c.const:
            x = a.c & N; y = c.c & N
            r = x & y if op == "and" else x | y if op == "or" else x ^ y
            st.regs[ins.res] = K(r); return None
        z = st.f.norm(a) + 1
        if c.const and not (op == "and" and z.c == 0 and len(z.t) == 1 and z.t[0][1] == 1 and ATOMS[z.t[0][0]].pow2):
            y = c.c & N
            if op == "and":
                if y == 0: st.regs[ins.res] = ZERO; return None
                if y == N: st.regs[ins.res] = a; return None
                if (y & (y + 1)) == 0:
                    out = []
                    for s, v in self.as_u(st, a, n): out += self.divmod_(s, v, y + 1, "urem", n)
                    return self.setv(out, ins.res)
            if op == "or" and y == 0 or op == "xor" and y == 0: st.regs[ins.res] = a; return None
            if op == "xor" and y == N: st.regs[ins.res] = Lin(-1) - a; return None
            if n == 1 and op == "or" and y == 1: st.regs[ins.res] = ONE; return None
        out = []
        for s, v in self.as_u(st, a, n):
            for s2, w in self.as_u(s, c, n):
                v2 = s2.f.norm(v); w2 = s2.f.norm(w)
                lv, hv = s2.f.interval(v2); lw, hw = s2.f.interval(w2)
                if lv >= 0 and hv <= 1 and lw >= 0 and hw <= 1:
                    # booleans: enumerate
                    for s3, p in self.cases(s2, [("eq", v2, 0), ("eq", v2 - 1, 1)]):
                        for s4, q in self.cases(s3, [("eq", w2, 0), ("eq", w2 - 1, 1)]):
                            r = p & q if op == "and" else p | q if op == "or" else p ^ q
                            out.append((s4, K(r)))
                    continue
                if op == "and" and w2 == v2 - 1 or op == "and" and v2 == w2 - 1:
                    # x & (x-1): zero exactly for powers of two (and zero)
                    big = v2 if w2 == v2 - 1 else w2
                    if len(big.t) == 1 and big.c == 0 and big.t[0][1] == 1 and ATOMS[big.t[0][0]].pow2:
                        out.append((s2, ZERO)); continue
                    out.append((s2, A(term("nopow2", (Lin(big.c, big.t),), 0, max(s2.f.interval(big)[1], 0))))); continue
                if op == "and" and (v2 + w2 - (1 << n)).const and (v2 + w2 - (1 << n)).c == 0 and v2.t:
                    # x & -x is the lowest bit of x: x - (x & (x-1))
                    big = v2 if len(v2.t) == 1 and v2.t[0][1] > 0 else w2
                    if len(big.t) == 1 and big.c == 0 and big.t[0][1] == 1 and ATOMS[big.t[0][0]].pow2:
                        out.append((s2, big)); continue
                    out.append((s2, big - A(term("nopow2", (Lin(big.c, big.t),), 0, max(s2.f.interval(big)[1], 0))))); continue
                if op == "and":
                    hit = None
                    for x, y in ((v2, w2), (w2, v2)):
                        z = y + 1
                        if z.c == 0 and len(z.t) == 1 and z.t[0][1] == 1 and ATOMS[z.t[0][0]].pow2: hit = (x, z)
                    if hit:
                        x, z = hit
                        out += self.mod_pow2(s2, x, z); continue
                if op in ("or", "xor"):
                    # no common bit: the sum
                    hit = None
                    for x, y, hy, ly in ((v2, w2, hw, lw), (w2, v2, hv, lv)):
                        if ly < 0 or hy >= 1 << n: continue
                        m = 1 << max(hy, 0).bit_length()
                        if x.c % m == 0 and all(c_ % m == 0 for _, c_ in x.t): hit = x + y; break
                    if hit is not None:
                        out.append((s2, self.rebyte(s2.f, hit, n))); continue
                x, y = sorted((Lin(v2.c, v2.t), Lin(w2.c, w2.t)), key=lambda l: (l.c, l.t))
                hi = min(hv, hw) if op == "and" else None
                if hi is None:
                    m = max(hv, hw); hi = (1 << max(m, 0).bit_length()) - 1 if m < INF // 4 else N
                    hi = min(hi, N)
                lo = 0 if op != "or" else max(lv, lw, 0)
                out.append((s2, A(term(op, (x, y), lo, hi))))
        return self.setv(out, ins.res)

    def mod_pow2(self, s, x, z):
        """x mod z where z is a power of two"""
        # split on x = r, r+z, r-z when x is known within [-z, 2z)
        out = []
        f = s.f
        if f.le0(-x) and f.le0(x - z + 1): return [(s, x)]
        lo, hi = f.interval(x)
        for k in (-1, 0, 1):
            w = x - z.scale(k)
            f2 = f.copy()
            try:
                f2.add_le(-w); f2.add_le(w - z + 1)
            except Infeasible:
                continue
            s2 = s.copy(); s2.f = f2; out.append((s2, w))
        if not (f.le0(-(x + z)) and f.le0(x - z.scale(2) + 1)):
            # outside that window: an unknown residue
            v = var("mod", 0)
            f2 = f.copy()
            try:
                f2.add_le(v - z + 1)
                s2 = s.copy(); s2.f = f2; out.append((s2, v))
            except Infeasible: pass
        return out

    # ------------------------------------------------------------ calls
    def i_call(self, st, ins, g, b, i):
        callee, args, tys = ins.a
        if callee[0] == "asm":
            if ins.res: st.regs[ins.res] = self.fresh_ty(ins.ty, "asm")
            if "memory" in callee[2]: return self.barrier(st, ins)
            return None
        if callee[0] == "g":
            name = callee[1]
            f = self.find_func(ins.fn.mod, name)
            return self.do_call(st, ins, g, b, i, f, name, args, tys)
        p = st.f.norm(self.op(st, ins, callee))
        bb, off = self.split_ptr(p)
        if bb is None:
            if p.const and p.c == 0:
                if self.opts["mem"]: self.report(st, ins, "call-null", "call through a NULL function pointer")
                return []
            return self.unknown_call(st, ins, "?", args, tys)
        if ATOMS[bb].kind == "fn":
            f, name = self.notes["fnatom"][bb]
            return self.do_call(st, ins, g, b, i, f, name, args, tys)
        fo = st.f.assume("eq", p)
        if fo is not None and self.opts["mem"] and self.opts.get("null_strict", True):
            self.report(st, ins, "call-null", "call through %s, which may be NULL" % show(p))
        f = self.driver.funcs.get("sa_callback")
        if f is not None and len(f.params) == len(args):
            return self.do_call(st, ins, g, b, i, f, "sa_callback", args, tys)
        return self.unknown_call(st, ins, ATOMS[bb].name or "pointer", args, tys)

    def do_call(self, st, ins, g, b, i, f, name, args, tys):
        h = self.opts["models"].get(name)
        if f is None or h is not None:
            m = h or getattr(self, "m_" + name.replace(".", "_"), None)
            if m is None and name.startswith("llvm."):
                m = self.intrinsic(name)
            if m is None and name.startswith("__builtin_"): m = getattr(self, "m_" + name[10:], None)
            if m is None and name.startswith("__") and name.endswith("_chk"): m = getattr(self, "m_" + name[2:-4], None)
            if m is not None:
                av = [self.op(st, ins, a, t) for a, t in zip(args, tys)]
                return m(st, ins, av)
            return self.unknown_call(st, ins, name, args, tys)
        if len(st.ctx) > 60: raise AnalysisError("call depth exceeded (recursion?) at %s" % self.loc(ins))
        if any(c.fn is f for c in st.ctx) and sum(1 for c in st.ctx if c.fn is f) > 2:
            raise AnalysisError("recursion in %s" % f.name)
        av = [self.op(st, ins, a, t) for a, t in zip(args, tys)]
        live = g.live_at(b, i + 1)
        keep = {k: v for k, v in st.regs.items() if k in live}
        s = st.copy()
        s.stack = (keep,) + st.stack; s.ctx = st.ctx + (ins,)
        s.regs = {nm: a for (t, nm), a in zip(f.params, av)}
        self.note_step(s, ins, "call " + f.name)
        self.calls += 1
        out = []
        ck = s.ctx
        for s2 in self.run_function(f, s):
            rv = s2.regs.get("%ret")
            s2.regs = dict(s2.stack[0]); s2.stack = s2.stack[1:]; s2.ctx = st.ctx
            if ins.res:
                if rv is None: rv = self.fresh_ty(ins.ty, f.name)
                s2.regs[ins.res] = rv
            # the callee's locals go out of scope
            dead = [x for x, r in s2.mem.items() if r.kind == "alloca" and ATOMS[x].kind == "alloca" and self.is_inner(x, ck)]
            if dead:
                mm = dict(s2.mem)
                for x in dead: del mm[x]
                s2.mem = mm
            out.append(s2)
        if len(out) > 3: out = self.merge(out, None, ins)
        return out

    def is_inner(self, aid, ck):
        key = ATOMS[aid].args[0]
        rev = self.__dict__.setdefault("_rev", {})
        if len(rev) != len(self.ctxid):
            rev.clear(); rev.update({v: k for k, v in self.ctxid.items()})
        t = rev[key]
        p = tuple(self.iid(c) for c in ck)
        return len(t) > len(p) and t[:len(p)] == p

    PURE = set("""printf fprintf vfprintf vprintf fputs fputc putchar puts fputs_unlocked perror strerror fflush setvbuf usleep sleep nanosleep
        strcmp strncmp strchr strcasecmp isprint isalnum isdigit sysconf getpid raise pthread_self syslog
        openlog closelog fileno isatty abs labs atoi strtol strtoul gai_strerror warn warnx
        __ctype_b_loc putc fputc_unlocked putc_unlocked""".split())

    def unknown_call(self, st, ins, name, args, tys):
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        if name in ("abort", "exit", "_exit", "__assert_fail", "err", "errx"): return []
        if name not in self.PURE:
            for a, t in zip(args, tys):
                if t.k == "ptr":
                    v = st.f.norm(self.op(st, ins, a, t))
                    bb, off = self.split_ptr(v)
                    if bb is not None and bb in st.mem and ATOMS[bb].kind != "fn":
                        r = st.mem[bb]
                        if r.kind == "glob" and r.flag and r.flag[0] == "str": continue
                        self.havoc_region(st, bb, name)
        if ins.res:
            t = ins.ty
            v = self.fresh_agg(ins.fn.mod, t, name) if t.k in ("struct", "named", "arr") else self.fresh_ty(t, name)
            st.regs[ins.res] = v
        return None

    def intrinsic(self, name):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"): return self.m_memcpy
        if name.startswith("llvm.memset"): return self.m_memset
        if name.startswith("llvm.bswap"):
            return lambda st, ins, av: self._bswap(st, ins, av[0], ins.ty.n)
        if name.startswith(("llvm.va_", "llvm.stack", "llvm.assume", "llvm.dbg", "llvm.lifetime", "llvm.expect")):
            def nop(st, ins, av):
                if ins.res: st.regs[ins.res] = av[0] if av else var(name)
            return nop
        if name.startswith("llvm.ctpop"):
            def pc(st, ins, av):
                n = ins.ty.n
                out = []
                for s, v in self.as_u(st, av[0], n):
                    v = s.f.norm(v)
                    if v.const: out.append((s, K(bin(v.c).count("1")))); continue
                    if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and ATOMS[v.t[0][0]].pow2: out.append((s, ONE)); continue
                    # one bit is set exactly if x & (x-1) is zero
                    rest = A(term("nopow2", (Lin(v.c, v.t),), 0, max(s.f.interval(v)[1], 0)))
                    for s2, k in self.cases(s, [("eq", v, 0), ("le", Lin(1) - v, 1)]):
                        if k == 0: out.append((s2, ZERO)); continue
                        for s3, j in self.cases(s2, [("eq", rest, 1), ("le", Lin(1) - rest, 2)]):
                            out.append((s3, ONE if j == 1 else var("bits", 2, n)))
                return self.setv(out, ins.res)
            return pc
        if name.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
            def mm(st, ins, av):
                conv = self.as_u if name[5] == "u" else self.as_s
                out = []
                for s, x in conv(st, av[0], ins.ty.n):
                    for s2, y in conv(s, av[1], ins.ty.n):
                        for s3, v in self.cmp_cases(s2, "lt", x, y):
                            lt = v.c == 1
                            out.append((s3, (y if lt else x) if "max" in name else (x if lt else y)))
                return self.setv(out, ins.res)
            return mm
        if name.startswith("llvm.trap"): return lambda st, ins, av: []
        return None

    def _bswap(self, st, ins, v, n):
        out = []
        for s, w in self.as_u(st, v, n): out.append((s, bswap(s.f.norm(w), n)))
        return self.setv(out, ins.res)

    # ---- C library models
    def ret(self, st, ins, v):
        if ins.res: st.regs[ins.res] = v
        return None

    def m_htonl(self, st, ins, av): return self._bswap(st, ins, av[0], 32)
    m_ntohl = m_htonl

    def m_htons(self, st, ins, av): return self._bswap(st, ins, av[0], 16)
    m_ntohs = m_htons

    def m_malloc(self, st, ins, av, base=("undef",), size=None):
        n = size if size is not None else av[0]
        out = []
        for s, v in self.as_u(st, n, 64):
            if self.opts["malloc_null"]:
                s0 = s.copy()
                if ins.res: s0.regs[ins.res] = ZERO
                out.append(s0)
            f = s.f.assume("le", v - (1 << 47))     # more than the address space is never granted
            if f is None: continue
            s.f = f
            if ins.res: s.regs[ins.res] = self.alloc(s, ins, s.f.norm(v), base)
            out.append(s)
        return out

    def m_calloc(self, st, ins, av):
        a, c = st.f.norm(av[0]), st.f.norm(av[1])
        if a.const: n = c.scale(a.c)
        elif c.const: n = a.scale(c.c)
        else:
            x, y = sorted((Lin(a.c, a.t), Lin(c.c, c.t)), key=lambda l: (l.c, l.t))
            n = A(term("mul", (x, y), 0, INF))
        return self.m_malloc(st, ins, av, ("zero",), n)

    def m_realloc(self, st, ins, av):
        p = st.f.norm(av[0])
        b, off = self.split_ptr(p)
        if b is None and p.const and p.c == 0: return self.m_malloc(st, ins, av[1:])
        out = []
        if b is None or (b not in st.mem and not is_region_atom(b)):
            return self.m_malloc(st, ins, av[1:])
        for s, n in self.as_u(st, av[1], 64):
            d = s.mem.get(b)
            if self.opts["malloc_null"]:
                s0 = s.copy()
                if ins.res: s0.regs[ins.res] = ZERO
                out.append(s0)
            f = s.f.assume("eq", n)
            if f is not None:      # glibc: the block is freed and NULL returned
                s0 = s.copy(); s0.f = f
                if self.free(s0, ins, p):
                    if ins.res: s0.regs[ins.res] = ZERO
                    out.append(s0)
            f = s.f.assume("le", n - (1 << 47))
            if f is not None: f = f.assume("le", -n + 1)
            if f is None: continue
            s.f = f
            old = d
            if not self.free(s, ins, p): continue
            q = self.alloc(s, ins, s.f.norm(n), ("undef",))
            nb = q.t[0][0]
            if old is not None:
                r = s.mem[nb].copy(); r.cells = {}; r.base = ("undef",)
                for k, (sz, v) in old.cells.items():
                    kk = lin(k) + (sz if isinstance(sz, int) else sz)
                    if s.f.le0(kk - n): r.cells[k] = (sz, v)
                if old.base[0] == "zero":
                    r.base = ("undef",)
                    r.dirty = None
                r.flag = old.flag if old.flag and old.flag[0] == "opaque" else r.flag
                s.put(nb, r)
            if ins.res: s.regs[ins.res] = q
            out.append(s)
        return out

    def m_free(self, st, ins, av):
        p = st.f.norm(av[0])
        b, off = self.split_ptr(p)
        if b is not None and not is_region_atom(b) and b not in st.mem: return None
        return [st] if self.free(st, ins, av[0]) else []

    def hooked(self, st, ins, accs):
        sts = [st]
        for p, w in accs:
            nx = []
            for s in sts:
                r = self.access_hook(s, ins, p, w)
                nx += [s] if r is None else r
            sts = nx
        return sts

    def m_memcpy(self, st, ins, av):
        if ins.res: st.regs[ins.res] = av[0]
        out = []
        for s0 in self.hooked(st, ins, ((av[1], False), (av[0], True))):
            for s, n in self.as_u(s0, av[2], 64): out += self.memcpy(s, ins, av[0], av[1], n)
        return out
    m_memmove = m_memcpy

    def m_memset(self, st, ins, av):
        if ins.res: st.regs[ins.res] = av[0]
        out = []
        for s0 in self.hooked(st, ins, ((av[0], True),)):
            for s, n in self.as_u(s0, av[2], 64): out += self.memset(s, ins, av[0], av[1], n)
        return out

    def m_strlen(self, st, ins, av):
        p = st.f.norm(av[0]); b, off = self.split_ptr(p)
        r = (st.mem.get(b) or self.cmem.get(b)) if b is not None else None
        if r is not None and r.flag and r.flag[0] == "str" and off.const:
            s = decode_cstr(r.flag[1])
            try: n = s.index(0, off.c) - off.c
            except ValueError: n = len(s) - off.c
            return self.ret(st, ins, K(n))
        if r is not None and r.flag and r.flag[0] == "cstr":
            return self.ret(st, ins, r.flag[1] - off)
        v = A(term("strlen", (Lin(p.c, p.t),), 0, 1 << 40))
        return self.ret(st, ins, v)

    def m_strdup(self, st, ins, av):
        d = self.deref(st, ins, av[0], 1, False)
        if d is None: return []
        out = []
        if self.opts["malloc_null"]:
            s0 = st.copy()
            if ins.res: s0.regs[ins.res] = ZERO
            out.append(s0)
        p = st.f.norm(av[0]); b, off = self.split_ptr(p)
        r = (st.mem.get(b) or self.cmem.get(b)) if b is not None else None
        q = self.alloc(st, ins, None, ("undef",))
        nr = st.mem[q.t[0][0]].copy()
        if r is not None and r.flag and r.flag[0] in ("cstr", "str") and off.const and off.c == 0:
            flag = r.flag if r.flag[0] == "cstr" else ("cstr", K(decode_cstr(r.flag[1]).index(0)))
        else:
            n = A(term("strlen", (Lin(p.c, p.t),), 0, 1 << 40)); flag = ("cstr", n)
        nr.size = flag[1] + 1
        st.put(q.t[0][0], nr)
        if ins.res: st.regs[ins.res] = q
        for s in (self.memcpy(st, ins, q, av[0], flag[1]) if r is not None and flag is r.flag else [st]):
            nr = s.mem[q.t[0][0]].copy(); nr.flag = flag; k = s.f.norm(flag[1])
            nr.cells[k.c if k.const else Lin(k.c, k.t)] = (1, ZERO)
            s.put(q.t[0][0], nr)
            out.append(s)
        return out

    def m_memcmp(self, st, ins, av):
        out = []
        for s, n in self.as_u(st, av[2], 64):
            ok = True
            n = s.f.norm(n)
            if not (n.const and n.c == 0):
                for p in av[:2]:
                    if s.f.interval(n)[0] < 1:
                        # an empty comparison reads nothing
                        f = s.f.assume("le", Lin(1) - n)
                        if f is None: continue
                        s2 = s.copy(); s2.f = f
                        self.deref(s2, ins, p, n, False)
                        continue
                    if self.deref(s, ins, p, n, False) is None: ok = False
            if not ok: continue
            if ins.res: s.regs[ins.res] = var("memcmp", -(1 << 31), (1 << 31) - 1)
            out.append(s)
        return out

    def m___assert_fail(self, st, ins, av):
        if self.opts["assert"]: self.report(st, ins, "assertion", "assertion may fail")
        return []

    def m_abort(self, st, ins, av): return []
    m_exit = m_abort
    m__exit = m_abort

    def m_getenv(self, st, ins, av): return self.ret(st, ins, var("getenv", 0, 1 << 60, ptr=True))

    # ---- analysis intrinsics
    def cstr(self, st, v):
        b, off = self.split_ptr(st.f.norm(v))
        r = st.mem.get(b) or self.cmem.get(b)
        if r is None or not r.flag or r.flag[0] != "str": return "?"
        s = decode_cstr(r.flag[1]); return bytes(s[:s.index(0)] if 0 in s else s).decode()

    def m___sa_int(self, st, ins, av): return self.ret(st, ins, var("int", -(1 << 31), (1 << 31) - 1))
    def m___sa_uint(self, st, ins, av): return self.ret(st, ins, var("uint", 0, (1 << 32) - 1))
    def m___sa_size(self, st, ins, av): return self.ret(st, ins, var("size", 0, M64 - 1))
    def m___sa_ssize(self, st, ins, av): return self.ret(st, ins, var("ssize", -(1 << 62), 1 << 62))
    def m___sa_skolem(self, st, ins, av): return self.ret(st, ins, var("T", 0, M64 - 1, track=True))

    def m___sa_pow2(self, st, ins, av):
        lo, hi = av[0].c, av[1].c
        return self.ret(st, ins, var("P", lo, hi, pow2=True))

    def m___sa_range(self, st, ins, av):
        lo, hi = st.f.norm(av[0]), st.f.norm(av[1])
        v = var("range", lo.c if lo.const else -INF, hi.c if hi.const else INF)
        f = st.f.copy()
        try:
            if not lo.const: f.add_le(lo - v)
            if not hi.const: f.add_le(v - hi)
        except Infeasible: return []
        st.f = f
        return self.ret(st, ins, v)

    def m___sa_bool(self, st, ins, av):
        return self.setv([(st.copy(), K(1)), (st, K(0))], ins.res)

    def m___sa_choice(self, st, ins, av):
        n = av[0].c
        return self.setv([(st.copy() if k < n - 1 else st, K(k)) for k in range(n)], ins.res)

    def m___sa_ptr(self, st, ins, av): return self.ret(st, ins, var("ptr", 0, 1 << 62, ptr=True))

    def m___sa_nzptr(self, st, ins, av): return self.ret(st, ins, var("ptr", 4096, 1 << 62, ptr=True))

    def m___sa_tptr(self, st, ins, av): return self.ret(st, ins, var("tptr", 4096, 1 << 62, ptr=True, track=True))

    def m___sa_obj(self, st, ins, av):
        """a fresh object of the given size with arbitrary (but fixed) content"""
        q = self.alloc(st, ins, st.f.norm(av[0]), ("ld", 0), "obj", "object@%s" % self.loc(ins))
        return self.ret(st, ins, q)

    def m___sa_heap(self, st, ins, av):
        """the same, but owned by the caller and to be freed"""
        q = self.alloc(st, ins, st.f.norm(av[0]), ("ld", 0), "heap")
        return self.ret(st, ins, q)

    def m___sa_cstring(self, st, ins, av):
        q = self.alloc(st, ins, None, ("ld", 0), "obj", "string@%s" % self.loc(ins))
        n = var("len", 0, 1 << 40)
        r = st.mem[q.t[0][0]].copy(); r.flag = ("cstr", n); r.size = n + 1
        r.cells[n] = (1, ZERO)
        st.put(q.t[0][0], r)
        return self.ret(st, ins, q)

    def m___sa_havoc(self, st, ins, av):
        b, off = self.split_ptr(st.f.norm(av[0]))
        if b is None or b not in st.mem: return None
        r = st.mem[b]
        n = st.f.norm(av[1])
        d = self.deref(st, ins, av[0], n.c if n.const else n, True)
        if d is None: return []
        r = st.mem[b].copy()
        if off.const and off.c == 0 and r.size is not None and st.f.eq0(r.size - n):
            r.cells = {}; r.base = ("undef",); r.dirty = None
        else:
            self.kill(st, r, st.f.norm(off), n.c if n.const else n, ins)
            self.dirty(st, r, off.c if off.const else off, n.c if n.const else n)
        st.put(b, r)
        return [st]

    def m___sa_assume(self, st, ins, av):
        out = []
        for s, v in self.as_u(st, av[0], 32):
            f = s.f.assume("ne", v)
            if f is not None: s.f = f; out.append(s)
        return out

    def m___sa_check(self, st, ins, av):
        rule = self.cstr(st, av[1])
        self.count(rule, self.loc(ins))
        v = st.f.norm(av[0])
        if not (v.const and v.c):
            if v.const or st.f.assume("eq", v) is not None:
                self.report(st, ins, rule, self.cstr(st, av[2]) if len(av) > 2 else "check may fail")
                f = st.f.assume("ne", v) if not v.const else None
                if f is None: return []
                st.f = f
                return [st]
        return None

    def m___sa_fail(self, st, ins, av):
        rule = self.cstr(st, av[0])
        self.report(st, ins, rule, self.cstr(st, av[1]) if len(av) > 1 else "must not be reached")
        return []

    def m___sa_reach(self, st, ins, av):
        rule = self.cstr(st, av[0]); self.reached[rule] = self.reached.get(rule, 0) + 1
        return None

    def m___sa_stop(self, st, ins, av): return []

    def m___sa_opt(self, st, ins, av):
        self.opts[self.cstr(st, av[0])] = av[1].c; return None

    def m___sa_guard(self, st, ins, av):
        b, off = self.split_ptr(st.f.norm(av[0])); r = st.mem[b].copy(); r.flag = ("guard", av[1], self.cstr(st, av[2])); st.put(b, r); return [st]

    def m___sa_watch(self, st, ins, av):
        b, off = self.split_ptr(st.f.norm(av[0])); r = st.mem[b].copy(); r.flag = ("watch", av[1]); st.put(b, r); return [st]

    def m___sa_pin(self, st, ins, av):
        b, off = self.split_ptr(st.f.norm(av[0])); r = st.mem[b].copy(); r.flag = ("pin",); st.put(b, r); return [st]

    def m___sa_track(self, st, ins, av):
        """make the n bytes at p a cell of their own, so that stores are decided against it"""
        d = self.deref(st, ins, av[0], av[1].c, True)
        if d is None: return []
        b, off = d
        if b == "?": return None
        r = st.mem[b].copy(); off = st.f.norm(off); key = off.c if off.const else Lin(off.c, off.t)
        if key not in r.cells:
            v = ld(r.base[2] if len(r.base) > 2 else b, Lin(off.c, off.t), av[1].c, r.base[1], False) if r.base[0] == "ld" and self.clean(st, r, off, av[1].c) else ZERO if r.base[0] == "zero" else var("tracked", 0, (1 << (8 * av[1].c)) - 1)
            r.cells[key] = (av[1].c, v)
        if key not in r.tk: r.tk = r.tk + (key,)
        st.put(b, r)
        return [st]

    def m___sa_same_block(self, st, ins, av):
        """do the n bytes at p hold an exact copy of the n bytes the source pointed at?  (p, src, n) -> 0/1"""
        return self.ret(st, ins, K(int(self.block_eq(st, ins, av[0], av[1], av[2]))))

    def block_eq(self, st, ins, p, q, n):
        f = st.f
        p = f.norm(p); q = f.norm(q); n = f.norm(n)
        if p == q: return True
        if f.eq0(n): return True
        bp, op_ = self.split_ptr(p); bq, oq = self.split_ptr(q)
        rp = st.mem.get(bp); rq = st.mem.get(bq)
        if rp is None or rq is None: return False
        # case: p's cell is a block copied from q's region
        for r, o, ob, oo in ((rp, op_, bq, oq), (rq, oq, bp, op_)):
            for k, (s, v) in r.cells.items():
                if isinstance(v, tuple) and v[0] == "blk" and v[1] == ob:
                    if f.eq0(lin(k) - o) and f.eq0(v[2] - oo) and f.eq0(lin(s) - n): return True
                if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
                    a = ATOMS[v.t[0][0]]
                    if a.kind == "ld" and a.args[0] == ob and f.eq0(lin(k) - o) and f.eq0(a.args[1] - oo) and f.eq0(lin(s) - n): return True
        # both copied from the same origin
        for k, (s, v) in rp.cells.items():
            if not (isinstance(v, tuple) and v[0] == "blk"): continue
            if not f.eq0(lin(k) - op_) or not f.eq0(lin(s) - n): continue
            for k2, (s2, v2) in rq.cells.items():
                if isinstance(v2, tuple) and v2[0] == "blk" and v2[1] == v[1] and v2[3] == v[3] and f.eq0(v2[2] - v[2]) and f.eq0(lin(k2) - oq) and f.eq0(lin(s2) - n): return True
        return False

    def m___sa_live_heap(self, st, ins, av):
        n = sum(1 for b, r in st.mem.items() if r.kind == "heap" and r.alive)
        return self.ret(st, ins, K(n))

    def m___sa_alive(self, st, ins, av):
        b, off = self.split_ptr(st.f.norm(av[0]))
        r = st.mem.get(b)
        if r is None: return self.ret(st, ins, K(0 if b is not None and ATOMS[b].kind in ("heap", "alloca") else 1))
        return self.ret(st, ins, K(int(r.alive)))

    def m___sa_no_leak(self, st, ins, av):
        rule = self.cstr(st, av[0])
        self.count(rule, self.loc(ins))
        for b, r in st.mem.items():
            if r.kind == "heap" and r.alive:
                self.report(st, ins, rule, "%s is still allocated although everything was destroyed" % r.name)
        return None

    def m___sa_valid(self, st, ins, av):
        """must [p, p+n) be inside a live object?"""
        n = st.f.norm(av[1])
        if n.const and n.c == 0: return None
        d = self.deref(st, ins, av[0], n.c if n.const else n, False)
        if d is None: return []
        return None

    def m___sa_mirror(self, st, ins, av):
        """a read-only view of the content an object had when it was created"""
        b, off = self.split_ptr(st.f.norm(av[0])); r = st.mem.get(b)
        if r is None or r.base[0] != "ld": raise AnalysisError("__sa_mirror of an unsuitable object")
        q = self.alloc(st, ins, r.size, ("ld", r.base[1], b), "obj", "initial content of " + r.name)
        return self.ret(st, ins, q)

    def m___sa_relate_sum(self, st, ins, av):
        """joins keep the relation *s = rest + sum of the first *i fields of an array as created"""
        s, p, stride, size, i = av
        sb, so = self.split_ptr(st.f.norm(s)); ib, io = self.split_ptr(st.f.norm(i)); b, off = self.split_ptr(st.f.norm(p)); r = st.mem[b]
        R = r.base[2] if len(r.base) > 2 else b
        t = (("m", sb, so.c), ("m", ib, io.c), [(1, R, r.base[1], stride.c, off.c, size.c, stride.c, 0)])
        if t not in self.ghost_templates: self.ghost_templates.append(t)
        return None

    def m___sa_sum(self, st, ins, av):
        """sum of k fields of an array that still holds its initial content"""
        p, stride, size, k = av
        b, off = self.split_ptr(st.f.norm(p)); r = st.mem.get(b)
        if r is None or r.base[0] != "ld" or r.cells or r.dirty is not None or not off.const: raise AnalysisError("__sa_sum of a modified array")
        k = st.f.norm(k)
        return self.ret(st, ins, st.f.norm(psum(r.base[2] if len(r.base) > 2 else b, r.base[1], stride.c, off.c, size.c, k)))

    def m___sa_show(self, st, ins, av):
        print("SHOW", self.loc(ins), [show(st.f.norm(a)) if isinstance(a, Lin) else a for a in av[1:]], self.cstr(st, av[0]))
        if os.environ.get("SA_FACTS"):
            print("   ineq", [str(Lin(c, t)) for t, c in st.f.ineq.items()], "sub", {dom.show_atom(i): str(v) for i, v in st.f.sub.items()},
                  "lo", {dom.show_atom(i): v for i, v in st.f.lo.items()}, "hi", {dom.show_atom(i): v for i, v in st.f.hi.items()})
        return None

    # ------------------------------------------------------------ entry
    def run(self, entry):
        f = self.driver.funcs[entry]
        st = St()
        for m in self.mods + [self.driver]:
            for g in m.globals.values():
                if g.defined and not g.const: self.glob(st, m, g.name)
        self.opts.setdefault("entry", entry)
        return self.run_function(f, st)


class HS:
    """a tuple with a cached hash"""
    __slots__ = ("t", "h")

    def __init__(self, t): self.t = t; self.h = hash(t)
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o or (isinstance(o, HS) and self.h == o.h and self.t == o.t)


def st_depth(s): return len(s.stack)


def resta_sz(s):
    return s if isinstance(s, int) else None


def kres(k):
    if isinstance(k, int): return k % 8
    g = 0
    for _, c in k.t: g = gcd(g, c)
    return k.c % 8 if g % 8 == 0 else -1


def fix_key(k):
    return k.c if k.const else Lin(k.c, k.t)


def lin(k):
    return Lin(k) if isinstance(k, int) else k


def show(v):
    return repr(v)


def touches(v, keys):
    if isinstance(v, Lin):
        for i, _ in v.t:
            if i in keys or (ATOMS[i].support and not keys.isdisjoint(ATOMS[i].support)): return True
        return False
    if isinstance(v, tuple):
        if v[0] == "blk": return touches(v[2], keys)
        return any(touches(x, keys) for x in v[1])
    return False


def norm_val(v, f):
    if isinstance(v, Lin): return f.norm(v)
    if isinstance(v, tuple):
        if v[0] == "blk": return ("blk", v[1], f.norm(v[2]), v[3])
        return ("agg", [norm_val(x, f) for x in v[1]])
    return v


def rows_add(rows, d, idx):
    v = {i: Fraction(k) for i, k in d.t}
    if d.c: v[-1] = Fraction(d.c)
    cmb = {idx: Fraction(1)}
    for piv, row, c2 in rows:
        k = v.get(piv)
        if k:
            m = k / row[piv]
            for i, x in row.items():
                y = v.get(i, Fraction(0)) - m * x
                if y: v[i] = y
                else: v.pop(i, None)
            for i, x in c2.items(): cmb[i] = cmb.get(i, Fraction(0)) - m * x
    if not v: return
    piv = next(iter(v))
    rows.append((piv, v, cmb))


def decode_cstr(s):
    out = []; i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\": out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out


def rename_facts(f, m):
    """rename plain unknowns (m: old -> new)"""
    t = Facts(); t.sub = {o: Lin(0, ((n, 1),)) for o, n in m.items()}
    r = Facts()
    r.sub = {m.get(i, i): t.norm(v) for i, v in f.sub.items()}
    r.lo = {m.get(i, i): v for i, v in f.lo.items()}
    r.hi = {m.get(i, i): v for i, v in f.hi.items()}
    for tt, c in f.ineq.items():
        l = t.norm(Lin(c, tt))
        r.ineq[l.t] = max(l.c, r.ineq.get(l.t, -INF))
    r.dis = frozenset(dom._sgn(t.norm(d)) for d in f.dis)
    return r


def same_facts(a, b):
    return a.sub == b.sub and a.ineq == b.ineq and a.lo == b.lo and a.hi == b.hi and a.dis == b.dis


def all_facts(f):
    out = f.all_le()
    for i, r in f.sub.items():
        d = Lin(0, ((i, 1),)) - r
        out.append(d); out.append(-d)
    return out


def join_facts(fa, fb, basis, widen=False, names=False, base=None, strides={}):
    """facts entailed by both.  basis: (p, a, b) with p bound to a in fa and to b in fb.
    -> (Facts, every fact of fa survived)"""
    out = Facts()
    pats = {p.t[0][0] for p, _, _ in basis}
    cands = []
    kept_all = True

    def rewrite(f, side):
        """express f in the pattern atoms by cancelling the pivots of the basis values"""
        r = f
        for p, a, b in basis:
            v = a if side == 0 else b
            for i, k in v.t:
                c = r.coef(i)
                if c and c % k == 0:
                    r = r + (p - v).scale(c // k); break
        return r

    fa0 = base if base is not None else fa; fb0 = fb
    afacts = [l for l in (base if base is not None else fa).all_le()]
    asub = (base if base is not None else fa).sub
    for i, r in asub.items():
        if i in pats: continue
        d = Lin(0, ((i, 1),)) - r
        afacts.append(d); afacts.append(-d)
    bfacts = [l for l in fb.all_le()]
    for i, r in fb.sub.items():
        if i in pats: continue
        d = Lin(0, ((i, 1),)) - r
        bfacts.append(d); bfacts.append(-d)
    good = {}

    def keep(l):
        g = 0
        for _, k in l.t: g = gcd(g, k)
        if g == 0: return
        t = tuple((i, k // g) for i, k in l.t); c = -((-l.c) // g)
        if t not in good or good[t] < c: good[t] = c
    for l in afacts:
        r = rewrite(l, 0)
        if r != l and fb.le0(l):
            keep(l)
            if r.t:
                if fb.le0(r): keep(r)
                else: kept_all = False
            continue
        if not r.t: continue
        if fb.le0(r): keep(r)
        else:
            kept_all = False
            if widen and len(r.t) == 1 and abs(r.t[0][1]) == 1:
                # widening with thresholds
                i, k = r.t[0]
                for th in ((1, 0, -1) if k == -1 else (0, 1, (1 << 31) - 1, (1 << 32) - 1, 1 << 47, 1 << 48, (1 << 63) - 1)):
                    w = Lin(th, ((i, -1),)) if k == -1 else Lin(-th, ((i, 1),))
                    if fb.le0(w) and fa.le0(w): keep(w); break
            if not widen:
                # a weaker bound of the same form
                hi = fb.interval(r)[1]
                if hi < (1 << 66) and hi > 0 and len(r.t) <= 2: keep(r - hi)
    for l in bfacts:
        if widen: break
        r = rewrite(l, 1)
        if r != l and fa.le0(l): keep(l)
        if r.t and fa.le0(r): keep(r)
        elif r.t and len(r.t) <= 2:
            hi = fa.interval(r)[1]
            if hi < (1 << 66) and hi > 0: keep(r - hi)
    # sizes that are powers of two bound indices: their intrinsic lower bounds take part too
    p2a = [Lin(fa.alo(i), ((i, -1),)) for i in dom.POW2 if i not in fa.lo]
    p2b = [Lin(fb.alo(i), ((i, -1),)) for i in dom.POW2 if i not in fb.lo]
    for i in dom.POW2:
        for f, l in ((fa, p2a), (fb, p2b)):
            if f.alo(i) > ATOMS[i].lo: l.append(Lin(f.alo(i) // 2 + 1, ((i, -1),)))
    if True:
        for p, a, b in basis:
            # a slot that changes for the first time has not been widened yet
            if widen and not a.const: continue
            # bounds of the pattern itself
            la, ha = fa.interval(a); lb, hb = fb.interval(b)
            lo = min(la, lb); hi = max(ha, hb)
            if lo > -(1 << 66): keep(Lin(lo) - p)
            if hi < (1 << 66): keep(p - hi)
            sk = strides.get(p.t[0][0])
            lams = (1, -1) if sk is None else (1, -1, sk, -sk)
            for side, facts in ((0, afacts + p2a), (1, bfacts + p2b)):
                v = a if side == 0 else b
                # where it starts bounds it: a counter that only goes down, or only up
                for l in [ZERO] + facts if 0 < len(v.t) <= 2 else facts:
                    for lam in lams:
                        r = rewrite(l, side) + (p - v).scale(lam)
                        if not r.t or p.t[0][0] not in [i for i, _ in r.t]: continue
                        r2 = r
                        if len(r.t) > 3: continue
                        if any(abs(c) > 1 and abs(c) not in (abs(l.coef(i)), abs(v.coef(i)), sk) for i, c in r.t): continue
                        if (fb if side == 0 else fa).le0(r2): keep(r2)
                if widen: continue
                # n <= i and the slot is k*i with i >= 0: n <= slot
                ff, of = (fa0, fb) if side == 0 else (fb0, fa)
                if len(v.t) != 1 or v.t[0][1] <= 1: continue
                i, k = v.t[0]
                if ff.alo(i) < 0: continue
                for l in facts:
                    c = l.coef(i)
                    if -k < c < 0 and len(l.t) <= 3:
                        r = rewrite(l + Lin(0, ((i, -c),)), side) - p + v.c
                        if r.coef(i) == 0 and of.le0(r): keep(r)
    for t, c in good.items():
        if len(t) == 1 and abs(t[0][1]) == 1:
            i, k = t[0]
            if k == 1:
                if -c < out.ahi(i): out.hi[i] = -c
            elif c > out.alo(i): out.lo[i] = c
        else: out.ineq[t] = c
    # facts that the bounds imply are noise unless they order two things
    for t in list(out.ineq):
        if len(t) == 2 and (t[0][1] < 0) != (t[1][1] < 0) and 1 in (abs(t[0][1]), abs(t[1][1])): continue
        if out._iv(t)[1] + out.ineq[t] <= 0: del out.ineq[t]
    # disequalities
    for d in fa.dis | fb.dis:
        ra = rewrite(d, 0 if d in fa.dis else 1)
        if ra.t and fa.ne0(ra) and fb.ne0(ra): out.dis = out.dis | {dom._sgn(ra)}
        elif d in fa.dis: kept_all = False
    # equalities hidden in pairs of inequalities
    res = Facts()
    res.lo = dict(out.lo); res.hi = dict(out.hi)
    try:
        pend = []
        for t, c in out.ineq.items():
            nt = tuple((i, -k) for i, k in t)
            if out.ineq.get(nt) == -c:
                if t < nt: pend.append(Lin(c, t))
            else: res.ineq[t] = c
        for i in list(set(res.lo) | set(res.hi)):
            if res.alo(i) == res.ahi(i): pend.append(Lin(-res.alo(i), ((i, 1),)))
        res.dis = out.dis
        for e in pend: res.add_eq(e)
    except Infeasible:
        res = Facts(); res.lo = dict(out.lo); res.hi = dict(out.hi); res.ineq = dict(out.ineq)
    return res, kept_all
