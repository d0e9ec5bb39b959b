"""The numeric abstract domain: linear expressions over atoms, and a relational
constraint store (equalities in solved form, integer linear inequalities, disequalities).

An atom is an unknown integer.  Some atoms stand for the result of an operation on other
expressions (a memory cell's initial content, a byte swap, a product, a prefix sum ...): those
are hash-consed on their arguments, so that equal computations denote the same atom.
Entailment is decided by interval evaluation, table lookup and bounded Fourier-Motzkin
elimination; anything not decided counts as "not entailed".
"""
from math import gcd

INF = 1 << 80


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "ptr", "support", "name", "track", "pow2")

    def __repr__(self): return self.name or "%s#%d" % (self.kind, self.id)


ATOMS = []
POW2 = []
_KEY = {}


def reset():
    ATOMS.clear(); _KEY.clear(); POW2.clear()


def new_atom(kind, lo=-INF, hi=INF, ptr=False, name=None, args=(), track=False, pow2=False):
    a = Atom(); a.id = len(ATOMS); a.kind = kind; a.args = args; a.lo = lo; a.hi = hi; a.ptr = ptr; a.name = name; a.track = track; a.pow2 = pow2
    if pow2: POW2.append(a.id)
    s = set()
    for x in args:
        if isinstance(x, Lin):
            for i, _ in x.t:
                s.add(i); s |= ATOMS[i].support
    a.support = frozenset(s)
    if any(ATOMS[i].track for i in s): a.track = True
    ATOMS.append(a); return a


def term(kind, args, lo=-INF, hi=INF, ptr=False):
    k = (kind, args, ptr)
    a = _KEY.get(k)
    if a is None:
        a = new_atom(kind, lo, hi, ptr, None, args); _KEY[k] = a
    return a


class Lin:
    """c + sum(coef * atom); immutable.  n: came out of arithmetic (a counter, not an enumerator)"""
    __slots__ = ("c", "t", "_h", "n")

    def __init__(self, c, t=(), n=False):
        self.c = c; self.t = t; self._h = hash((c, t)); self.n = n

    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self == o

    @property
    def const(self): return not self.t

    def num(self):
        return self if self.n else Lin(self.c, self.t, True)

    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t, True)
        if not o.t: return Lin(self.c + o.c, self.t, True)
        if not self.t: return Lin(self.c + o.c, o.t, True)
        d = dict(self.t)
        for i, k in o.t:
            v = d.get(i, 0) + k
            if v: d[i] = v
            else: d.pop(i, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())), True)

    def __neg__(self): return self.scale(-1)

    def scale(self, k):
        if k == 1: return self
        if k == 0: return Lin(0, (), True)
        return Lin(self.c * k, tuple((i, c * k) for i, c in self.t), True)

    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t, True)
        return self + o.scale(-1)

    def coef(self, i):
        for j, k in self.t:
            if j == i: return k
        return 0

    def atoms(self): return [i for i, _ in self.t]

    def all_atoms(self):
        s = set()
        for i, _ in self.t:
            s.add(i); s |= ATOMS[i].support
        return s

    def __repr__(self):
        if not self.t: return str(self.c)
        s = " + ".join(("%d*" % k if k != 1 else "") + show_atom(i) for i, k in self.t)
        return s + (" + %d" % self.c if self.c else "")


def show_atom(i):
    a = ATOMS[i]
    if a.name: return "%s" % a.name
    if a.args: return "%s(%s)" % (a.kind, ",".join(str(x) if not (isinstance(x, int) and a.kind == "ld" and x == a.args[0]) else show_atom(x) for x in a.args))
    return "%s#%d" % (a.kind, i)


ZERO = Lin(0); ONE = Lin(1)


def K(c): return Lin(c)


def A(atom): return Lin(0, ((atom.id, 1),))


def var(name, lo=-INF, hi=INF, ptr=False, track=False, pow2=False, kind="v"):
    a = new_atom(kind, lo, hi, ptr, None, (), track, pow2)
    a.name = "%s#%d" % (name, a.id)
    return A(a)


def lin_of(d, c):
    return Lin(c, tuple(sorted((i, k) for i, k in d.items() if k)), True)


# ---- rebuilding terms when their arguments change
REBUILD = {}


def rebuild(aid, f):
    """atom aid with f applied to its Lin arguments -> Lin"""
    a = ATOMS[aid]
    args = tuple(f(x) if isinstance(x, Lin) else x for x in a.args)
    if args == a.args: return A(a)
    r = REBUILD.get(a.kind)
    if r is not None: return r(args, a)
    return A(term(a.kind, args, a.lo, a.hi, a.ptr))


def psum(region, ver, stride, coff, size, idx):
    """sum over 0 <= k < idx of ld(region, stride*k + coff)"""
    if coff >= stride > 0:
        q = coff // stride
        return psum(region, ver, stride, coff % stride, size, idx + q) - psum(region, ver, stride, coff % stride, size, K(q))
    if idx.const and 0 <= idx.c <= 4:
        r = ZERO
        for k in range(idx.c): r = r + ld(region, K(stride * k + coff), size, ver, False)
        return r
    c = idx.c
    if idx.t and -4 <= c <= 4 and c != 0:
        b = Lin(0, idx.t)
        r = psum(region, ver, stride, coff, size, b)
        if c > 0:
            for k in range(c): r = r + ld(region, b.scale(stride) + (stride * k + coff), size, ver, False)
        else:
            for k in range(c, 0): r = r - ld(region, b.scale(stride) + (stride * k + coff), size, ver, False)
        return r
    return A(term("psum", (region, ver, stride, coff, size, Lin(idx.c, idx.t)), 0, INF))


def ld(region, off, size, ver, isptr):
    if isptr: return A(term("ld", (region, Lin(off.c, off.t), size, ver), 0, (1 << 63) - 1, True))
    return A(term("ld", (region, Lin(off.c, off.t), size, ver), 0, (1 << (8 * size)) - 1, False))


REBUILD["psum"] = lambda args, a: psum(*args)
REBUILD["ld"] = lambda args, a: ld(args[0], args[1], args[2], args[3], a.ptr)


def bswap(x, n):
    """x: value representing n bits"""
    if x.const:
        v = x.c % (1 << n)
        return K(int.from_bytes(v.to_bytes(n // 8, "little"), "big"))
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
        a = ATOMS[x.t[0][0]]
        if a.kind == "bswap" and a.args[1] == n: return a.args[0]
    return A(term("bswap", (Lin(x.c, x.t), n), 0, (1 << n) - 1))


REBUILD["bswap"] = lambda args, a: bswap(*args)


class Infeasible(Exception):
    pass


NOPSUM = []


class Facts:
    __slots__ = ("sub", "ineq", "lo", "hi", "dis", "_cache", "_idx", "_models")

    def __init__(self):
        self.sub = {}; self.ineq = {}; self.lo = {}; self.hi = {}; self.dis = frozenset(); self._cache = {}; self._idx = None; self._models = []

    def copy(self):
        f = Facts()
        f.sub = self.sub; f.ineq = self.ineq; f.lo = self.lo; f.hi = self.hi; f.dis = self.dis; f._cache = self._cache; f._idx = self._idx; f._models = self._models
        return f

    # ---- normal form
    def norm(self, l):
        s = self.sub
        if not s or not l.t: return l
        hit = False
        for i, _ in l.t:
            if i in s or (ATOMS[i].support and not s.keys().isdisjoint(ATOMS[i].support)):
                hit = True; break
        if not hit: return l
        r = Lin(l.c, ())
        for i, k in l.t:
            if i in s: r = r + s[i].scale(k)
            elif ATOMS[i].support and not s.keys().isdisjoint(ATOMS[i].support):
                v = rebuild(i, self.norm)
                if len(v.t) == 1 and v.t[0][0] == i: r = r + v.scale(k)
                else: r = r + self.norm(v).scale(k)
            else: r = r + Lin(0, ((i, k),))
        return Lin(r.c, r.t, l.n)

    def alo(self, i):
        v = self.lo.get(i); a = ATOMS[i].lo
        return a if v is None or v < a else v

    def ahi(self, i):
        v = self.hi.get(i); a = ATOMS[i].hi
        return a if v is None or v > a else v

    def interval(self, l):
        l = self.norm(l)
        lo = hi = l.c
        for i, k in l.t:
            a, b = self.alo(i), self.ahi(i)
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        if lo < -INF: lo = -INF
        if hi > INF: hi = INF
        # a tabulated fact on the same combination may be sharper
        if len(l.t) > 1:
            g = 0
            for _, k in l.t: g = gcd(g, k)
            t = tuple((i, k // g) for i, k in l.t)
            c = self.ineq.get(t)          # sum <= -c
            if c is not None: hi = min(hi, l.c + g * (-c))
            nt = tuple((i, -k) for i, k in t)
            c = self.ineq.get(nt)         # -sum <= -c  => sum >= c
            if c is not None: lo = max(lo, l.c + g * c)
        return lo, hi

    # ---- entailment
    def le0(self, l):
        """is l <= 0 entailed?"""
        l = self.norm(l)
        if not l.t: return l.c <= 0
        lo, hi = self.interval(l)
        if hi <= 0: return True
        if lo > 0: return False
        key = (l.c, l.t)
        r = self._cache.get(key)
        if r is None:
            r = False
            for m in self._models:
                v = l.c
                for i, k in l.t:
                    x = m.get(i)
                    if x is None: break
                    v += k * x
                else:
                    if v > 0: break
            else: r = self._fm(l)
            self._cache[key] = r
        return r

    def eq0(self, l):
        l = self.norm(l)
        if not l.t: return l.c == 0
        return self.le0(l) and self.le0(-l)

    def ne0(self, l):
        l = self.norm(l)
        if not l.t: return l.c != 0
        g = 0
        for _, k in l.t: g = gcd(g, k)
        if l.c % g: return True
        if _sgn(l) in self.dis: return True
        return self.le0(l + 1) or self.le0(Lin(1) - l)

    def index(self):
        if self._idx is None:
            ix = {}
            for t in self.ineq:
                for i, _ in t: ix.setdefault(i, []).append(t)
            self._idx = ix
        return self._idx

    def _fm(self, goal, start=None):
        # refute: facts and goal >= 1
        ix = self.index()
        if goal is None: cons = []; todo = list(start)
        else:
            neg = Lin(1) - goal
            cons = [(dict(neg.t), neg.c)]; todo = [i for i, _ in neg.t]
        seen = set(); atoms = set(todo); seent = set()
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            for t in ix.get(i, ()):
                if t in seent: continue
                seent.add(t)
                if len(seent) > 60: break
                cons.append((dict(t), self.ineq[t]))
                for j, _ in t:
                    if j not in seen: todo.append(j); atoms.add(j)
        # prefix sums are monotone in their index
        ps = [i for i in atoms if ATOMS[i].kind == "psum"] if not NOPSUM else None
        if ps:
            self._psum_axioms(ps, cons, atoms)
        for i in atoms:
            a = self.alo(i)
            if a > -INF: cons.append(({i: -1}, a))
            b = self.ahi(i)
            if b < INF: cons.append(({i: 1}, -b))
        model = {}
        r = fm_infeasible(cons, model)
        if not r and model:
            if len(self._models) > 7: self._models = self._models[:7]
            self._models = [{i: model.get(i, 0) for i in seen if i in model}] + self._models
        return r

    def _psum_axioms(self, ps, cons, atoms):
        allps = set(ps)
        for i in list(allps):
            for j in list(allps):
                if i == j or ATOMS[i].args[:5] != ATOMS[j].args[:5]: continue
                a, b = ATOMS[i].args[5], ATOMS[j].args[5]
                d = b - a
                if self._simple_le(Lin(0) - d):            # a <= b
                    cons.append(({i: 1, j: -1}, 0))
                    if self._simple_le(Lin(1) - d):        # a < b: psum(a)+ld(a) <= psum(b)
                        R, ver, st, co, sz, idx = ATOMS[i].args
                        l = ld(R, idx.scale(st) + co, sz, ver, False)
                        e = A(ATOMS[i]) + l - A(ATOMS[j])
                        cons.append((dict(e.t), e.c))
                        for q, _ in e.t: atoms.add(q)

    def _simple_le(self, l):
        l = self.norm(l)
        if not l.t: return l.c <= 0
        if self.interval(l)[1] <= 0: return True
        if any(ATOMS[i].kind == "psum" for i, _ in l.t): return False
        key = (l.c, l.t)
        r = self._cache.get(key)
        if r is None:
            NOPSUM.append(1)
            try: r = self._fm(l)
            finally: NOPSUM.pop()
        return r

    # ---- assuming
    def _fresh(self):
        self._cache = {}; self._idx = None; self._models = []

    def add_le(self, l):
        """assume l <= 0 (mutates; raises Infeasible)"""
        l = self.norm(l)
        if not l.t:
            if l.c > 0: raise Infeasible()
            return
        lo, hi = self.interval(l)
        if hi <= 0: return
        if lo > 0: raise Infeasible()
        if self.le0(l): return
        if self.le0(Lin(1) - l): raise Infeasible()
        keep = []
        for m in self._models:
            v = l.c; n_in = 0
            for i, k in l.t:
                x = m.get(i)
                if x is not None: v += k * x; n_in += 1
            if n_in == 0 or (n_in == len(l.t) and v <= 0): keep.append(m)
        self._add_le2(l)
        if not self._models: self._models = keep
        self._psum_consistent(l)

    def _psum_consistent(self, l):
        """a new fact about an index may contradict what is known about prefix sums"""
        at = {i for i, _ in l.t}
        for t in self.ineq:
            for i, _ in t:
                if ATOMS[i].kind == "psum" and not at.isdisjoint(ATOMS[i].support):
                    if self._fm(None, [j for j, _ in t]): raise Infeasible()
                    return

    def _add_le2(self, l):
        g = 0
        for _, k in l.t: g = gcd(g, k)
        t = tuple((i, k // g) for i, k in l.t); c = -((-l.c) // g)   # ceil
        nl = Lin(c, t)
        if _sgn(nl) in self.dis: c += 1; nl = Lin(c, t)
        if len(t) == 1:
            i, k = t[0]
            p2 = ATOMS[i].pow2
            if k == 1:
                v = -c
                if p2: v = 1 << (v.bit_length() - 1) if v >= 1 else v
                self.hi = dict(self.hi); self.hi[i] = min(self.ahi(i), v)
            elif k == -1:
                v = c
                if p2 and v > 1: v = 1 << (v - 1).bit_length()
                self.lo = dict(self.lo); self.lo[i] = max(self.alo(i), v)
            self._fresh()
            if self.alo(i) > self.ahi(i): raise Infeasible()
            if self.alo(i) == self.ahi(i):
                self.add_eq(Lin(-self.alo(i), ((i, 1),))); return
        else:
            old = self.ineq.get(t)
            if old is None or c > old:
                self.ineq = dict(self.ineq); self.ineq[t] = c; self._fresh()
            nt = tuple((i, -k) for i, k in t)
            o = self.ineq.get(nt)
            if o is not None and o == -c:          # both directions: an equality
                self.ineq = dict(self.ineq); self.ineq.pop(t, None); self.ineq.pop(nt, None); self._fresh()
                self.add_eq(Lin(c, t)); return
        self._tighten()

    def _tighten(self):
        for d in list(self.dis):
            dn = self.norm(d)
            if self.le0(dn):
                self.dis = self.dis - {d}
                self.add_le(dn + 1)
            elif self.le0(-dn):
                self.dis = self.dis - {d}
                self.add_le(Lin(1) - dn)

    def add_ne(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c == 0: raise Infeasible()
            return
        g = 0
        for _, k in l.t: g = gcd(g, k)
        if l.c % g: return
        if self.eq0(l): raise Infeasible()
        if self.le0(l): self.add_le(l + 1); return
        if self.le0(-l): self.add_le(Lin(1) - l); return
        l = Lin(l.c // g, tuple((i, k // g) for i, k in l.t))
        self.dis = self.dis | {_sgn(l)}; self._fresh()

    def add_eq(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c != 0: raise Infeasible()
            return
        g = 0
        for _, k in l.t: g = gcd(g, k)
        if l.c % g: raise Infeasible()
        if g > 1: l = Lin(l.c // g, tuple((i, k // g) for i, k in l.t))
        lo, hi = self.interval(l)
        if lo > 0 or hi < 0: raise Infeasible()
        if _sgn(l) in self.dis: raise Infeasible()
        if len(l.t) == 1 and abs(l.t[0][1]) == 1 and ATOMS[l.t[0][0]].pow2 and bin(abs(l.c)).count("1") != 1: raise Infeasible()
        if self.le0(l + 1) or self.le0(Lin(1) - l): raise Infeasible()
        # choose the atom to eliminate
        best = None
        for i, k in l.t:
            if abs(k) != 1: continue
            a = ATOMS[i]
            if a.ptr and a.kind in ("alloca", "heap", "glob", "fn", "obj"): continue
            # never define an atom in terms of an expression mentioning it
            if any(j != i and i in ATOMS[j].support for j, _ in l.t): continue
            rank = (a.kind in ("v", "j"), not a.track, i)
            if best is None or rank > best[0]: best = (rank, i, k)
        if best is None:
            t = l.t
            self.ineq = dict(self.ineq); self.ineq[t] = max(l.c, self.ineq.get(t, -INF))
            nt = tuple((i, -k) for i, k in t); self.ineq[nt] = max(-l.c, self.ineq.get(nt, -INF))
            self._fresh(); return
        _, i, k = best
        rhs = Lin(0, ((i, 1),)) - l.scale(k)      # k*i + r = 0 -> i = -r/k ; k = +-1
        rhs = Lin(rhs.c, rhs.t, True)
        self._subst(i, rhs)

    def _subst(self, i, rhs):
        lo, hi = self.alo(i), self.ahi(i)
        old_sub, old_ineq, old_lo, old_hi, old_dis = self.sub, self.ineq, self.lo, self.hi, self.dis
        self.sub = {}; self.ineq = {}; self.lo = {}; self.hi = {}; self.dis = frozenset(); self._fresh()
        one = {i: rhs}
        ns = {}
        tmp = Facts(); tmp.sub = one
        for a, r in old_sub.items():
            ns[a] = tmp.norm(r)
        ns[i] = rhs
        self.sub = ns
        todo = []
        for a in set(old_lo) | set(old_hi):
            la = old_lo.get(a); ha = old_hi.get(a)
            n = self.norm(Lin(0, ((a, 1),)))
            if n.t == ((a, 1),) and n.c == 0:
                if la is not None: self.lo[a] = la
                if ha is not None: self.hi[a] = ha
            else:
                if la is not None: todo.append(Lin(la) - n)
                if ha is not None: todo.append(n - Lin(ha))
        if lo > -INF: todo.append(Lin(lo) - rhs)
        if hi < INF: todo.append(rhs - Lin(hi))
        for t, c in old_ineq.items():
            n = self.norm(Lin(c, t))
            if n.t == t and n.c == c: self.ineq[t] = max(c, self.ineq.get(t, -INF))
            else: todo.append(n)
        self._fresh()
        for e in todo:
            self._add_raw(e)
        for d in old_dis:
            n = self.norm(d)
            if not n.t:
                if n.c == 0: raise Infeasible()
            else: self.add_ne(n)
        for a in list(set(self.lo) | set(self.hi)):
            if a in self.sub: continue
            if self.alo(a) > self.ahi(a): raise Infeasible()
            if self.alo(a) == self.ahi(a):
                self.add_eq(Lin(-self.alo(a), ((a, 1),)))
        # an atom whose sharper form now follows from a rebuilt term may contradict
        for t, c in list(self.ineq.items()):
            lo_, hi_ = self._iv(t)
            if lo_ + c > 0: raise Infeasible()

    def _iv(self, t):
        lo = hi = 0
        for i, k in t:
            a, b = self.alo(i), self.ahi(i)
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        return lo, hi

    def _add_raw(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c > 0: raise Infeasible()
            return
        g = 0
        for _, k in l.t: g = gcd(g, k)
        t = tuple((i, k // g) for i, k in l.t); c = -((-l.c) // g)
        lo, hi = self._iv(t)
        if hi + c <= 0: return
        if lo + c > 0: raise Infeasible()
        if len(t) == 1 and abs(t[0][1]) == 1:
            i, k = t[0]
            if k == 1: self.hi = dict(self.hi); self.hi[i] = min(self.ahi(i), -c)
            else: self.lo = dict(self.lo); self.lo[i] = max(self.alo(i), c)
            if self.alo(i) > self.ahi(i): raise Infeasible()
        else:
            self.ineq = dict(self.ineq)
            self.ineq[t] = max(c, self.ineq.get(t, -INF))
        self._fresh()

    def assume(self, kind, l):
        """returns a new Facts with l <= 0 / l == 0 / l != 0, or None"""
        f = self.copy()
        try:
            if kind == "le": f.add_le(l)
            elif kind == "eq": f.add_eq(l)
            else: f.add_ne(l)
            return f
        except Infeasible:
            return None

    def all_le(self):
        """all stored inequalities as Lins (<= 0)"""
        out = [Lin(c, t) for t, c in self.ineq.items()]
        for i, v in self.lo.items(): out.append(Lin(v, ((i, -1),)))
        for i, v in self.hi.items(): out.append(Lin(-v, ((i, 1),)))
        return out

    def gc(self, live):
        """drop facts that mention atoms outside `live` (after eliminating them where one pair suffices)"""
        def ok(t):
            for i, _ in t:
                if i not in live: return False
            return True
        bad = [t for t in self.ineq if not ok(t)]
        f = self
        if bad or any(i not in live for i in f.sub) or any(i not in live for i in f.lo) or any(i not in live for i in f.hi) or any(not ok(d.t) for d in f.dis):
            good = {t: c for t, c in f.ineq.items() if ok(t)}
            # eliminate dead atoms by FM among the bad ones
            cons = [(dict(t), f.ineq[t]) for t in bad]
            dead = set()
            for t in bad:
                for i, _ in t:
                    if i not in live: dead.add(i)
            if cons and len(cons) <= 40:
                for i in dead:
                    if f.alo(i) > -INF: cons.append(({i: -1}, f.alo(i)))
                    if f.ahi(i) < INF: cons.append(({i: 1}, -f.ahi(i)))
                for i in dead:
                    cons = fm_eliminate(cons, i, 60)
                    if cons is None: break
                if cons:
                    for d, c in cons:
                        if not d: continue
                        l = lin_of(d, c)
                        g = 0
                        for _, k in l.t: g = gcd(g, k)
                        t = tuple((i, k // g) for i, k in l.t); cc = -((-l.c) // g)
                        if len(t) > 1 and len(t) <= 4: good[t] = max(cc, good.get(t, -INF))
                        elif len(t) == 1 and abs(t[0][1]) == 1:
                            i, k = t[0]
                            if k == 1 and -cc < f.ahi(i): f.hi = dict(f.hi); f.hi[i] = -cc
                            if k == -1 and cc > f.alo(i): f.lo = dict(f.lo); f.lo[i] = cc
            f.ineq = good
            f.lo = {i: v for i, v in f.lo.items() if i in live}
            f.hi = {i: v for i, v in f.hi.items() if i in live}
            f.dis = frozenset(d for d in f.dis if ok(d.t))
            f.sub = {i: r for i, r in f.sub.items() if i in live}
            f._fresh()


def _sgn(l):
    if l.t and l.t[0][1] < 0: l = -l
    return Lin(l.c, l.t)


def _tight(d, c):
    g = 0
    for k in d.values(): g = gcd(g, k)
    if g > 1:
        return {i: k // g for i, k in d.items()}, -((-c) // g)
    return d, c


def fm_eliminate(cons, v, cap):
    pos = []; neg = []; rest = []
    for d, c in cons:
        k = d.get(v, 0)
        if k > 0: pos.append((d, c, k))
        elif k < 0: neg.append((d, c, -k))
        else: rest.append((d, c))
    if len(pos) * len(neg) > cap: return None
    seen = {}
    for d, c in rest:
        key = tuple(sorted(d.items()))
        if key not in seen or seen[key] < c: seen[key] = c
    for d1, c1, k1 in pos:
        for d2, c2, k2 in neg:
            g = gcd(k1, k2); m1 = k2 // g; m2 = k1 // g
            d = {}
            for i, k in d1.items():
                if i != v: d[i] = k * m1
            for i, k in d2.items():
                if i != v:
                    x = d.get(i, 0) + k * m2
                    if x: d[i] = x
                    else: d.pop(i, None)
            c = c1 * m1 + c2 * m2
            if d: d, c = _tight(d, c)
            key = tuple(sorted(d.items()))
            if key not in seen or seen[key] < c: seen[key] = c
    return [(dict(k), c) for k, c in seen.items()]


def fm_infeasible(cons, model=None):
    work = []
    for d, c in cons:
        d = {i: k for i, k in d.items() if k}
        if not d:
            if c > 0: return True
            continue
        work.append(_tight(d, c))
    order = []
    done = False
    for _ in range(60):
        vs = {}
        for d, c in work:
            if not d:
                if c > 0: return True
                continue
            for i, k in d.items():
                p = vs.setdefault(i, [0, 0]); p[0 if k > 0 else 1] += 1
        if not vs: done = True; break
        # drop variables bounded on one side only
        best = min(vs, key=lambda i: vs[i][0] * vs[i][1] - vs[i][0] - vs[i][1])
        if vs[best][0] * vs[best][1] > 400: return False
        order.append((best, [(d, c) for d, c in work if best in d]))
        work = fm_eliminate(work, best, 400)
        if work is None or len(work) > 600: return False
        for d, c in work:
            if not d and c > 0: return True
        work = [(d, c) for d, c in work if d]
    if done and model is not None:
        # a point that satisfies everything (integers only)
        for v, cs in reversed(order):
            lo = -INF; hi = INF
            for d, c in cs:
                x = c
                for i, k in d.items():
                    if i != v: x += k * model.setdefault(i, 0)
                k = d[v]
                if k > 0: hi = min(hi, (-x) // k)
                else: lo = max(lo, -((-x) // -k))
            if lo > hi: model.clear(); return False
            model[v] = lo if lo > -INF else (hi if hi < INF else 0)
    return False
