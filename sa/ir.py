"""Front end: compiles /repo's current sources to LLVM IR and parses the text.

Every run compiles the working tree again (clang -O0 -g, then opt -passes=sroa to
promote locals to SSA registers).  Nothing is cached between runs.
"""
import os, re, subprocess, tempfile, shutil, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("FSTRM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class FrontEndError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elems", "name", "packed")

    def __init__(self, k, n=0, elems=None, name=None, packed=False):
        self.k = k; self.n = n; self.elems = elems; self.name = name; self.packed = packed

    def __repr__(self):
        if self.k == "int": return "i%d" % self.n
        if self.k == "arr": return "[%d x %r]" % (self.n, self.elems)
        if self.k == "named": return self.name
        if self.k == "struct": return "{%s}" % ", ".join(map(repr, self.elems))
        return self.k


PTR = Ty("ptr"); VOID = Ty("void"); I1 = Ty("int", 1); I8 = Ty("int", 8); I32 = Ty("int", 32); I64 = Ty("int", 64)
_ints = {}


def int_ty(n):
    if n not in _ints: _ints[n] = Ty("int", n)
    return _ints[n]


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<hex>0x[0-9A-Fa-fKLMHR]+)
 | (?P<word>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<p><\{|\}>|\.\.\.|[()\[\]{}<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise FrontEndError("cannot tokenize IR: %r at %r" % (s, s[i:i + 30]))
        out.append(m.group(m.lastgroup)); i = m.end()
    return out


class P:
    """Token stream with a type/operand parser."""

    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1; return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x: raise FrontEndError("expected %r got %r in %r" % (x, y, self.t))

    def is_type(self):
        p = self.peek()
        if p is None: return False
        return bool(re.fullmatch(r"i\d+", p)) or p in ("ptr", "void", "float", "double", "x86_fp80", "[", "{", "<{", "<", "metadata", "label", "half", "fp128", "token") or (p[0] == "%")

    def type(self):
        p = self.next()
        if p == "ptr": t = PTR
        elif p == "void": t = VOID
        elif re.fullmatch(r"i\d+", p): t = int_ty(int(p[1:]))
        elif p in ("float", "double", "x86_fp80", "metadata", "label", "half", "fp128", "token"): t = Ty(p)
        elif p == "[":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect("]"); t = Ty("arr", n, e)
        elif p == "<":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">"); t = Ty("arr", n, e)
        elif p in ("{", "<{"):
            end = "}" if p == "{" else "}>"; el = []
            while not self.eat(end):
                el.append(self.type()); self.eat(",")
            t = Ty("struct", 0, el, packed=(p == "<{"))
        elif p[0] == "%": t = Ty("named", name=p)
        else: raise FrontEndError("bad type token %r in %r" % (p, self.t))
        while self.peek() == "(":  # function type
            depth = 0
            while True:
                x = self.next()
                if x == "(": depth += 1
                if x == ")":
                    depth -= 1
                    if depth == 0: break
            t = Ty("func", elems=[t])
        return t

    ATTRS = set("""noundef nonnull noalias nocapture readonly writeonly readnone returned signext zeroext inreg noreturn
        nounwind dead_on_unwind writable immarg nofree allocptr allocalign dso_local internal private external weak
        linkonce_odr hidden protected default local_unnamed_addr unnamed_addr tail musttail notail fastcc ccc coldcc
        inbounds nuw nsw exact volatile disjoint fast nnan ninf nsz arcp contract afn reassoc atomic nneg captures
        available_externally linkonce weak_odr common appending thread_local constant global""".split())

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p is None: return
            if p in ("align",):
                self.next()
                if self.eat("("):
                    self.next(); self.expect(")")
                else: self.next()
                continue
            if p in ("dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "allockind", "allocsize", "range", "memory", "preallocated", "inalloca", "byref"):
                self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        x = self.next()
                        if x == "(": d += 1
                        if x == ")":
                            d -= 1
                            if d == 0: break
                continue
            if p in self.ATTRS or p.startswith("#") or (p.startswith('"')):
                self.next(); continue
            return

    def operand(self, ty):
        """-> operand tuple"""
        p = self.next()
        c = p[0]
        if c == "%": return ("r", p)
        if c == "@": return ("g", p[1:].strip('"'))
        if re.fullmatch(r"-?\d+", p): return ("c", int(p))
        if p == "true": return ("c", 1)
        if p == "false": return ("c", 0)
        if p == "null": return ("c", 0)
        if p in ("undef", "poison"): return ("u",)
        if p == "zeroinitializer": return ("z",)
        if p.startswith('c"'): return ("s", p[2:-1])
        if p == "getelementptr":
            self.skip_attrs(); self.expect("("); et = self.type(); self.expect(",")
            self.skip_attrs(); bt = self.type(); base = self.operand(bt); idx = []
            while self.eat(","):
                self.skip_attrs(); it = self.type(); idx.append(self.operand(it))
            self.expect(")")
            off, terms = self.m.gep_layout(et, idx)
            if terms: raise FrontEndError("symbolic constant gep")
            return ("ge", base, off)
        if p in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
            self.expect("("); t0 = self.type(); o = self.operand(t0); self.expect("to"); self.type(); self.expect(")"); return o
        if p in ("[", "{", "<{", "<"):
            end = {"[": "]", "{": "}", "<{": "}>", "<": ">"}[p]; els = []
            while not self.eat(end):
                t0 = self.type(); els.append((t0, self.operand(t0))); self.eat(",")
            return ("agg", els)
        if re.fullmatch(r"0x[0-9A-Fa-fKLMHR]+", p) or re.fullmatch(r"-?\d+\.\d+.*", p): return ("f", p)
        if p in ("asm",): return ("asm",)
        if p[0] == "!": return ("md", p)
        if p in ("add", "sub", "mul", "xor", "icmp", "select"):
            raise FrontEndError("constant expression %s unsupported" % p)
        raise FrontEndError("bad operand %r in %r" % (p, self.t))


class Inst:
    __slots__ = ("op", "res", "ty", "a", "dbg", "flags", "fn", "idx", "blk")

    def __init__(self, op, res=None, ty=None, a=None, dbg=None, flags=()):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.dbg = dbg; self.flags = flags

    def __repr__(self):
        return "%s=%s %r %r" % (self.res, self.op, self.ty, self.a)


class Func:
    def __init__(self, name, mod):
        self.name = name; self.mod = mod; self.params = []; self.blocks = {}; self.order = []; self.internal = False; self.dbg = None; self.ret = None; self.vararg = False


class Module:
    def __init__(self, name):
        self.name = name; self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.meta = {}; self._loc = {}
        self._size = {}

    # ---- layout
    def sizeof(self, t):
        return self._layout(t)[0]

    def _layout(self, t):
        k = t.k
        if k == "int":
            b = (t.n + 7) // 8
            s = 1
            while s < b: s *= 2
            return s, min(s, 16)
        if k == "ptr": return 8, 8
        if k == "double": return 8, 8
        if k == "float": return 4, 4
        if k == "half": return 2, 2
        if k in ("x86_fp80", "fp128"): return 16, 16
        if k == "arr":
            s, a = self._layout(t.elems); return s * t.n, a
        if k == "named":
            if t.name not in self._size:
                d = self.types.get(t.name)
                if d is None: return 0, 1
                self._size[t.name] = self._layout(d)
            return self._size[t.name]
        if k == "struct":
            off = 0; al = 1
            for e in t.elems:
                s, a = self._layout(e)
                if t.packed: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            return (off + al - 1) // al * al, al
        return 0, 1

    def fields(self, t):
        """offsets of the elements of a struct type"""
        if t.k == "named": t = self.types[t.name]
        off = 0; out = []
        for e in t.elems:
            s, a = self._layout(e)
            if t.packed: a = 1
            off = (off + a - 1) // a * a; out.append((off, e)); off += s
        return out

    def gep_layout(self, et, idx):
        off = 0; terms = []; t = et
        for n, o in enumerate(idx):
            if n == 0:
                s = self.sizeof(t)
            else:
                if t.k == "named": t = self.types[t.name]
                if t.k == "arr":
                    t = t.elems; s = self.sizeof(t)
                else:
                    f = self.fields(t)[o[1]]; off += f[0]; t = f[1]; continue
            if o[0] == "c": off += o[1] * s
            elif o[0] == "z": pass
            else: terms.append((o, s))
        return off, terms

    # ---- debug locations
    def loc(self, ref):
        """'!123' -> (file, line)"""
        if ref is None: return ("?", 0)
        if ref in self._loc: return self._loc[ref]
        d = self.meta.get(ref, "")
        m = re.search(r"line: (\d+)", d); line = int(m.group(1)) if m else 0
        s = re.search(r"scope: (!\d+)", d); f = "?"; cur = s.group(1) if s else (ref if "DISubprogram" in d else None)
        seen = 0
        while cur and seen < 60:
            seen += 1
            md = self.meta.get(cur, "")
            fm = re.search(r"\bfile: (!\d+)", md)
            if fm:
                fd = self.meta.get(fm.group(1), "")
                x = re.search(r'filename: "([^"]*)"', fd); f = x.group(1) if x else "?"
                break
            sm = re.search(r"scope: (!\d+)", md); cur = sm.group(1) if sm else None
        if f.startswith(REPO + "/"): f = f[len(REPO) + 1:]
        f = os.path.normpath(f)
        self._loc[ref] = (f, line)
        return self._loc[ref]

    def struct_members(self, name):
        """debug-info member table of `struct name`: {offset: (name, size)}"""
        for k, d in self.meta.items():
            if "DICompositeType(tag: DW_TAG_structure_type" in d and 'name: "%s"' % name in d:
                m = re.search(r"elements: (!\d+)", d)
                if not m: continue
                out = {}
                for e in re.findall(r"!\d+", self.meta.get(m.group(1), "")):
                    md = self.meta.get(e, "")
                    if "DW_TAG_member" not in md: continue
                    nm = re.search(r'name: "([^"]*)"', md)
                    of = re.search(r"offset: (\d+)", md); sz = re.search(r"size: (\d+)", md)
                    out[(int(of.group(1)) // 8) if of else 0] = (nm.group(1) if nm else "?", int(sz.group(1)) // 8 if sz else 0)
                return out
        return {}


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"}


def parse_module(text, name):
    m = Module(name)
    lines = text.split("\n")
    for ln in lines:
        if ln.startswith("!"):
            k, _, v = ln.partition(" = ")
            m.meta[k] = v
        elif ln.startswith("%") and " = type " in ln:
            k, _, v = ln.partition(" = type ")
            if v.strip() == "opaque": continue
            m.types[k.strip()] = P(tokenize(v), m).type()
    i = 0; n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith("@"):
            parse_global(m, ln)
        elif ln.startswith("declare "):
            mm = re.search(r"@(\"[^\"]*\"|[-a-zA-Z$._0-9]+)\(", ln)
            if mm: m.decls[mm.group(1).strip('"')] = ln
        elif ln.startswith("define "):
            i = parse_func(m, lines, i); continue
        i += 1
    return m


class Global:
    def __init__(self, name, ty, init, const, internal, defined):
        self.name = name; self.ty = ty; self.init = init; self.const = const; self.internal = internal; self.defined = defined


def parse_global(m, ln):
    ln = re.sub(r", !dbg !\d+", "", ln)
    mm = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
    name = mm.group(1).strip('"'); rest = mm.group(2)
    toks = tokenize(rest); p = P(toks, m); const = False; internal = False; external = False
    while p.peek() not in ("global", "constant"):
        t = p.next()
        if t in ("internal", "private"): internal = True
        if t in ("external", "extern_weak"): external = True
        if t == "alias": return
    const = p.next() == "constant"
    ty = p.type(); init = None
    if not external and p.peek() not in (None, ","):
        try: init = p.operand(ty)
        except FrontEndError: init = ("u",)
    m.globals[name] = Global(name, ty, init, const, internal, not external)


def parse_func(m, lines, i):
    ln = lines[i]
    mm = re.search(r"@(\"[^\"]*\"|[-a-zA-Z$._0-9]+)\(", ln)
    f = Func(mm.group(1).strip('"'), m)
    head = ln[:mm.start()]
    f.internal = " internal " in head
    d = re.search(r"!dbg (!\d+)", ln); f.dbg = d.group(1) if d else None
    body = ln[mm.end() - 1:]
    p = P(tokenize(re.sub(r"!dbg !\d+ \{$", "", body)), m)
    p.expect("(")
    while not p.eat(")"):
        if p.eat("..."):
            f.vararg = True; continue
        t = p.type(); p.skip_attrs(); nm = p.next(); f.params.append((t, nm)); p.eat(",")
    hp = P(tokenize(head.replace("define", "", 1)), m); hp.skip_attrs()
    f.ret = hp.type()
    m.funcs[f.name] = f
    i += 1; cur = None; nparam = len(f.params)
    while True:
        ln = lines[i]
        if ln == "}": return i + 1
        s = ln.strip()
        if not s: i += 1; continue
        lm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
        if lm and not ln.startswith(" "):
            cur = "%" + lm.group(1).strip('"') if False else "%" + lm.group(1)
            f.blocks[cur] = []; f.order.append(cur); i += 1; continue
        if cur is None:
            cur = "%" + str(nparam); f.blocks[cur] = []; f.order.append(cur)
        if s.startswith("switch ") and not s.rstrip().endswith("]") and "]" not in s:
            while not lines[i].strip().startswith("]"):
                i += 1; s += " " + lines[i].strip()
        if "@llvm.dbg." in s or "@llvm.lifetime" in s or s.startswith("#dbg_"):
            i += 1; continue
        ins = parse_inst(m, s)
        ins.fn = f; ins.blk = cur; ins.idx = len(f.blocks[cur])
        f.blocks[cur].append(ins); i += 1


META_TAIL = re.compile(r"(, ![a-zA-Z.]+ !\d+)+(, !srcloc !\d+)?\s*$")


def parse_inst(m, s):
    d = re.search(r"!dbg (!\d+)", s); dbg = d.group(1) if d else None
    s = re.sub(r", ![a-zA-Z_.]+ (!\d+|!\{[^}]*\})", "", s)
    res = None
    mm = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', s)
    if mm: res = mm.group(1); s = s[mm.end():]
    p = P(tokenize(s), m); op = p.next()
    if op in ("tail", "musttail", "notail"): op = p.next()
    if op in BINOPS:
        fl = []
        while p.peek() in P.ATTRS: fl.append(p.next())
        t = p.type(); a = p.operand(t); p.expect(","); b = p.operand(t)
        return Inst(op, res, t, (a, b), dbg, tuple(fl))
    if op in ("icmp", "fcmp"):
        p.skip_attrs(); pred = p.next(); t = p.type(); a = p.operand(t); p.expect(","); b = p.operand(t)
        return Inst(op, res, t, (pred, a, b), dbg)
    if op in CASTS:
        p.skip_attrs(); t = p.type(); a = p.operand(t); p.expect("to"); t2 = p.type()
        return Inst(op, res, t2, (t, a), dbg)
    if op == "fneg":
        p.skip_attrs(); t = p.type(); return Inst("fneg", res, t, (p.operand(t),), dbg)
    if op == "freeze":
        t = p.type(); return Inst("freeze", res, t, (p.operand(t),), dbg)
    if op == "load":
        vol = False; at = False
        while p.peek() in ("volatile", "atomic"):
            x = p.next(); vol |= x == "volatile"; at |= x == "atomic"
        t = p.type(); p.expect(","); p.type(); a = p.operand(PTR)
        rest = p.t[p.i:]
        fl = (("volatile",) if vol else ()) + (("atomic",) + tuple(x for x in rest if x in ORDERINGS) if at else ())
        return Inst("load", res, t, (a,), dbg, fl)
    if op == "store":
        vol = False; at = False
        while p.peek() in ("volatile", "atomic"):
            x = p.next(); vol |= x == "volatile"; at |= x == "atomic"
        t = p.type(); v = p.operand(t); p.expect(","); p.type(); a = p.operand(PTR)
        rest = p.t[p.i:]
        fl = (("volatile",) if vol else ()) + (("atomic",) + tuple(x for x in rest if x in ORDERINGS) if at else ())
        return Inst("store", None, t, (v, a), dbg, fl)
    if op == "getelementptr":
        p.skip_attrs(); et = p.type(); p.expect(","); bt = p.type(); base = p.operand(bt); idx = []
        while p.eat(","):
            it = p.type(); idx.append((p.operand(it)))
        off, terms = m.gep_layout(et, idx)
        return Inst("gep", res, PTR, (base, off, terms, et), dbg)
    if op == "alloca":
        t = p.type(); cnt = None
        if p.eat(",") and p.is_type():
            ct = p.type(); cnt = p.operand(ct)
        return Inst("alloca", res, t, (cnt,), dbg)
    if op == "br":
        if p.peek() == "label":
            p.next(); return Inst("br", None, None, (p.next(),), dbg)
        p.type(); c = p.operand(I1); p.expect(","); p.expect("label"); a = p.next(); p.expect(","); p.expect("label"); b = p.next()
        return Inst("cbr", None, None, (c, a, b), dbg)
    if op == "switch":
        t = p.type(); v = p.operand(t); p.expect(","); p.expect("label"); dflt = p.next(); p.expect("["); cs = []
        while not p.eat("]"):
            ct = p.type(); cv = p.operand(ct); p.expect(","); p.expect("label"); cs.append((cv[1], p.next()))
        return Inst("switch", None, t, (v, dflt, cs), dbg)
    if op == "ret":
        t = p.type(); v = None
        if t.k != "void": v = p.operand(t)
        return Inst("ret", None, t, (v,), dbg)
    if op == "unreachable": return Inst("unreachable", dbg=dbg)
    if op == "phi":
        p.skip_attrs(); t = p.type(); inc = []
        while p.eat("["):
            v = p.operand(t); p.expect(","); b = p.next(); p.expect("]"); inc.append((b, v)); p.eat(",")
        return Inst("phi", res, t, tuple(inc), dbg)
    if op == "select":
        p.skip_attrs(); p.type(); c = p.operand(I1); p.expect(","); t = p.type(); a = p.operand(t); p.expect(","); p.type(); b = p.operand(t)
        return Inst("select", res, t, (c, a, b), dbg)
    if op == "call":
        p.skip_attrs(); t = p.type()
        p.skip_attrs()
        if t.k == "func": t = t.elems[0]
        if p.peek() == "asm":
            p.next(); fl = []
            while p.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"): fl.append(p.next())
            txt = p.next(); p.expect(","); cons = p.next()
            callee = ("asm", txt.strip('"'), cons.strip('"'))
        else:
            callee = p.operand(PTR)
        p.expect("("); args = []; tys = []
        while not p.eat(")"):
            at = p.type(); p.skip_attrs(); args.append(p.operand(at)); tys.append(at); p.eat(",")
        return Inst("call", res, t, (callee, tuple(args), tuple(tys)), dbg)
    if op == "extractvalue":
        t = p.type(); v = p.operand(t); idx = []
        while p.eat(","): idx.append(int(p.next()))
        return Inst("extractvalue", res, t, (v, tuple(idx)), dbg)
    if op == "insertvalue":
        t = p.type(); v = p.operand(t); p.expect(","); t2 = p.type(); w = p.operand(t2); idx = []
        while p.eat(","): idx.append(int(p.next()))
        return Inst("insertvalue", res, t, (v, w, tuple(idx)), dbg)
    if op == "fence":
        return Inst("fence", None, None, tuple(p.t[p.i:]), dbg)
    if op in ("cmpxchg", "atomicrmw"):
        vol = p.eat("volatile") or p.eat("weak"); vol = p.eat("volatile") or vol
        rop = p.next() if op == "atomicrmw" else None
        p.type(); a = p.operand(PTR); p.expect(","); t = p.type(); v = p.operand(t)
        w = None
        if op == "cmpxchg":
            p.expect(","); p.type(); w = p.operand(t)
        return Inst(op, res, t, (a, v, w, rop), dbg, tuple(p.t[p.i:]))
    if op == "va_arg":
        return Inst("va_arg", res, VOID, (), dbg)
    raise FrontEndError("unsupported IR instruction: " + s)


ORDERINGS = {"unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"}


# ---------------------------------------------------------------- building
def cflags():
    cfg = os.path.join(REPO, "_build", "config.h")
    if not os.path.exists(cfg): cfg = os.path.join(HERE, "fallback", "config.h")
    return ["-include", cfg, "-I" + os.path.join(REPO, "fstrm"), "-I" + REPO]


def build(units, workdir=None, extra=()):
    """Compile the translation units (paths relative to /repo) and return {unit: Module}."""
    own = workdir is None
    wd = workdir or tempfile.mkdtemp(prefix="fstrm-sa-")
    try:
        def one(u):
            src = u if os.path.isabs(u) else os.path.join(REPO, u)
            base = os.path.join(wd, u.replace("/", "_"))
            cmd = ["clang", "-std=gnu11", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                   "-w", "-D_FORTIFY_SOURCE=0"] + cflags() + list(extra) + (["-I" + os.path.join(HERE, "drivers")] if os.path.isabs(u) else []) + ["-S", "-emit-llvm", src, "-o", base + ".ll"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise FrontEndError("cannot compile %s:\n%s" % (u, r.stderr[-2000:]))
            r = subprocess.run(["opt", "-S", "-passes=sroa,lower-expect,lower-switch-nop" if False else "-passes=sroa", base + ".ll", "-o", base + ".s.ll"], capture_output=True, text=True)
            if r.returncode: raise FrontEndError("opt failed on %s:\n%s" % (u, r.stderr[-2000:]))
            return u, parse_module(open(base + ".s.ll").read(), u)
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, units))
    finally:
        if own: shutil.rmtree(wd, ignore_errors=True)


def library_units():
    """The library's translation units as listed by the build (Makefile.am), falling back to the tree."""
    mk = open(os.path.join(REPO, "Makefile.am")).read()
    mk = mk.replace("\\\n", " ")
    units = []
    for m in re.finditer(r"^fstrm_libfstrm_la_SOURCES\s*\+?=\s*(.*)$", mk, re.M):
        units += [x for x in m.group(1).split() if x.endswith(".c")]
    units = [u for u in units if os.path.exists(os.path.join(REPO, u))]
    if not units: raise FrontEndError("no library sources found in Makefile.am")
    return sorted(set(units))
