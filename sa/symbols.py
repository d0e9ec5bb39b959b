"""C27: the library's interface.  Joins four views of the current sources: the functions the installed
headers declare (clang's syntax tree), the functions the library defines (LLVM IR: name, linkage,
visibility), the types of both (each unit compiled together with the public headers: a conflict is a
type error), and the version script's export decision for every name."""
import os, re, json, subprocess, tempfile, shutil, fnmatch
import ir

SYM = "fstrm/libfstrm.sym"


def run(cmd):
    return subprocess.run(cmd, capture_output=True, text=True)


def installed_headers():
    mk = open(os.path.join(ir.REPO, "Makefile.am")).read().replace("\\\n", " ")
    out = []
    # the main header first: the others are meant to be included by it
    for m in re.finditer(r"^(?:nobase_)?include_HEADERS\s*\+?=\s*(.*)$", mk, re.M): out += m.group(1).split()
    if not out: raise ir.FrontEndError("no installed headers found in Makefile.am")
    return sorted(set(out), key=lambda h: (h != "fstrm/fstrm.h", h))


def declared(headers, wd):
    """{name: (type, file, line)} of the functions declared in the installed headers"""
    src = os.path.join(wd, "headers.c")
    with open(src, "w") as f:
        for h in headers: f.write("#include <%s>\n" % h)
    r = run(["clang", "-std=gnu11", "-fsyntax-only", "-w"] + ["-I" + ir.REPO, "-Xclang", "-ast-dump=json", src])
    if r.returncode: raise ir.FrontEndError("the installed headers do not compile:\n" + r.stderr[-1500:])
    tree = json.loads(r.stdout); out = {}
    state = {"file": "", "line": 0}

    def track(loc):
        # clang prints file and line only when they change
        for k in ("spellingLoc", "expansionLoc"):
            if k in loc: track(loc[k])
        if "file" in loc: state["file"] = loc["file"]
        if "line" in loc: state["line"] = loc["line"]

    def visit(n):
        if "loc" in n: track(n["loc"])
        here = (state["file"], state["line"])
        for k in ("begin", "end"):
            if k in n.get("range", {}): track(n["range"][k])
        if n.get("kind") == "FunctionDecl":
            rel = os.path.relpath(os.path.realpath(here[0]), os.path.realpath(ir.REPO)) if here[0] else ""
            if rel in headers and n.get("storageClass") != "static" and not n.get("inline"):
                out.setdefault(n["name"], (n["type"]["qualType"], rel, here[1]))
        for c in n.get("inner", ()): visit(c)
    visit(tree)
    return out


class Script:
    """A GNU ld version script: which global names stay visible."""

    def __init__(self, text):
        text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S); text = re.sub(r"#[^\n]*", " ", text)
        self.exact = {}; self.pats = []; self.nodes = []
        pos = 0
        for m in re.finditer(r"([A-Za-z0-9_.]*)\s*\{(.*?)\}\s*([A-Za-z0-9_. ]*);", text, re.S):
            if text[pos:m.start()].strip(): raise ValueError("cannot parse the version script near %r" % text[pos:m.start()].strip()[:60])
            pos = m.end()
            self.nodes.append((m.group(1), m.group(3).strip())); mode = "global"
            for item in re.split(r"[;\s]+", m.group(2).replace("global:", " global: ").replace("local:", " local: ")):
                if not item: continue
                if item in ("global:", "local:"): mode = item[:-1]; continue
                if any(c in item for c in "*?["): self.pats.append((item, mode, m.group(1)))
                else: self.exact.setdefault(item, []).append((mode, m.group(1)))
        if text[pos:].strip(): raise ValueError("cannot parse the version script near %r" % text[pos:].strip()[:60])

    def visible(self, name):
        """exact entries win over patterns, any other pattern over the catch-all; global wins a tie; the default is global"""
        if name in self.exact: return any(m == "global" for m, _ in self.exact[name])
        ms = [m for p, m, _ in self.pats if p != "*" and fnmatch.fnmatchcase(name, p)]
        if not ms: ms = [m for p, m, _ in self.pats if p == "*"]
        return not ms or "global" in ms


def defined(units, wd):
    """{name: [(unit, linkage, visibility, kind)]} of what the library's units define"""
    out = {}
    for u in units:
        ll = os.path.join(wd, u.replace("/", "_") + ".ll")
        r = run(["clang", "-std=gnu11", "-O0", "-w", "-S", "-emit-llvm"] + ir.cflags() + [os.path.join(ir.REPO, u), "-o", ll])
        if r.returncode: raise ir.FrontEndError("cannot compile %s:\n%s" % (u, r.stderr[-1500:]))
        for l in open(ll):
            m = re.match(r"define\s+(.*?)@([\w.$]+)\(", l)
            kind = "function"
            if not m:
                m = re.match(r"()@([\w.$]+)\s*=\s*(?=(.*))", l); kind = "object"
                if not m: continue
                attrs = m.group(3).split()
                if "external" in attrs[:4] or not ({"global", "constant", "alias", "ifunc"} & set(attrs[:7])): continue
                if {"alias", "ifunc"} & set(attrs[:7]): kind = "function"
            else: attrs = m.group(1).split()
            link = "internal" if {"internal", "private"} & set(attrs) else "weak" if {"weak", "linkonce", "weak_odr", "linkonce_odr", "available_externally"} & set(attrs) else "external"
            vis = "hidden" if "hidden" in attrs else "default"
            out.setdefault(m.group(2), []).append((u, link, vis, kind))
    return out


def types(units, headers, wd):
    """each unit compiled together with all installed headers; a conflicting declaration is an error"""
    bad = []
    for u in units:
        src = os.path.join(wd, "typed.c")
        with open(src, "w") as f:
            for h in headers: f.write("#include <%s>\n" % h)
            f.write('#include "%s"\n' % os.path.join(ir.REPO, u))
        r = run(["clang", "-std=gnu11", "-fsyntax-only", "-w"] + ir.cflags() + [src])
        if r.returncode:
            m = re.search(r"^(\S+?):(\d+):\d+: error: (.*)$", r.stderr, re.M)
            bad.append((u, m.groups() if m else (u, "0", r.stderr.strip()[:200])))
    return bad


def check(mods, tier):
    viol = []; wd = tempfile.mkdtemp(prefix="fstrm-sym-"); inst = {}

    def rule(name): inst[name] = inst.get(name, 0) + 1

    def report(name, loc, fn, msg):
        viol.append({"rule": name, "loc": loc, "function": fn, "msg": msg, "frames": [], "path": [], "entry": "symbols.py"})
    try:
        units = ir.library_units(); headers = installed_headers()
        dec = declared(headers, wd); dfn = defined(units, wd)
        try: script = Script(open(os.path.join(ir.REPO, SYM)).read())
        except ValueError as x: raise ir.FrontEndError(str(x))
        strong = {n: [d for d in ds if d[1] != "internal"] for n, ds in dfn.items()}
        strong = {n: ds for n, ds in strong.items() if ds}
        if len(dec) < 10: raise ir.FrontEndError("only %d functions declared by the installed headers" % len(dec))
        for n, (ty, f, line) in sorted(dec.items()):
            loc = "%s:%d" % (f, line)
            rule("C27.defined")
            if n not in strong: report("C27.defined", loc, n, "declared in an installed header, but no unit of the library defines it" + (" (only a static function of that name)" if n in dfn else "")); continue
            rule("C27.exported")
            if not script.visible(n): report("C27.exported", SYM, n, "declared in an installed header, but the version script does not export it")
            elif any(d[2] == "hidden" for d in strong[n]): report("C27.exported", strong[n][0][0], n, "declared in an installed header, but defined with hidden visibility")
            rule("C27.once")
            if len([d for d in strong[n] if d[1] == "external"]) > 1: report("C27.once", strong[n][1][0], n, "defined by more than one unit")
        for n, modes in sorted(script.exact.items()):
            if not any(m == "global" for m, _ in modes): continue
            rule("C27.listed")
            if n not in strong: report("C27.listed", SYM, n, "the version script exports a name no unit of the library defines")
            rule("C27.version")
            if len(modes) > 1: report("C27.version", SYM, n, "listed more than once in the version script")
        for n, ds in sorted(strong.items()):
            if not script.visible(n) or any(d[2] == "hidden" for d in ds): continue
            rule("C27.internal")
            if "__" in n: report("C27.internal", ds[0][0], n, "an internal symbol is exported")
            rule("C27.public")
            if n not in dec: report("C27.public", ds[0][0], n, "exported, but declared in no installed header")
        # every file of this project that an installed header includes is installed too
        for h in headers:
            for ln, l in enumerate(open(os.path.join(ir.REPO, h)), 1):
                m = re.match(r"\s*#\s*include\s*[<\"]([^>\"]+)[>\"]", l)
                if not m: continue
                cand = [p for p in (m.group(1), os.path.join(os.path.dirname(h), m.group(1))) if os.path.exists(os.path.join(ir.REPO, p))]
                if not cand: continue
                rule("C27.header")
                if os.path.normpath(cand[0]) not in headers: report("C27.header", "%s:%d" % (h, ln), h, "an installed header includes %s, which is not installed" % m.group(1))
        bad = types(units, headers, wd)
        for u in units: rule("C27.type")
        for u, (f, line, msg) in bad: report("C27.type", "%s:%s" % (os.path.relpath(f, ir.REPO) if os.path.isabs(f) else f, line), u, "the definition does not have the type the installed headers declare: " + msg)
        return viol, {"rules": inst, "obligations": sum(inst.values()), "discharged": sum(inst.values()) - len(viol),
                      "declared_functions": sorted(dec), "version_nodes": ["%s %s" % x for x in script.nodes], "headers": headers, "units": units,
                      "analysed_functions": sorted("%s:%s" % (d[0], n) for n, ds in strong.items() for d in ds)}
    finally:
        shutil.rmtree(wd, ignore_errors=True)
