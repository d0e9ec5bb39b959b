"""C29: what the library does to the process around it, and what its objects share.

An effect analysis over the LLVM IR of every unit of the library: the functions of other libraries
each function may call (classified below), the mutable static storage it may write, and, over the
call graph (addresses of functions taken count as calls of any function of that type; a thread's start
routine is a root of its own), which of them the library's callers can reach."""
import os, re
import ir, symbols

# functions of the C library and POSIX that act on the process as a whole ...
PROCESS = {
    "signal dispositions or delivery": "signal sigaction bsd_signal sysv_signal __sysv_signal sigset sigignore siginterrupt sigprocmask raise kill killpg alarm ualarm setitimer sigaltstack sigqueue pthread_kill",
    "the end of the process": "exit _exit _Exit quick_exit atexit on_exit at_quick_exit pthread_exit __cxa_atexit longjmp siglongjmp",
    "its children or program": "fork vfork clone daemon setsid system popen execl execle execlp execv execve execvp fexecve posix_spawn posix_spawnp wait waitpid",
    "its working directory, umask, root or limits": "chdir fchdir chroot umask setrlimit setpriority nice sched_setscheduler",
    "its identity": "setuid setgid seteuid setegid setreuid setregid setgroups initgroups",
    "its environment or locale": "setenv putenv unsetenv clearenv setlocale uselocale tzset",
    "its memory settings": "mallopt mlockall munlockall malloc_trim",
    "a generator of random numbers all share": "srand srandom srand48",
    "its descriptors": "dup2 dup3 closefrom close_range freopen fcloseall",
    "its log": "openlog closelog syslog vsyslog",
}
# ... that write where the application writes ...
OUTPUT = "printf vprintf puts putchar putchar_unlocked perror psignal warn warnx err errx verr verrx vwarn vwarnx error __printf_chk __vprintf_chk"
# ... and that POSIX or glibc do not make safe to call from several threads at a time
UNSAFE = ("asctime basename catgets crypt ctime dbm_open dirname dlerror drand48 ecvt encrypt fcvt gcvt getc_unlocked getchar_unlocked getdate getenv_r getgrent getgrgid getgrnam "
          "gethostbyaddr gethostbyname gethostent getlogin getnetbyaddr getnetbyname getopt getopt_long getprotobyname getpwent getpwnam getpwuid getservbyname getservbyport getutxent gmtime hcreate hsearch "
          "inet_ntoa l64a lgamma localtime localeconv lrand48 mrand48 nl_langinfo ptsname putc_unlocked rand random readdir setkey strerror strsignal strtok tmpnam ttyname wcstombs ether_ntoa hdestroy mblen mbtowc mbrlen")
CLASS = {}
for what, names in PROCESS.items():
    for n in names.split(): CLASS[n] = ("C29.process", "acts on the whole process (%s)" % what)
for n in OUTPUT.split(): CLASS[n] = ("C29.output", "writes to the application's standard output or error stream")
for n in UNSAFE.split(): CLASS[n] = ("C29.shared", "may not be called by several threads at a time")
# the calling thread's own state: allowed in the library's own thread only
THREAD = {"pthread_sigmask": "the calling thread's signal mask", "pthread_setcancelstate": "the calling thread's cancellability", "pthread_setcanceltype": "the calling thread's cancellability",
          "pthread_setschedparam": "the calling thread's priority", "pthread_setname_np": "a thread's name", "prctl": "the calling thread's or process's attributes", "pthread_detach": "a thread's joinability"}


def loc(m, i):
    if i is None or not i.dbg: return m.name
    f, line = m.loc(i.dbg)
    return "%s:%d" % (os.path.relpath(f, ir.REPO) if os.path.isabs(f) else f, line)


def instructions(f):
    for b in f.order: yield from f.blocks[b]


def ftype(m, name):
    f = m.funcs.get(name)
    return None if f is None else (repr(f.ret), tuple(repr(t) for t, _ in f.params))


class Graph:
    def __init__(self, mods):
        self.mods = mods; self.fn = {}; self.byname = {}
        for m in mods.values():
            for f in m.funcs.values():
                self.fn[(m.name, f.name)] = f
                if not f.internal: self.byname[f.name] = (m.name, f.name)
        self.taken = set(); self.threads = set(); self.calls = {k: set() for k in self.fn}; self.ext = {k: [] for k in self.fn}; self.ind = {k: set() for k in self.fn}
        for m in mods.values():
            for g in m.globals.values(): self.addr(m, g.init)
        for k, f in self.fn.items():
            m = f.mod
            for i in instructions(f):
                if i.op == "call":
                    c, args, tys = i.a
                    if c[0] == "g":
                        t = self.resolve(m, c[1])
                        if t: self.calls[k].add(t)
                        else: self.ext[k].append((c[1], i))
                        if c[1] == "pthread_create" and len(args) > 2:
                            if args[2][0] == "g":
                                t = self.resolve(m, args[2][1])
                                if t: self.threads.add(t)
                                args = args[:2] + args[3:]
                    elif c[0] == "r": self.ind[k].add((repr(i.ty), tuple(repr(t) for t in tys)))
                    for a in args: self.addr(m, a)
                elif i.op == "store": self.addr(m, i.a[0])
                elif i.op == "phi":
                    for _, v in i.a: self.addr(m, v)
                elif i.op == "select": self.addr(m, i.a[1]); self.addr(m, i.a[2])
                elif i.op == "ret": self.addr(m, i.a[0])
        self.bytype = {}
        for t in self.taken: self.bytype.setdefault(ftype(self.fn[t].mod, t[1]), set()).add(t)

    def resolve(self, m, name):
        if name in m.funcs: return (m.name, name)
        return self.byname.get(name)

    def addr(self, m, o):
        """functions whose address the operand (or initialiser) contains"""
        if o is None: return
        if o[0] == "g":
            t = self.resolve(m, o[1])
            if t: self.taken.add(t)
        elif o[0] == "ge": self.addr(m, o[1])
        elif o[0] == "agg":
            for _, x in o[1]: self.addr(m, x)

    def succ(self, k):
        out = set(self.calls[k])
        for t in self.ind[k]: out |= self.bytype.get(t, set())
        return out

    def reach(self, roots):
        seen = {}; work = [(r, None) for r in roots]
        while work:
            k, p = work.pop()
            if k in seen: continue
            seen[k] = p
            work += [(s, k) for s in sorted(self.succ(k))]
        return seen

    def path(self, seen, k):
        out = []
        while k is not None: out.append("%s:%s" % k); k = seen[k]
        return list(reversed(out))


def written_statics(g):
    """(static object, writing instruction) pairs: stores through pointers derived from a static object's
    address, following casts, arithmetic, selection and calls into the library's own functions"""
    out = []; tr = 0
    for m in g.mods.values():
        for gl in m.globals.values():
            if not gl.defined or gl.const: continue
            tr += 1
            # other units see external objects of this one
            tainted = set(); hits = []
            work = []

            def is_t(m2, k, o):
                if o is None: return False
                if o[0] == "ge": return is_t(m2, k, o[1])
                if o[0] == "g": return o[1] == gl.name and (m2.name == m.name or not gl.internal)
                return o[0] == "r" and (k, o[1]) in tainted
            changed = True; escaped = []
            while changed:
                changed = False; hits = []; escaped = []
                for k, f in g.fn.items():
                    m2 = f.mod
                    for i in instructions(f):
                        src = ()
                        if i.op == "store":
                            if is_t(m2, k, i.a[1]): hits.append((k, i, "written"))
                            elif is_t(m2, k, i.a[0]): escaped.append((k, i, "reachable through a pointer stored here"))
                        elif i.op in ("cmpxchg", "atomicrmw"):
                            pass    # an atomic object may be shared
                        elif i.op == "gep": src = (i.a[0],)
                        elif i.op == "phi": src = tuple(v for _, v in i.a)
                        elif i.op == "select": src = i.a[1:]
                        elif i.op in ("bitcast", "freeze"): src = (i.a[-1],)
                        elif i.op == "ret" and i.a[0] is not None and is_t(m2, k, i.a[0]): escaped.append((k, i, "handed out to callers"))
                        elif i.op == "call":
                            c, args, _ = i.a; t = g.resolve(m2, c[1]) if c[0] == "g" else None
                            for n, a in enumerate(args):
                                if not is_t(m2, k, a): continue
                                if t:
                                    ps = g.fn[t].params
                                    if n < len(ps) and (t, ps[n][1]) not in tainted: tainted.add((t, ps[n][1])); changed = True
                                elif c[0] == "g" and c[1] in ("memcmp", "strlen", "strcmp", "strdup", "strncmp", "strnlen", "memchr", "strchr", "fopen", "fwrite", "inet_pton", "__assert_fail"): pass
                                elif c[0] == "g" and n == 1 and re.match(r"llvm\.mem(cpy|move)|mem(cpy|move)$|strn?cpy$", c[1]): pass
                                elif c[0] == "g" and c[1] in ("pthread_once", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"): pass
                                else: hits.append((k, i, "passed to %s" % (c[1] if c[0] == "g" else "an unknown function")))
                        if i.res is not None and any(is_t(m2, k, o) for o in src) and (k, i.res) not in tainted: tainted.add((k, i.res)); changed = True
            for k, i, how in hits + escaped: out.append((m, gl, k, i, how))
    return out, tr


def check(mods, tier):
    units = ir.library_units(); mods = ir.build(units); g = Graph(mods)
    viol = []; inst = {}; unknown = set()

    def rule(n): inst[n] = inst.get(n, 0) + 1

    def report(name, m, i, fn, msg, path):
        viol.append({"rule": name, "loc": loc(m, i), "function": fn, "msg": msg, "frames": [], "path": path, "entry": "effects.py"})
    try: script = symbols.Script(open(os.path.join(ir.REPO, symbols.SYM)).read())
    except ValueError as x: raise ir.FrontEndError(str(x))
    public = {k for k, f in g.fn.items() if not f.internal and script.visible(k[1]) and "__" not in k[1]}
    if len(public) < 30: raise ir.FrontEndError("only %d public functions found in the library" % len(public))
    by_caller = g.reach(public - g.threads); by_thread = g.reach(g.threads)
    for k, f in sorted(g.fn.items()):
        for name, i in g.ext[k]:
            rule("C29.calls")
            path = g.path(by_caller, k) if k in by_caller else g.path(by_thread, k) if k in by_thread else ["%s:%s" % k]
            if name in CLASS: report(CLASS[name][0], f.mod, i, k[1], "%s() is called, which %s" % (name, CLASS[name][1]), path)
            elif name in THREAD:
                rule("C29.thread")
                if k in by_caller: report("C29.thread", f.mod, i, k[1], "%s() is called on a path from the library's callers: it changes %s" % (name, THREAD[name]), path)
        for i in instructions(f):
            ops = [i.a[1]] if i.op == "store" else [i.a[0]] if i.op == "load" else list(i.a[1]) if i.op == "call" else []
            for o in ops:
                while o is not None and o[0] == "ge": o = o[1]
                if o is None or o[0] != "g": continue
                gl = f.mod.globals.get(o[1])
                if gl is None or gl.defined: continue
                rule("C29.streams")
                if o[1] in ("stderr",): report("C29.output", f.mod, i, k[1], "the application's standard error stream is used", ["%s:%s" % k])
                if o[1] in ("environ", "__environ", "optarg", "optind", "program_invocation_name", "tzname", "timezone"):
                    report("C29.process", f.mod, i, k[1], "%s belongs to the whole process" % o[1], ["%s:%s" % k])
                if o[1] in ("stdin", "stdout", "stderr") and i.op == "store": report("C29.process", f.mod, i, k[1], "%s is replaced" % o[1], ["%s:%s" % k])
    ws, statics = written_statics(g)
    for m in mods.values():
        for gl in m.globals.values():
            if gl.defined: rule("C29.static")
    seen = set()
    for m, gl, k, i, how in ws:
        if (m.name, gl.name) in seen: continue
        seen.add((m.name, gl.name))
        report("C29.static", g.fn[k].mod, i, k[1], "static object %s is %s: all objects and threads share it" % (gl.name, how), ["%s:%s" % k])
    if len(g.fn) < 50: raise ir.FrontEndError("only %d functions found in the library" % len(g.fn))
    return viol, {"rules": inst, "obligations": sum(inst.values()), "discharged": sum(inst.values()) - len(viol),
                  "units": units, "external_functions_called": sorted({n for k in g.ext for n, _ in g.ext[k]}),
                  "thread_start_routines": sorted("%s:%s" % k for k in g.threads), "mutable_static_objects": statics,
                  "analysed_functions": sorted("%s:%s" % k for k in g.fn)}


# POSIX async-signal-safe functions (2.4.3) the compiler or a program may call
SIGNAL_SAFE = set("""_exit _Exit abort accept access alarm bind chdir chmod chown clock_gettime close connect creat dup dup2 execl execle execv execve fchdir fchmod fcntl fdatasync fork fstat fsync
ftruncate getegid geteuid getgid getpid getppid getuid kill link listen lseek lstat memchr memcmp memcpy memmove memset mkdir open openat pause pipe poll pselect pthread_kill pthread_self pthread_sigmask raise
read readlink recv recvfrom recvmsg rename rmdir select sem_post send sendmsg sendto setsockopt shutdown sigaction sigaddset sigdelset sigemptyset sigfillset sigismember signal sigpending sigprocmask sigsuspend
sleep socket stat strcat strchr strcmp strcpy strlen strncat strncmp strncpy strnlen strrchr strstr symlink time timer_settime umask uname unlink utime wait waitpid write __errno_location""".split())


def signals(mods, tier):
    """C30: nothing reachable from a signal handler proper may be unsafe there"""
    viol = []; inst = {"C30.safe": 0}; handlers = set()
    units = [u for u in ("src/fstrm_capture.c", "src/fstrm_dump.c", "src/fstrm_replay.c") if os.path.exists(os.path.join(ir.REPO, u))]
    for u in units:
        g = Graph(ir.build([u]))
        ks = [k for k, f in g.fn.items() for n, i in g.ext[k] if n in ("sigaction", "signal", "bsd_signal", "__sysv_signal", "sigset")]
        if not ks: continue
        roots = {t for t in g.taken if ftype(g.fn[t].mod, t[1]) in (("void", ("i32",)), ("void", ("i32", "ptr", "ptr")))}
        handlers |= roots; seen = g.reach(roots)
        for k in sorted(seen):
            f = g.fn[k]
            for name, i in g.ext[k]:
                inst["C30.safe"] += 1
                if name not in SIGNAL_SAFE and not name.startswith("llvm."):
                    viol.append({"rule": "C30.safe", "loc": loc(f.mod, i), "function": k[1], "msg": "%s() may be called from a signal handler, where it is not safe" % name, "frames": [], "path": g.path(seen, k), "entry": "effects.py"})
            for i in instructions(f):
                if i.op == "store" and not i.flags:
                    o = i.a[1]
                    while o[0] == "ge": o = o[1]
                    if o[0] == "g":
                        viol.append({"rule": "C30.safe", "loc": loc(f.mod, i), "function": k[1], "msg": "a signal handler may write %s, which is neither volatile nor atomic" % o[1], "frames": [], "path": g.path(seen, k), "entry": "effects.py"})
    return viol, {"signal_handlers": sorted("%s:%s" % h for h in handlers), "handler_calls_classified": inst["C30.safe"]}
