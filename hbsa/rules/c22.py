"""C22: rendering depends only on its inputs; nothing is kept in hidden global state."""
from .. import an
from ..an import const_int, path

RULE = ("Every use of a variable with static storage in the library is classified: none is written (directly, through a call that fills it "
        "or by letting its address escape), apart from the allocation test hooks, thread-local hand-overs restored on every exit and "
        "start-up constants. From parsing, compiling, rendering and the caches no function with process-wide state or an "
        "ambient answer (environment, clock, random numbers, locale, working directory, static result buffer) is reachable, apart from: "
        "the clock read into a module's time stamp or compared with one; files read by the partial loader; messages of raised errors.")
ASSUME = ["the locale's number format is the application's choice", "json-c, libyaml, LMDB and talloc keep no hidden state that matters"]

STATIC = {"strtok", "localtime", "gmtime", "ctime", "asctime", "setlocale", "localeconv", "rand", "srand", "random", "srandom", "drand48", "lrand48",
          "mrand48", "srand48", "getpwnam", "getpwuid", "getgrnam", "getlogin", "ttyname", "tmpnam", "basename", "dirname", "inet_ntoa", "gethostbyname",
          "readdir", "ecvt", "fcvt", "crypt", "hcreate", "hsearch", "mblen", "mbtowc", "wctomb", "setenv", "putenv", "unsetenv", "clearenv", "chdir",
          "umask", "signal", "sigaction", "alarm", "nl_langinfo", "strsignal", "l64a", "getopt", "getopt_long", "lgamma", "newlocale", "uselocale",
          "strerror"}
AMBIENT = {"getenv", "secure_getenv", "time", "clock", "clock_gettime", "gettimeofday", "times", "getrandom", "getentropy", "arc4random",
           "arc4random_uniform", "rand_r", "getpid", "getppid", "gettid", "getuid", "geteuid", "gethostname", "getcwd", "get_current_dir_name", "uname",
           "sysconf", "pthread_self", "sched_getcpu", "getrusage", "isatty", "opendir", "stat", "access", "lstat", "readlink", "realpath", "getline",
           "fgets", "getchar", "scanf", "fscanf", "read", "open", "fopen", "popen", "llvm.readcyclecounter", "random_r", "localtime_r", "strftime",
           "llvm.returnaddress", "llvm.frameaddress", "backtrace"}
ROOTS = ("handlebars_parse_ex", "handlebars_parse", "handlebars_compiler_compile_ex", "handlebars_compiler_compile", "handlebars_vm_execute",
         "handlebars_vm_execute_ex", "handlebars_vm_execute_program", "handlebars_vm_execute_program_ex", "handlebars_program_serialize",
         "handlebars_value_init_json_string", "handlebars_value_init_yaml_string", "handlebars_module_verify")
STAMPS = ("ts", "last_used", "time", "timestamp", "added", "created")
READS = {"memcpy", "memmove", "memcmp", "strcmp", "strncmp", "strlen", "strchr"}


def run(ctx, rep):
    P = ctx.inl
    lib = [f for f in P.functions.values() if not f.mod.unit.startswith("bin/") and not f.avail]
    statics(P, lib, rep)
    rep.floor("static", 15, "variables with static storage")
    ambient(P, lib, rep)
    rep.floor("ambient", 4, "calls with an ambient answer")


def statics(P, lib, rep):
    uses = {}
    defined = {}
    for M in P.mods.values():
        if M.unit.startswith("bin/"):
            continue
        for g, (fl, t, init) in M.globals.items():
            if "constant" in fl or "external" in fl and not init:
                continue
            defined[(M.unit if "internal" in fl or "private" in fl else None, g)] = fl
    owner = {}

    def key(M, g):
        k = (M.unit, g)
        return k if k in defined else (None, g) if (None, g) in defined else None
    for f in lib:
        for i in f.insts():
            for n, o in enumerate(i.ops):
                o = o[0] if isinstance(o, tuple) else o
                if not isinstance(o, str):
                    continue
                for g in globals_of(f, i, n, o):
                    k = key(f.mod, g)
                    if k:
                        uses.setdefault(k, []).append((f, i, n))
    for k in sorted(defined, key=str):
        fl = defined[k]
        writes = [(f, i) for f, i, n in uses.get(k, ()) if writing(P, f, i, n)]
        if not writes:
            rep.ok("static", k[1])
            continue
        for f, i in writes:
            ok = hook(P, f, i) or "thread_local" in fl and handover(f, k[1]) or constant(f, i)
            rep.check(ok, "static", "%s|%s" % (k[1], f.name), i.where(), "%s writes %s, which outlives the call and is shared by every user" % (f.name, k[1]))


def globals_of(f, i, n, o):
    """names of global variables the n-th operand of i is an address within"""
    if i.op in ("load", "store", "call", "atomicrmw", "cmpxchg", "ret"):
        out = set()
        for x in an.leaves(f, o) if o.startswith("%") else [o]:
            p = path(f, x)
            if isinstance(p.base, str) and p.base.startswith("@"):
                out.add(p.base[1:])
        return out
    return ()


def writing(P, f, i, n):
    """does this use let the variable change?"""
    if i.op in ("load", "ret"):
        return False
    if i.op == "store":
        # as the value: the address escapes into memory
        if n == 0:
            pl = an.place(f, i.ops[1])
            return not (const_target(f, i))
        return True
    if i.op in ("atomicrmw", "cmpxchg"):
        return True
    c = i.x["callee"].lstrip("@")
    base = c.split(".p0")[0].replace("llvm.", "")
    if base in READS:
        return base in ("memcpy", "memmove") and n == 0
    if c in ("snprintf", "sprintf", "vsnprintf", "vsprintf"):
        return n == 0
    if c.startswith("llvm."):
        return base.startswith(("memset",)) and n == 0
    for t in P.targets(i):
        g = P.functions.get(t)
        if g is None:
            return c not in ("talloc_check_name", "_talloc_get_type_abort", "talloc_named_const", "fprintf", "handlebars_throw")
        if n < len(g.params) and not readonly(P, g, n):
            return True
    return False


def const_target(f, i):
    return False


def readonly(P, f, n, depth=0):
    """does f only read through its n-th parameter?"""
    a = f.params[n][1]
    for i in f.insts():
        for k, o in enumerate(i.ops):
            o = o[0] if isinstance(o, tuple) else o
            if not isinstance(o, str) or not (o == a or o.startswith("%") and path(f, o).base == a and i.op in ("store", "call", "ret", "phi", "select")):
                continue
            if i.op in ("load", "icmp", "gep", "getelementptr"):
                continue
            if i.op == "call":
                c = i.x["callee"].lstrip("@")
                if c.split(".p0")[0].replace("llvm.", "") in READS and k > 0 or c.startswith("llvm.dbg"):
                    continue
                ts = [P.functions.get(t) for t in P.targets(i)]
                if depth < 4 and ts and all(t is not None and k < len(t.params) and readonly(P, t, k, depth + 1) for t in ts):
                    continue
            return False
    return True


def hook(P, f, i):
    """test hooks of the allocator: only written by the functions that install, count or remove injected failures, which live with the
    hook pointers and are never called by the library"""
    if "_handlebars_talloc_zero" not in f.mod.globals or not f.mod.globals["_handlebars_talloc_zero"][2]:
        return False
    callers = {g for g, ts in P.cg.items() if f.uname in ts and P.functions[g].mod is not f.mod and not P.functions[g].mod.unit.startswith("bin/")}
    if not callers:
        return True
    for fc in an.dom_facts(i):
        d = f.defs.get(an.strip(f, fc[1])) if isinstance(fc[1], str) else None
        if fc[0] == "ne" and const_int(fc[2]) == 0 and d is not None and d.op == "load" and d.ops[0].startswith("@") and d.ops[0][1:] in f.mod.globals:
            ws = [(g, x) for g in f.mod.functions.values() for x in g.insts() if x.op == "store" and path(g, x.ops[1]).base == d.ops[0]]
            if ws and all(g is not f and hook(P, g, x) for g, x in ws):
                return True
    return False


def handover(f, g):
    """set and put back (or cleared) within the function"""
    st = [i for i in f.insts() if i.op == "store" and path(f, i.ops[1]).base == "@" + g]
    last = [i for i in st if const_int(i.ops[0]) == 0 or f.defs.get(i.ops[0]) is not None and f.defs[i.ops[0]].op == "load"]
    return bool(last) and len(st) >= 2


def constant(f, i):
    """the same value whenever it is set: a constant or a property of the system"""
    if i.op != "store":
        return False
    if const_int(i.ops[0]) is not None:
        return False
    return all(f.defs.get(v) is not None and f.defs[v].op == "call" and f.defs[v].x["callee"].lstrip("@") in ("sysconf", "getpagesize")
               for v in an.leaves(f, i.ops[0]))


def ambient(P, lib, rep):
    roots = [r for r in ROOTS if r in P.functions]
    if len(roots) < 8:
        raise an.AnalysisError("C22: entry points not found (%d)" % len(roots))
    # the caches' handlers are reached through their table; helpers and user types through theirs
    live = P.reachable(set(roots) | {u for s, v in P.slots.items() for u in v} | {f.uname for f in lib if f.mod.unit.startswith("handlebars_helpers")})
    for f in lib:
        if f.uname not in live:
            continue
        for i in f.insts():
            if i.op != "call":
                continue
            c = i.x["callee"].lstrip("@")
            if c in STATIC:
                ok = c == "strerror" and into_error(f, i)
                rep.check(ok, "ambient", "%s|%s" % (f.name, c), i.where(), "%s depends on process-wide state through %s" % (f.name, c))
            elif c in AMBIENT:
                ok = c in ("getenv", "secure_getenv") and debug_only(f, i) or c == "time" and stamp(P, f, i) or \
                    c in ("fopen", "open", "read") and loader(f, i) or c in ("sysconf",)
                rep.check(ok, "ambient", "%s|%s" % (f.name, c), i.where(), "what %s does depends on %s, not only on its inputs" % (f.name, c))
    # %p in anything but diagnostics: the output would differ from run to run
    for f in lib:
        if f.uname not in live:
            continue
        for i in f.insts():
            if i.op == "call" and ("printf" in i.x["callee"]) and not any(
                    f.defs.get(o) is not None and f.defs[o].op == "load" and f.defs[o].ops[0] in ("@stderr",) for o in i.ops if isinstance(o, str)):
                fm = [f.mod.cstr(o) for o in i.ops if isinstance(o, str) and o.startswith("@")]
                if any(s and b"%p" in s for s in fm):
                    rep.bad("ambient", "%s|%%p" % f.name, i.where(), "%s formats an address" % f.name)


def users(f, v):
    return [i for i in f.insts() if any((o[0] if isinstance(o, tuple) else o) == v for o in i.ops)]


def into_error(f, i):
    us = users(f, i.res)
    return bool(us) and all(u.op == "call" and u.x["callee"].lstrip("@") in ("handlebars_throw", "handlebars_throw_ex") for u in us)


def debug_only(f, i):
    """the answer only decides whether diagnostics are printed"""
    for u in users(f, i.res):
        if u.op != "icmp" or not all(w.op == "br" for w in users(f, u.res)):
            return False
        for w in users(f, u.res):
            bs = [s for s in w.block.succs]
            for s in bs:
                pass
            inner = [s for s in bs if all(x.op != "ret" for x in s.insts) and len(s.preds) == 1]
            if not inner:
                return False
            s = inner[0]
            if not any(x.op == "call" and x.x["callee"].lstrip("@") in ("fprintf", "fputs") for x in s.insts):
                return False
            for t in s.succs:
                for ph in t.insts:
                    if ph.op == "phi" and len({v for v, lab in ph.ops if lab in (s.name, w.block.name)}) > 1:
                        return False
            if any(x.op == "store" or x.op == "call" and x.x["callee"].lstrip("@") not in ("fprintf", "fputs", "fflush") and
                   not x.x["callee"].lstrip("@").startswith("llvm.") and not x.x["callee"].lstrip("@").endswith("_refcount") for x in s.insts):
                return False
    return True


def stamp(P, f, i):
    """the clock becomes a time stamp, or is compared with one"""
    def stamped(v, depth=0):
        d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
        if d is None or depth > 4:
            return False
        if d.op == "load":
            return (an.place(f, d.ops[0]) or ("", ""))[1] in STAMPS
        return d.op in ("add", "sub", "phi") and any(stamped(o[0] if isinstance(o, tuple) else o, depth + 1) for o in d.ops)

    def okval(v, seen):
        for u in users(f, v):
            if u in seen:
                continue
            seen.add(u)
            if u.op == "call" and u.x["callee"].lstrip("@") in ("difftime", "time"):
                continue
            if u.op in ("sub", "icmp", "phi", "select", "sitofp", "trunc", "sext"):
                if u.op in ("sub", "icmp"):
                    if not any(stamped(o) for o in u.ops if o != v):
                        return False
                elif u.res and not okval(u.res, seen):
                    return False
                continue
            if u.op == "store" and u.ops[0] == v and okaddr(u.ops[1], seen):
                continue
            return False
        return True

    def okaddr(a, seen):
        pl = an.place(f, a)
        if pl and pl[1] in STAMPS:
            return True
        p = path(f, a)
        d = f.defs.get(p.base)
        if d is not None and d.op == "alloca":
            for u in f.insts():
                if u.op == "load" and path(f, u.ops[0]).base == p.base:
                    if not okval(u.res, seen):
                        return False
                elif u.op == "call" and any(isinstance(o, str) and path(f, o).base == p.base for o in u.ops) and \
                        u.x["callee"].lstrip("@") not in ("time",) and not u.x["callee"].lstrip("@").startswith("llvm."):
                    return False
            return True
        return False
    if i.res and not okval(i.res, set()):
        return False
    return const_int(i.ops[0]) == 0 or okaddr(i.ops[0], set())


def loader(f, i):
    """a file named by the partial loader's own directory and extension"""
    fields = {(an.place(f, x.ops[0]) or ("", ""))[1] for x in f.insts() if x.op == "load"}
    return {"base_path", "extension"} <= fields
