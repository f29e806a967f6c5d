"""C24: the library never ends the process nor writes to its streams."""
from .. import an
from ..an import const_int, path

RULE = ("Every call of a function that ends the process, waits for a debugger or writes to the standard streams, reachable from the "
        "library's functions (handler slots resolved), must be dominated by the condition that justifies it: an error raised with no "
        "handler installed, an impossible kind (all enumerators excluded), a caller's handle of another type, the logging helper with "
        "no logging function set, a debugging switch, or the message preceding one of these.")
ASSUME = ["assertions are compiled out (the build defines NDEBUG)", "a map never holds a thousand million entries"]

ENDS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "__assert_fail", "raise", "kill", "pthread_exit", "llvm.trap", "llvm.debugtrap",
        "__assert", "err", "errx", "verr", "verrx", "execv", "execve", "execl", "execvp", "__stack_chk_fail", "terminate", "at_quick_exit"}
STREAM = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fwrite": 3, "fputc": 1, "putc": 1, "_IO_putc": 1, "__fprintf_chk": 0, "__vfprintf_chk": 0,
          "fputs_unlocked": 1, "fwrite_unlocked": 3, "putc_unlocked": 1, "fflush": 0}
PLAIN = {"printf", "puts", "putchar", "vprintf", "perror", "__printf_chk", "warn", "warnx", "vwarn", "vwarnx", "psignal", "putchar_unlocked",
         "syslog", "vsyslog", "error", "malloc_stats", "talloc_report_full", "talloc_report"}
FD = {"write", "dprintf", "vdprintf", "pwrite", "writev"}
JUMPS = {"longjmp", "_longjmp", "siglongjmp", "__longjmp_chk"}


def run(ctx, rep):
    P = ctx.inl
    lib = [f for f in P.functions.values() if not f.mod.unit.startswith("bin/") and not f.avail]
    roots = {f.uname for f in lib if not f.internal}
    live = P.reachable(roots)
    n = 0
    for f in lib:
        if f.uname not in live:
            continue
        n += 1
        for i in f.insts():
            if i.op != "call":
                continue
            c = i.x["callee"]
            c = c.lstrip("@")
            if c in ENDS or c.startswith("%") and ends_hook(f, c):
                why = reason(P, f, i)
                rep.check(why is not None, "end", "%s|%s" % (f.name, c), i.where(),
                          "%s ends the process with %s, not because an error has no handler" % (f.name, c))
            elif c in JUMPS:
                rep.check(jump_ok(f, i), "end", "%s|%s" % (f.name, c), i.where(), "%s jumps without a handler being installed" % f.name)
            elif c in PLAIN or c in STREAM or c in FD:
                if c in STREAM and STREAM[c] < len(i.ops) and not stdstream(f, i.ops[STREAM[c]]):
                    continue
                if c in FD and (const_int(i.ops[0]) not in (0, 1, 2)):
                    continue
                out = c in PLAIN and c not in ("perror", "warn", "warnx", "vwarn", "vwarnx") or c in FD and const_int(i.ops[0]) == 1 or \
                    c in STREAM and "stdout" in (stdstream(f, i.ops[STREAM[c]]) or "")
                ok = not out and (log_helper(P, f, i) or debugging(f, i) or before_end(P, f, i))
                rep.check(ok, "output", "%s|%s" % (f.name, c), i.where(), "%s writes to the %s of the process" % (
                    f.name, "standard output" if out else "standard error"))
    rep.info["functions_examined"] = n
    rep.floor("end", 6, "process ending calls")
    rep.floor("output", 6, "output calls")
    # the compiler's own markers of impossible paths must not be reachable by a failed allocation or input: 'unreachable' only follows
    # a call that does not return
    for f in lib:
        for b in f.order:
            if b.term.op == "unreachable":
                last = next((x for x in reversed(b.insts[:-1]) if x.op != "store" and not (x.op == "call" and x.x["callee"].lstrip("@").startswith("llvm."))), None)
                ok = last is not None and last.op == "call"
                if not ok and len(b.insts) <= 1:
                    ok = all(p.term.op == "switch" and switch_full(P, f, p) for p in b.preds)
                rep.check(ok, "unreachable", f.name, b.term.where(), "%s is undefined on a path it can take" % f.name)


def switch_full(P, f, b):
    """the default of a switch over an enumeration is never taken"""
    cs = {int(c) for c, l in b.term.x["cases"]}
    return any(set(d.values()) <= cs for M in P.mods.values() for d in M.enums.values() if d)


def ends_hook(f, c):
    d = f.defs.get(c)
    return d is not None and d.op == "load" and d.ops[0] in ("@handlebars_exit",)


def stdstream(f, v):
    for o in an.leaves(f, v):
        d = f.defs.get(o)
        if d is not None and d.op == "load" and d.ops[0] in ("@stderr", "@stdout", "@__stderrp", "@__stdoutp"):
            return d.ops[0]
        if o in [p[1] for p in f.params]:
            return None
    return None


def loadof(f, v):
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    return d if d is not None and d.op == "load" else None


def jump_ok(f, i):
    return any(fc[0] == "ne" and const_int(fc[2]) == 0 and loadof(f, fc[1]) is not None and
               (an.place(f, loadof(f, fc[1]).ops[0]) or ("", ""))[1] == "jmp" for fc in an.dom_facts(i))


def reason(P, f, i):
    """why ending the process here is justified, or None"""
    r = reason_facts(P, f, an.dom_facts(i))
    b = i.block
    while r is None and len(b.preds) == 1:
        b = b.preds[0]
    if r is None and len(b.preds) > 1:
        rs = [reason_facts(P, f, an.edge_facts(p, b) + an.dom_facts(p)) for p in b.preds]
        if all(rs):
            r = rs[0]
    return r


def reason_facts(P, f, fs):
    types = set(P.enum_type("handlebars_value_type").values())
    kinds = {}
    named = set()
    for fc in fs:
        l = loadof(f, fc[1])
        c = const_int(fc[2]) if isinstance(fc[2], str) else fc[2]
        pl = an.place(f, l.ops[0]) if l is not None else None
        if fc[0] == "eq" and c == 0 and pl and pl[1] == "jmp":
            return "no handler"
        if pl and pl[:2] == ("handlebars_value", "type"):
            if fc[0] == "ne" and c is not None:
                kinds.setdefault(path(f, l.ops[0]).key(), set()).add(c)
            elif fc[0] in ("ugt", "uge", "sgt") and c is not None:
                kinds.setdefault(path(f, l.ops[0]).key(), set()).update(t for t in types if (t <= c if fc[0] != "uge" else t < c))
        d = f.defs.get(an.strip(f, fc[1])) if isinstance(fc[1], str) else None
        if d is not None and d.op == "call":
            cal = d.x["callee"].lstrip("@")
            if cal in ("strcmp", "strncmp") and fc[0] == "ne" and c == 0 and any(
                    loadof(f, o) is not None and (an.place(f, loadof(f, o).ops[0]) or ("", ""))[1] == "typ" for o in d.ops):
                return "handle of another type"
            if "talloc" in cal and fc[0] == "eq" and c == 0:
                for o in d.ops:
                    if o.startswith("@"):
                        named.add((f.mod.cstr(o) or b"").rstrip(b"\0"))
        # the table of capacities is exhausted
        if c is not None and fc[0] in ("eq", "uge", "ne", "ugt") and c >= 8 and d is not None and d.op in ("phi", "add"):
            for g, (fl, t, init) in f.mod.globals.items():
                if init and init.startswith("[") and t and t.startswith("[%d x i32]" % c):
                    vs = [int(e[1]) for e in an.parse_aggregate(init)]
                    if vs == sorted(vs) and vs[-1] > 1 << 30 and any(x.op == "load" and path(f, x.ops[0]).base == g or
                                                                     x.op == "load" and path(f, x.ops[0]).base == "@" + g for x in f.insts()):
                        return "no capacity is large enough"
    for k, s in kinds.items():
        if types <= s:
            return "impossible kind"
    # a kind the caller had to rule out: functions of the interface the library itself never calls
    base = {p[1] for p in f.params}
    called = any(f.uname in ts for g, ts in P.cg.items() if not g.startswith("do_"))
    for k, s in kinds.items():
        mine = k[0] in base or f.defs.get(k[0]) is not None and f.defs[k[0]].op == "load" and path(f, f.defs[k[0]].ops[0]).base in base
        if s and mine and (not called or own_handles(P, f)):
            return "caller's value of another kind"
    if named:
        want = {x.encode() for x in contexts(P)}
        if {b"struct " + w for w in want} <= named:
            return "not a context"
    for k, s in kinds.items():
        if 0 in s and k[0] in {x.res for x in f.insts() if x.op == "load" and path(f, x.ops[0]).base in base} and dtor_first(P, f):
            return "a value must be destroyed before it goes out of scope"
    return None


def own_handles(P, f):
    """the library asks only for handles of types it made in the same unit"""
    for g in P.functions.values():
        for i in g.insts():
            if i.op == "call" and f.uname in P.targets(i) and not g.mod.unit.startswith("bin/"):
                c = [g.mod.cstr(o) for o in i.ops if o.startswith("@")]
                if not c:
                    return False
                made = {h.mod.cstr(o) for h in P.functions.values() if h.mod is g.mod for x in h.insts()
                        if x.op == "call" and "handlebars_ptr_ctor" in x.x["callee"] for o in x.ops if o.startswith("@")}
                if not set(c) & made:
                    return False
    return True


def contexts(P):
    """structures that begin with a context"""
    out = {"handlebars_context"}
    for M in P.mods.values():
        for s, fl in M.struct_fields.items():
            if fl and fl[0][1] == 0 and fl[0][0] == "ctx" and s in ("handlebars_parser", "handlebars_compiler", "handlebars_vm", "handlebars_cache"):
                out.add(s)
    return out


def dtor_first(P, f):
    """every call of f on a scoped value follows the value's destruction"""
    n = 0
    for g in P.functions.values():
        if g.mod.unit.startswith("bin/"):
            continue
        for i in g.insts():
            if i.op == "call" and f.uname in P.targets(i):
                n += 1
                slot = i.ops[0]
                vals = {an.strip(g, x.ops[0]) for x in g.insts() if x.op == "store" and path(g, x.ops[1]).key() == path(g, slot).key()}
                if not any(x.op == "call" and x.x["callee"].lstrip("@") == "handlebars_value_dtor" and an.inst_dominates(x, i) and
                           (an.strip(g, x.ops[0]) in vals or not vals or loadof(g, x.ops[0]) is not None and
                            path(g, loadof(g, x.ops[0]).ops[0]).key() == path(g, slot).key()) for x in g.insts()):
                    return False
    return n > 0


def log_helper(P, f, i):
    """the fallback of the logging helper"""
    for fc in an.dom_facts(i):
        d = f.defs.get(an.strip(f, fc[1])) if isinstance(fc[1], str) else None
        if fc[0] == "eq" and const_int(fc[2]) == 0 and d is not None:
            if d.op == "call" and d.x["callee"].lstrip("@") == "handlebars_vm_get_log_func":
                return True
            if d.op == "load" and (an.place(f, d.ops[0]) or ("", ""))[1] == "log_func":
                return True
    return False


def debugging(f, i):
    for fc in an.dom_facts(i):
        if fc[0] == "ne" and const_int(fc[2]) == 0:
            d = f.defs.get(an.strip(f, fc[1])) if isinstance(fc[1], str) else None
            if d is not None and d.op == "call" and d.x["callee"].lstrip("@") in ("getenv", "secure_getenv"):
                return True
            if d is not None and d.op == "load" and ((an.place(f, d.ops[0]) or ("", ""))[1] in ("yy_flex_debug_r",) or
                                                     d.ops[0] in ("@handlebars_yy_debug", "@yydebug")):
                return True
    return False


def before_end(P, f, i):
    """every path from here ends the process at a justified place"""
    seen, work = set(), [(i.block, i.idx + 1)]
    found = False
    while work:
        b, k = work.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for x in b.insts[k:]:
            if x.op == "call" and (x.x["callee"].lstrip("@") in ENDS):
                if reason(P, f, x) is None:
                    return False
                found = stop = True
                break
        if stop:
            continue
        if not b.succs:
            return False
        work += [(s, 0) for s in b.succs]
    return found
