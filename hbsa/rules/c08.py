"""C08: errors reach the handler that is in effect, and handlers are put back."""
from .. import an
from ..an import const_int, path
from ..flow import Flow

RULE = ("Typestate of the error jump target in every library function that catches errors: on every normal return and before every "
        "throw made after catching, the target has been put back to the value it had on entry (or its context destroyed); a caught "
        "error is rethrown with the number, location and message it was recorded with whenever the caller has a handler, and otherwise "
        "reported by an empty result; nothing that can throw runs before the handler is installed. Local variables changed between "
        "setjmp and a possible throw and read after catching are volatile. The throwing functions record number, message and location "
        "before jumping and never return. Every object with its own context shares its creator's error state.")
ASSUME = ["setjmp/longjmp behave as specified by C11"]
E_JMP = ("handlebars_error", "jmp")
THROW = ("handlebars_throw", "handlebars_throw_ex")


def run(ctx, rep):
    P = ctx.inl
    fns = [f for f in P.functions.values() if not f.mod.unit.startswith("bin") and not f.avail and
           any(i.op == "call" and i.x["callee"] in ("_setjmp", "setjmp", "__sigsetjmp") for i in f.insts())]
    throwing = P.callers_closure({"handlebars_throw", "handlebars_throw_ex", "longjmp"},
                                 {n for n in P.functions if n.endswith(("_dtor", "_delref"))}) | {"?"}
    for f in fns:
        target(P, f, throwing, rep)
    rep.floor("target", 8, "exits of catching functions")
    clobber(ctx, throwing, {f.mod.unit for f in fns}, rep)
    rep.floor("volatile", 3, "variables read after catching")
    thrower(P, rep)
    rep.floor("throw", 2, "throwing functions")
    codes(P, rep)
    bind(P, rep)
    rep.floor("bind", 4, "constructors")


def ekey(f, v):
    """identity of an error structure: where its pointer is kept"""
    d = f.defs.get(v)
    if d is not None and d.op == "load":
        p = path(f, d.ops[0])
        return (p.base, p.off)
    if d is not None and d.op == "phi":
        s = {ekey(f, l) for l in an.leaves(f, v)}
        return s.pop() if len(s) == 1 else (v, None)
    return (v, None)


def jmpkey(f, a):
    pl = an.place(f, a)
    return ekey(f, pl[2]) if pl and pl[:2] == E_JMP else None


def target(P, f, throwing, rep):
    sj = [i for i in f.insts() if i.op == "call" and "setjmp" in i.x["callee"]]
    prevs, stale = {}, set()
    created = {i.res for i in f.insts() if i.op == "call" and i.x["callee"].startswith("handlebars_context_ctor")}
    bufs = set()
    for i in f.insts():
        if i.op == "alloca" and "jmp_buf" in (f.mod.varname(f, i.res) or "") or i.op == "alloca" and "__jmp_buf_tag" in str(i.ty) + str(i.x):
            bufs.add(i.res)
    for s in sj:
        bufs |= {path(f, o).base for o in s.ops if f.defs.get(path(f, o).base) is not None and f.defs[path(f, o).base].op == "alloca"}
    maybe = set()
    for i in f.insts():
        if i.op == "store" and jmpkey(f, i.ops[1]) and path(f, i.ops[0]).base in bufs:
            maybe.add(jmpkey(f, i.ops[1]))
    e_off = an_off(P)

    def get(t, k):
        for a, b in t[1]:
            if a == k:
                return b
        return "entry"

    def put(t, k, v):
        return (t[0], frozenset({x for x in t[1] if x[0] != k} | ({(k, v)} if v != "entry" else set())), t[2])
    bad = []

    def tr(i, t, env):
        if i.op == "load":
            k = jmpkey(f, i.ops[0])
            if k:
                (prevs.__setitem__(i.res, k) if get(t, k) == "entry" and t[0] == "try" else stale.add(i.res))
        elif i.op == "store":
            k = jmpkey(f, i.ops[1])
            if k:
                v = i.ops[0]
                if v in prevs and v not in stale and prevs[v] == k:
                    return put(t, k, "entry")
                if path(f, v).base in bufs:
                    return put(t, k, "mine")
                if (v == "null" or F[0].val(v, env) == 0) and any(F[0].val(p, env) == 0 for p, q in prevs.items() if q == k):
                    return put(t, k, "entry")
                return put(t, k, "other")
        elif i.op == "call":
            c = i.x["callee"]
            if i in sj:
                t0 = t
                for k in maybe - {k for k, _ in t[1]}:
                    t0 = put(t0, k, "maybe")
                return [("@env", ("try", t[1], True), {i.res: 0}), ("@env", ("caught", t0[1], True), {i.res: "nn"})]
            if c in ("handlebars_context_dtor", "talloc_free", "_talloc_free") or c.startswith("*"):
                b = path(f, i.ops[0]).base if i.ops else None
                for k, v in list(t[1]):
                    if k[0] == b:
                        t = put(t, k, "entry")
            if c in THROW and t[0] == "caught":
                p = path(f, i.ops[0])
                k = (p.base, p.off + e_off)
                st = get(t, k)
                if st != "entry" and k[0] not in created:
                    bad.append((i, "throws to the handler of this very function"))
                known = [F[0].val(v, env) for v, q in prevs.items() if q == k and v not in stale]
                if "nn" not in known and not any(isinstance(x, int) and x for x in known):
                    bad.append((i, "throws after catching without knowing that the caller has a handler"))
                if c == "handlebars_throw_ex":
                    m = rethrow(P, f, i, env, F[0], maybe | {k}, e_off, created)
                    if m:
                        bad.append((i, m))
                else:
                    bad.append((i, "replaces the error that was caught"))
            if t[2] is False and not f.internal and not any(F[0].val(v, env) == "nn" for v in prevs) and (P.targets(i) & throwing) and not c.startswith("llvm."):
                bad.append((i, "can fail before the handler is installed"))
        return t
    F = [None]
    kp = [s.res for s in sj] + [i.res for i in f.insts() if i.op == "load" and (jmpkey(f, i.ops[0]) or num_of(f, i))]
    rv = [i.ops[0] for i in f.insts() if i.op == "ret" and i.ops]
    start = ("try", frozenset(), False)
    F[0] = Flow(f, start, tr, cap=400, extra=kp + rv, keep=kp + rv)
    F[0].run()
    if F[0].widened:
        raise an.AnalysisError("C08: too many paths in " + f.name)
    for r, t, env in F[0].exits:
        msg = None
        for k, v in t[1]:
            if v == "maybe" and k[0] in created:
                msg = msg or ("the nested context is left behind with a handler in this function" if t[0] == "try" else None)
            elif v in ("mine", "maybe"):
                msg = "returns with the error handler still pointing into its own frame"
            elif v == "other":
                msg = "returns with a different error handler than it was called with"
        if t[0] == "caught" and msg is None and not f.internal:
            if not any(F[0].val(p, env) == 0 for p in prevs if p not in stale):
                msg = "swallows an error although the caller may have a handler"
            elif r.ops and F[0].val(r.ops[0], env) != 0:
                msg = "reports success after catching an error"
        rep.check(msg is None, "target", f.name, r.where(), "%s %s" % (f.name, msg))
    for i, m in bad:
        rep.bad("rethrow", "%s|%s" % (f.name, m), i.where(), "%s %s" % (f.name, m))
    n = len([i for i in f.insts() if i.op == "call" and i.x["callee"] in THROW])
    if not bad:
        rep.ok("rethrow", f.name, n)
    if not f.internal:
        after = [t for r, t, env in F[0].exits if t[0] == "caught"]
        rep.check(bool(after) or n, "target", f.name + "|caught", f.name, "%s never handles the errors it catches" % f.name)


def an_off(P):
    for n, off, _, _ in P.struct("handlebars_context"):
        if n == "e":
            return off // 8
    raise an.AnalysisError("C08: error state of a context not found")


def own_structs(P):
    """structures starting with an embedded context"""
    if not hasattr(P, "_own_ctx"):
        own = set()
        for M in P.mods.values():
            for n, fs in M.struct_fields.items():
                if fs[0][1] == 0 and M.mdfield(fs[0][2] or "", "name") == "handlebars_context":
                    own.add(n)
        P._own_ctx = own
    return P._own_ctx


def err_field(f, a):
    """(member of struct handlebars_error, identity of the structure) at address a"""
    pl = an.place(f, a)
    if pl and pl[0] == "handlebars_error":
        return pl[1], ekey(f, pl[2])
    p = path(f, a)
    d = f.defs.get(p.base)
    if d is not None and d.op == "load" and not p.sym:
        q = path(f, d.ops[0])
        s = an.pointee(f, q.base)
        if (s == "handlebars_context" or s in own_structs(f.prog)) and q.off == an_off(f.prog) and not q.sym:
            for n, off, _, _ in f.prog.struct("handlebars_error"):
                if off // 8 == p.off:
                    return n, (q.base, q.off)
    return None, None


def num_of(f, i):
    return err_field(f, i.ops[0])[0] == "num"


def rethrow(P, f, i, env, F, keys, e_off, created):
    """the error passed on is one that was recorded, completely"""
    n = f.defs.get(i.ops[1])
    what, src = err_field(f, n.ops[0]) if n is not None and n.op == "load" else (None, None)
    if what != "num":
        return "replaces the error that was caught"
    if len(i.ops) < 5:
        return "does not pass on the message of the error"
    m = f.defs.get(i.ops[4])
    if m is None or m.op != "load" or err_field(f, m.ops[0]) != ("msg", src):
        return "does not pass on the message of the error"
    if err_field(f, i.ops[2]) != ("loc", src):
        return "does not pass on the location of the error"
    if f.mod.cstr(i.ops[3]) != b"%s":
        return "does not pass on the message unchanged"
    others = [k for k in keys if k != src]
    if not others:
        return None
    # several contexts can fail here: the one passed on is known to have
    for x in f.insts():
        if x.op == "load" and num_of(f, x):
            k = err_field(f, x.ops[0])[1]
            v = F.val(x.res, env)
            if k == src and (v == "nn" or isinstance(v, int) and v):
                return None
            if k in others and v == 0:
                return None
    return "may pass on an error state in which no error was recorded"


# -- variables changed inside the try region ---------------------------------------------------------
def clobber(ctx, throwing, units, rep):
    P = an.Prog(ctx.tree.plain_view(sorted(units)))
    for f in P.functions.values():
        for s in [i for i in f.insts() if i.op == "call" and "setjmp" in i.x["callee"]]:
            caught, zero = branch(f, s)
            if caught is None:
                rep.bad("volatile", f.name + "|branch", s.where(), "%s does not distinguish catching from trying" % f.name)
                continue
            cr = an.reach_blocks(f, caught) | {caught}
            tr = (an.reach_blocks(f, zero) | {zero}) - cr
            for a in [i for i in f.insts() if i.op == "alloca"]:
                st = [u for u in f.insts() if u.op == "store" and u.ops[1] == a.res and u.block in tr]
                if not st or not read_first(f, a.res, caught):
                    continue
                hit = None
                for u in st:
                    if volatile(u):
                        continue
                    if any(c.op == "call" and c.block in tr and (c.block is u.block and c.idx > u.idx or c.block in after(f, u.block)) and
                           (P.targets(c) & throwing) for c in f.insts()):
                        hit = u
                rep.check(hit is None, "volatile", "%s|%s" % (f.name, f.mod.varname(f, a.res) or a.res), (hit or a).where(),
                          "%s changes %s before a possible error and reads it after catching, but it is not volatile" % (
                              f.name, a.res))


def after(f, b):
    r = set()
    for x in b.succs:
        r |= an.reach_blocks(f, x)
    return r


def branch(f, s):
    """(block entered on catching, block entered on trying)"""
    for b in f.order:
        t = b.term
        if t.op == "br" and len(t.x) == 2:
            for x in b.succs:
                for pr, a, c in [z[:3] for z in an.edge_facts(b, x)]:
                    if a == s.res and const_int(c) == 0:
                        o = [y for y in b.succs if y is not x][0]
                        return (x, o) if pr == "ne" else (o, x)
    return None, None


def read_first(f, a, b):
    """a is read before it is written on some path from block b"""
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        done = False
        for i in x.insts:
            if i.op == "load" and i.ops[0] == a:
                return True
            if i.op == "store" and i.ops[1] == a:
                done = True
                break
            if i.op == "call" and a in i.ops:
                return True
        if not done:
            work += x.succs
    return False


def volatile(i):
    return i.x == "volatile"


# -- the throwing functions ------------------------------------------------------------------------
def thrower(P, rep):
    for n in THROW:
        f = P.need(n)
        num = f.params[1][1]
        for i in f.insts():
            if i.op == "ret":
                rep.bad("throw", n + "|ret", i.where(), n + " can return")
        js = [i for i in f.insts() if i.op == "call" and i.x["callee"] == "longjmp"]
        if not js:
            raise an.AnalysisError("C08: %s does not jump" % n)
        ctxs = {f.params[0][1]}

        def tr(i, t, env):
            if i.op == "store":
                pl = an.place(f, i.ops[1])
                if pl and pl[0] == "handlebars_error":
                    return t | {(pl[1], i.ops[0] if pl[1] == "num" else "set")}
                if pl and pl[0] == "handlebars_locinfo":
                    return t | {("loc", "set")}
            elif i.op == "call" and (i.x["callee"].startswith("llvm.mem") or i.x["callee"] in ("memset", "memcpy")):
                p = path(f, i.ops[0])
                if p.steps and p.steps[-1] == ("handlebars_error", "loc"):
                    src = path(f, i.ops[1]).base if "set" not in i.x["callee"] else "none"
                    return t | {("loc", src)}
            elif i in js:
                at.append((i, t, dict(env)))
            return t
        at = []
        keep = [p[1] for p in f.params[2:3]] if n.endswith("_ex") else []
        F = Flow(f, frozenset(), tr, extra=keep, keep=keep).run()
        for i, t, env in at:
            nums = {v for k, v in t if k == "num"}
            msg = None
            if num not in nums:
                msg = "jumps without recording the error number"
            elif any(k == "num" and v != num and const_int(v) != P.enum("HANDLEBARS_NOMEM") for k, v in t):
                msg = "records another error number"
            elif not any(k == "msg" for k, _ in t):
                msg = "jumps without recording the message"
            elif not any(k == "loc" for k, _ in t):
                msg = "jumps without recording the location"
            elif n.endswith("_ex") and F.val(f.params[2][1], env) not in (0,) and f.params[2][1] not in {v for k, v in t if k == "loc"}:
                msg = "does not record the location it was given"
            else:
                d = f.defs.get(i.ops[0])
                pl = an.place(f, d.ops[0]) if d is not None and d.op == "load" else None
                if not pl or pl[:2] != E_JMP:
                    msg = "does not jump to the handler in effect"
                elif const_int(i.ops[1]) == 0:
                    msg = "jumps with a zero result"
            rep.check(msg is None, "throw", n, i.where(), "%s %s" % (n, msg))


def codes(P, rep):
    for f in P.functions.values():
        if f.avail:
            continue
        for i in f.insts():
            if i.op == "call" and i.x["callee"] in THROW:
                c = const_int(i.ops[1])
                rep.check(c != 0, "code", f.name, i.where(), "%s raises an error with the number of success" % f.name)


def bind(P, rep):
    """an object with a context of its own reports errors to the context it was created from"""
    own = own_structs(P)
    if not own:
        raise an.AnalysisError("C08: no structures with an embedded context")
    for f in P.functions.values():
        if f.avail or f.internal or "_ctor" not in f.name or f.mod.unit.startswith("bin"):
            continue
        if ret_struct(f) not in own:
            continue
        pars = [f.params[n][1] for n, t in enumerate(an.fn_sig(f.mod, f)[1]) if an.ptr_struct(f.mod, t) == "handlebars_context"]
        if not pars:
            continue

        def tr(i, t, env):
            if i.op == "call" and i.x["callee"] == "handlebars_context_bind" and i.ops[0] in pars:
                return t | {path(f, i.ops[1]).base}
            if i.op == "store":
                pl = an.place(f, i.ops[1])
                p = path(f, i.ops[1])
                d = f.defs.get(i.ops[0])
                if d is not None and d.op == "load" and path(f, d.ops[0]).base in pars and (an.place(f, d.ops[0]) or ("", ""))[1] == "e" and p.off == an_off(P):
                    return t | {p.base}
            return t
        F = Flow(f, frozenset(), tr, extra=[r.ops[0] for r in f.insts() if r.op == "ret"], keep=[r.ops[0] for r in f.insts() if r.op == "ret"]).run()
        for r, t, env in F.exits:
            if F.val(r.ops[0], env) == 0:
                continue
            ok = any(path(f, l).base in t for l in an.leaves(f, r.ops[0]))
            rep.check(ok, "bind", f.name, r.where(), "%s does not share the error state of the context it was given" % f.name)


def ret_struct(f):
    return an.ptr_struct(f.mod, an.fn_sig(f.mod, f)[0])
