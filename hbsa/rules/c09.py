"""C09: rendering leaves the virtual machine as it found it."""
from .. import an, vmq
from ..an import const_int, path
from ..flow import Flow

RULE = ("For every function that runs templates and changes a member of the virtual machine, typestate of each member over all paths, "
        "including those entered by a caught error (with the state every possible throw leaves behind): on every exit the member holds "
        "the value it had on entry. Value stacks are cut back to the height saved on entry, the data variables are put back, output of "
        "a nested program goes to a buffer of its own which is what is returned, and partial blocks are popped as often as pushed on "
        "every path of every opcode.")
ASSUME = ["members changed by application code in helpers are the application's"]
FIELDS = ("module", "flags", "depth", "buffer", "data", "last_context", "delim_open", "delim_close",
          "stack", "contextStack", "hashStack", "blockParamStack", "partialBlockStack")
STACKS = FIELDS[-5:]
SAVE, RESTORE = "handlebars_stack_save", "handlebars_stack_restore"


class VM:
    def __init__(self, P):
        self.P = P
        self.D = vmq.Dispatch(P)
        self.off = {off // 8: n for n, off, _, _ in P.struct("handlebars_vm")}
        self.own = {}
        for u, f in P.functions.items():
            s = set()
            for i in f.insts():
                if i.op == "store":
                    n = self.field(f, i.ops[1])
                    if n and not (n[1] in STACKS and self.same_stack(f, i.ops[0], n[1])):
                        s.add(n[1])
                elif i.op == "call" and i.x["callee"].startswith("handlebars_value_") and i.ops and (self.field(f, i.ops[0]) or ("", ""))[1] == "data":
                    s.add("data")
            self.own[u] = s
        self.runs = P.callers_closure({self.D.fn.uname})
        self.throwing = P.callers_closure({"handlebars_throw", "handlebars_throw_ex", "longjmp"},
                                          {n for n in P.functions if n.endswith(("_dtor", "_delref"))}) | {"?"}
        self.full = {u for u in self.runs if u in P.functions and any(
            i.op == "call" and "setjmp" in i.x["callee"] for i in P.functions[u].insts()) and P.functions[u].mod.unit == "handlebars_vm.c"}
        if not self.full:
            raise an.AnalysisError("C09: no function catching errors of a render")
        self.nested = {u for u in self.runs if u not in self.full and u in P.functions and self.own[u] & set(FIELDS) and u != self.D.fn.uname}
        self.mods()

    def same_stack(self, f, v, k):
        """v is the stack of member k after pushing to it"""
        for x in an.leaves(f, v):
            d = f.defs.get(x)
            if d is not None and d.op == "call" and d.x["callee"] == "handlebars_stack_push":
                d = f.defs.get(d.ops[0])
            if d is None or d.op != "load" or (self.field(f, d.ops[0]) or ("", ""))[1] != k:
                return False
        return True

    def field(self, f, a):
        """(vm, member) at address a"""
        pl = an.place(f, a)
        if pl and pl[0] == "handlebars_vm" and pl[1] in FIELDS:
            p = path(f, a)
            return p.base, pl[1]
        p = path(f, a)
        if isinstance(p.base, str) and an.pointee(f, p.base) == "handlebars_vm" and not p.sym and self.off.get(p.off) in FIELDS:
            return p.base, self.off[p.off]
        return None

    def mods(self):
        """members a call may leave changed on normal return"""
        req = {u: set(FIELDS) for u in self.full}
        for u in self.nested:
            req[u] = (self.own[u] | {"buffer", "data"}) - set(STACKS) - {"delim_open", "delim_close"}
        P = self.P
        fx = {u: set(self.own.get(u, ())) - req.get(u, set()) for u in P.functions}
        fx["?"] = set()
        ch = True
        while ch:
            ch = False
            for u, cs in P.cg.items():
                n = set(fx[u])
                for c in cs:
                    n |= fx.get(c, set())
                n -= req.get(u, set())
                if n != fx[u]:
                    fx[u] = n
                    ch = True
            n = set().union(*[fx[u] for u in P.addr_taken if u in fx])
            if n != fx["?"]:
                fx["?"] = n
                ch = True
        self.fx = fx


def run(ctx, rep):
    P = ctx.inl
    V = VM(P)
    for u in sorted(V.full | V.nested):
        members(V, P.functions[u], u in V.full, rep)
    rep.floor("member", 20, "members of the virtual machine")
    for u in sorted(V.nested):
        f = P.functions[u]
        if any(i.op == "call" and i.x["callee"] == SAVE for i in f.insts()) or V.D.fn.uname in P.cg[u] and "buffer" in V.own[u]:
            stacks(V, f, rep)
            buffer(V, f, rep)
    rep.floor("stack", 5, "stack heights")
    rep.floor("buffer", 1, "nested output buffers")
    balance(V, rep)
    rep.floor("block", 3, "partial block pushes")


def members(V, f, full, rep):
    P = V.P
    vms = {f.params[n][1] for n, t in enumerate(an.fn_sig(f.mod, f)[1]) if an.ptr_struct(f.mod, t) == "handlebars_vm"}
    sj = [i for i in f.insts() if i.op == "call" and "setjmp" in i.x["callee"]]
    saved, stale, copies = {}, set(), {}
    thrown = set()
    want = set(FIELDS) if full else (V.own[f.uname] | {"buffer", "data"}) - set(STACKS) - {"delim_open", "delim_close"}
    if full:
        want -= set(STACKS) - V.own[f.uname]

    def get(t, k):
        for a, b in t[1]:
            if a == k:
                return b
        return "entry"

    def put(t, k, v):
        return (t[0], frozenset({x for x in t[1] if x[0] != k} | ({(k, v)} if v != "entry" else set())))
    H = {}

    def fld(a):
        n = V.field(f, a)
        return n[1] if n and n[0] in vms else None

    def tr(i, t, env):
        F = H["F"]
        if i.op == "load":
            k = fld(i.ops[0])
            if k:
                (saved.__setitem__(i.res, k) if get(t, k) == "entry" else stale.add(i.res))
                if get(t, k) == "entry":
                    return put(t, ("ld", i.res), k)
        elif i.op == "store":
            k = fld(i.ops[1])
            if k:
                v = i.ops[0]
                if k in STACKS and V.same_stack(f, v, k):
                    return t
                ok = get(t, ("ld", v)) == k
                if not ok and (v == "null" or F.val(v, env) == 0):
                    # the stacks are set up and taken down together
                    ks = STACKS if k in STACKS else (k,)
                    ok = any(F.val(x, env) == 0 and get(t, ("ld", x)) in ks for x in saved)
                return put(t, k, "entry" if ok else "changed")
        elif i.op == "call":
            c = i.x["callee"]
            if i in sj:
                out = [("@env", ("try", t[1]), {i.res: 0})] if H["phase"] == 1 else []
                if H["phase"] == 2:
                    for t2, e2 in thrown:
                        e = dict(e2)
                        e[i.res] = "nn"
                        out.append(("@env", ("caught", t2), e))
                return out
            if c == "handlebars_value_value" and len(i.ops) > 1:
                d, s = fld(i.ops[0]), fld(i.ops[1])
                if s and not d:
                    return put(t, ("cp", path(f, i.ops[0]).base), s) if get(t, s) == "entry" else put(t, ("cp", path(f, i.ops[0]).base), "entry")
                if d:
                    return put(t, d, "entry" if get(t, ("cp", path(f, i.ops[1]).base)) == d else "changed")
            elif i.ops and fld(i.ops[0]) == "data" and c.startswith("handlebars_value_") and c.split("_")[2] in (
                    "null", "str", "integer", "float", "boolean", "map", "array", "dtor", "init", "user", "closure", "ptr"):
                return put(t, "data", "changed")
            tg = P.targets(i)
            if c.startswith("llvm.") or not any(path(f, o).base in vms for o in i.ops if isinstance(o, str)) and not tg & V.runs:
                return t
            n = set()
            for u in tg:
                n |= V.fx.get(u, set()) if u != "?" else V.fx["?"]
            if tg & V.runs or "?" in tg:
                if sj and H["phase"] == 1 and t[0] == "try":
                    t2 = t
                    for k in set().union(*[thru(V, u) for u in tg]) & set(FIELDS):
                        t2 = put(t2, k, "changed")
                    thrown.add((t2[1], frozenset(env.items())))
            for k in n & set(FIELDS):
                t = put(t, k, "changed")
            if sj and H["phase"] == 1 and t[0] == "try" and tg & V.throwing:
                thrown.add((t[1], frozenset(env.items())))
        return t
    loads = [i.res for i in f.insts() if i.op == "load" and fld(i.ops[0])] + [s.res for s in sj]
    exits = []
    for ph in ((1, 2) if sj else (1,)):
        H["phase"] = ph
        F = H["F"] = Flow(f, ("start", frozenset()), tr, cap=600, extra=loads, keep=loads + cells(f))
        F.run()
        if F.widened:
            raise an.AnalysisError("C09: too many paths in " + f.name)
        exits += [x for x in F.exits if ph == 1 or x[1][0] == "caught"]
    for k in sorted(want):
        bad = next(((r, t) for r, t, env in exits if get(t, k) == "changed"), None)
        rep.check(bad is None, "member", "%s|%s" % (f.name, k), bad[0].where() if bad else f.name,
                  "%s returns %swith a different %s" % (f.name, "after an error " if bad and bad[1][0] == "caught" else "", k))
    # passing the error on: the same holds where the function throws after catching
    if sj:
        rethrows(V, f, H, tr, thrown, loads, want, get, rep)


def cells(f):
    """memory cells whose content must survive from a throw to the handler"""
    out = []
    for i in f.insts():
        if i.op == "alloca":
            out.append((i.res, 0))
    return out


def thru(V, u):
    """members a call may have changed when it is left by an error"""
    P = V.P
    seen, work, out = set(), [u], set()
    while work:
        x = work.pop()
        if x in seen or x in V.full:
            continue
        seen.add(x)
        out |= V.own.get(x, set())
        work += P.cg.get(x, ())
        if x == "?":
            out |= V.fx["?"]
    return out - set(STACKS)


def rethrows(V, f, H, tr, thrown, loads, want, get, rep):
    found = []

    def tr2(i, t, env):
        if i.op == "call" and i.x["callee"] in ("handlebars_throw", "handlebars_throw_ex") and t[0] == "caught":
            found.append((i, t))
        return tr(i, t, env)
    H["phase"] = 2
    F = H["F"] = Flow(f, ("start", frozenset()), tr2, cap=600, extra=loads, keep=loads + cells(f))
    F.run()
    for k in sorted(want):
        bad = next((i for i, t in found if get(t, k) == "changed"), None)
        rep.check(bad is None, "member", "%s|%s|error" % (f.name, k), bad.where() if bad else f.name,
                  "%s passes an error on with a different %s" % (f.name, k))


def stacks(V, f, rep):
    """every value stack is cut back to its height on entry"""
    P = V.P
    ex = {}
    for i in f.insts():
        if i.op == "extractvalue":
            ex.setdefault(i.ops[0], []).append(i.res)

    def of(v):
        d = f.defs.get(v)
        n = V.field(f, d.ops[0]) if d is not None and d.op == "load" else None
        return n[1] if n else None

    def tr(i, t, env):
        if i.op == "call":
            c = i.x["callee"]
            if c == SAVE:
                k = of(i.ops[0])
                if k and not any(x[0] == k for x in t):
                    return t | {(k, "saved", i.res)}
                return t
            if c == RESTORE:
                k = of(i.ops[0])
                src = set()
                for o in i.ops[1:]:
                    d = f.defs.get(o)
                    src.add(d.ops[0] if d is not None and d.op == "extractvalue" else bufsrc(f, o))
                for x in t:
                    if x[0] == k and x[1] in ("saved", "dirty") and src == {x[2]}:
                        return (t - {x}) | {(k, "restored", x[2])}
                return t | {("?", "mismatch", i.where())}
            dirty = set()
            if c in ("handlebars_stack_push", "handlebars_stack_pop", "handlebars_stack_set") and i.ops:
                for o in i.ops:
                    if of(o):
                        dirty.add(of(o))
            if P.targets(i) & (V.runs | {"?"}):
                dirty |= set(STACKS)
            for k in dirty:
                x = [y for y in t if y[0] == k]
                if not x:
                    t = t | {(k, "unsaved", None)}
                for y in x:
                    if y[1] in ("restored", "saved"):
                        t = (t - {y}) | {(k, "dirty", y[2])}
        return t
    F = Flow(f, frozenset(), tr, cap=400).run()
    for k in STACKS:
        bad = None
        for r, t, env in F.exits:
            st = {x[1] for x in t if x[0] == k}
            if st & {"unsaved", "dirty"} or any(x[1] == "mismatch" for x in t):
                bad = r
        rep.check(bad is None, "stack", "%s|%s" % (f.name, k), bad.where() if bad else f.name,
                  "%s does not put %s back to its height on entry" % (f.name, k))


def bufsrc(f, v):
    """the save call whose result was put into memory v"""
    b = path(f, v).base
    for i in f.insts():
        if i.op == "store" and path(f, i.ops[1]).base == b:
            d = f.defs.get(i.ops[0])
            if d is not None and d.op == "call":
                return d.res
            if d is not None and d.op == "extractvalue":
                return d.ops[0]
        if i.op == "call" and i.x["callee"] == SAVE and i.ops and path(f, i.ops[0]).base == b:
            return i.res
    return None


def buffer(V, f, rep):
    """the program writes to a new buffer, which is returned"""
    P = V.P

    def tr(i, t, env):
        if i.op == "store" and (V.field(f, i.ops[1]) or ("", ""))[1] == "buffer":
            d = f.defs.get(i.ops[0])
            new = d is not None and d.op == "call" and an.ret_struct(f, d) == "handlebars_string"
            return ("new" if new and t[0] != "ran" else t[0], t[1])
        if i.op == "call" and P.targets(i) & V.runs and not i.x["callee"].startswith("llvm."):
            return ("ran" if t[0] == "new" else "wrong", t[1])
        if i.op == "load" and t[0] == "ran" and (V.field(f, i.ops[0]) or ("", ""))[1] == "buffer":
            return (t[0], t[1] | {i.res})
        return t
    rets = [i.ops[0] for i in f.insts() if i.op == "ret" and i.ops]
    F = Flow(f, ("none", frozenset()), tr, extra=rets, keep=rets).run()
    for r, t, env in F.exits:
        if t[0] == "none":
            rep.ok("buffer", f.name)
            continue
        v = r.ops[0] if r.ops else None
        for _ in range(4):
            v = env.get(("=", v), v)
        vs = {v} if f.defs.get(v) is None or f.defs[v].op != "phi" else set(an.leaves(f, v))
        ok = t[0] == "ran" and any(x in t[1] for x in vs)
        rep.check(ok, "buffer", f.name, r.where(), "%s does not return exactly what the nested program produced" % f.name)


def balance(V, rep):
    P = V.P
    D = V.D
    for u, f in P.functions.items():
        if f.avail or f.mod.unit != "handlebars_vm.c":
            continue

        def which(i):
            c = i.x["callee"]
            if c not in ("handlebars_stack_push", "handlebars_stack_pop"):
                return 0
            d = f.defs.get(i.ops[0])
            n = V.field(f, d.ops[0]) if d is not None and d.op == "load" else None
            if not n or n[1] != "partialBlockStack":
                return 0
            return 1 if c.endswith("push") else -1
        ps = [i for i in f.insts() if i.op == "call" and which(i)]
        if not ps:
            continue
        bad = []

        def tr(i, t, env):
            if i.op == "call":
                n = t + which(i)
                return max(-3, min(3, n))
            return t

        def edge(b, s, t, env):
            if f is D.fn and s in D.stop and t != 0:
                bad.append(b)
                return 0
            return t
        # null stack pointers are excluded by the frame that runs the program
        edge2 = edge

        def edge3(b, s, t, env):
            for pr, a, c in [z[:3] for z in an.edge_facts(b, s)]:
                d = f.defs.get(a) if isinstance(a, str) else None
                if pr == "eq" and (c == "null" or const_int(c) == 0) and d is not None and d.op == "load" and \
                        (V.field(f, d.ops[0]) or ("", ""))[1] in STACKS:
                    return None
            return edge2(b, s, t, env)
        F = Flow(f, 0, tr, edge3, cap=400).run()
        if F.widened:
            raise an.AnalysisError("C09: too many paths in " + f.name)
        n = [r for r, t, env in F.exits if t != 0]
        for i in ps:
            rep.check(not bad and not n, "block", f.name, (bad[0].term if bad else n[0] if n else i).where(),
                      "%s leaves partial blocks pushed and popped unequally often" % f.name)
