"""C26: every value owns exactly one reference to what it holds."""
from .. import an, valflow
from ..flow import Flow
from ..valflow import RC, rcop

RULE = ("Abstract interpretation of every function assigning a handlebars_value, with the tag split over all kinds: assigning a "
        "counted object takes exactly one reference to that object, before the old content is released, and the old content is "
        "released exactly once with the operation of its own kind; copying a value does so for every kind, releasing a value "
        "does so for every kind. Typestate of every automatic value: released on every path to a normal return.")
ASSUME = ["the reference counting primitives are decided by rule 'counter'",
          "paths leaving by an error jump are exempt: memory is then reclaimed with the owning context"]


def run(ctx, rep):
    P = ctx.inl
    V = valflow.VF(P)
    assignments(V, rep)
    counter(P, rep)
    R = ctx.raw
    VR = valflow.VF(R)
    locals_(R, VR, rep)
    borrowed(P, rep)
    pairs(P, rep)


def assignments(V, rep):
    T = V.tags
    for f in V.fns:
        F = V.res[f.uname]
        if F.widened:
            raise an.AnalysisError("C26: too many paths in " + f.name)
        bases = {k for _, t, _ in F.exits for k, _ in t[0]}
        for k in sorted(bases, key=repr):
            if not any(i.op == "store" and (V.slot(f, i.ops[1]) or (None, 0))[0] == k for i in f.insts()) and \
                    f.name != "handlebars_value_dtor":
                continue
            bad = None
            for ret, t, env in F.exits:
                r = V.get(t, k)
                bad = bad or judge(V, f, k, r, t)
            rep.check(bad is None, "assign", f.name, f.name, "%s: %s" % (f.name, bad))
    rep.floor("assign", 10, "functions assigning values")
    for n, what in (("handlebars_value_dtor", "destroying"), ("handlebars_value_null", "clearing")):
        f = V.P.need(n)
        rep.check((f.uname, 0) in V.rel, "release", n, n, "%s a value does not release its content for every kind, exactly once" % what)


def judge(V, f, k, r, t):
    ev = t[1]
    if ev == ("over",):
        return "too many reference operations to follow"
    own = ("pay", k)
    old = [e for s, e in ev if s == own]
    rel = [n for n, (s, e) in enumerate(ev) if s == ("rel", k)]
    if r.origin == "e" and r.pay == "e":
        return "reference operations on a value that keeps its content" if any(e[1] == "delref" for e in old if isinstance(e, tuple)) else None
    upd = False
    if isinstance(r.pay, tuple) and r.pay[0] == "v":
        d = f.defs.get(r.pay[1])
        if d is not None and d.op == "call" and d.ops:
            o = an.leaves(f, d.ops[0])
            o = o.pop() if len(o) == 1 else None
            ld = f.defs.get(o)
            upd = ld is not None and ld.op == "load" and V.slot(f, ld.ops[0]) == (k, valflow.PAY_OFF)
    # the old content
    if upd:
        if old:
            return "the container handed to an update is also referenced or released here"
    else:
        n0 = V.name.get(r.tag0)
        if not rel:
            want = [(RC[n0], "delref")] if n0 in RC else []
            if r.tag0 is None and not init_only(f, k, r):
                return "the previous content is overwritten without being released"
            if r.tag0 is not None and old != want:
                return "a value of kind %s is released by %s instead of %s" % (n0, fmt(old), fmt(want))
        elif old:
            return "the previous content is released more than once"
    # the new content
    if r.tag is None or r.pay in ("e", "0", "x"):
        return None
    n = V.name[r.tag]
    if isinstance(r.pay, tuple) and r.pay[0] == "copy":
        s = ("pay", r.pay[1])
    elif isinstance(r.pay, tuple):
        s = ("v", r.pay[1])
    else:
        return None
    ops = [e for q, e in ev if q == s]
    want = [(RC[n], "addref")] if n in RC and not upd else []
    if ops != want:
        return "assigning a value of kind %s performs %s on the object held, instead of %s" % (n, fmt(ops), fmt(want))
    if want and rel:
        first = [m for m, (q, e) in enumerate(ev) if q == s][0]
        if first > rel[0]:
            return "the old content is released before the new one is referenced (the old one may own the new one)"
    return None


def init_only(f, k, r):
    """the function is a constructor: it clears fresh memory and nothing else"""
    return r.flags == "0" and r.pay == "0" and f.name != "handlebars_value_dtor" and \
        not any(i.op == "load" for i in f.insts())


def fmt(l):
    return " + ".join("%s of a %s" % (e[1], e[0]) if isinstance(e, tuple) else str(e) for e in l) or "no reference operation"


def counter(P, rep):
    """the counting primitives, as inlined into every *_addref / *_delref, for every class of count"""
    M = next(iter(P.mods.values()))
    for kind in sorted(set(RC.values())):
        for op in ("addref", "delref"):
            f = P.need("handlebars_%s_%s" % (kind, op))
            cells = {an.path(f, i.ops[0]).off for i in f.insts() if i.op == "load" and i.ty == "i8" and
                     an.path(f, i.ops[0]).base == f.params[0][1]}
            if len(cells) != 1:
                raise an.AnalysisError("C26: reference count of %s not recognised" % kind)
            off = cells.pop()

            def is_cell(a):
                p = an.path(f, a)
                return p.base == f.params[0][1] and p.off == off and not p.sym

            def num(v, env, F):
                x = F.val(v, env)
                if isinstance(x, int):
                    return x & 255
                d = f.defs.get(an.strip(f, v))
                if d is not None and d.op in ("add", "sub"):
                    a, b = num(d.ops[0], env, F), num(d.ops[1], env, F)
                    if a is not None and b is not None:
                        return (a + b if d.op == "add" else a - b) & 255
                return None
            for n in (0, 1, 2, 3, 100, 253, 254, 255):
                keep = {i.res for i in f.insts() if i.op == "load" and is_cell(i.ops[0])}

                def tr(i, t, env):
                    cur, calls = t
                    if i.op == "load" and i.res in keep:
                        return [("@env", t, {i.res: cur})]
                    if i.op == "store" and is_cell(i.ops[1]):
                        return (num(i.ops[0], env, F), calls)
                    if i.op == "call" and not i.x["callee"].startswith("llvm."):
                        return (cur, True)
                    return t
                F = Flow(f, (n, False), tr, extra=tuple(keep), keep=keep)
                # facts the comparisons see: widened copies of the pinned byte
                F.run()
                got = {t for _, t, _ in F.exits}
                if op == "addref":
                    want = {(n + 1 if n < 255 else 255, False)}
                elif n == 255:
                    want = {(255, False)}
                elif n <= 1:
                    want = None
                else:
                    want = {(n - 1, False)}
                ok = got == want if want is not None else bool(got) and all(c for _, c in got)
                rep.check(ok, "counter", f.name, "%s at count %d" % (f.name, n),
                          "%s with a count of %d yields %s" % (f.name, n, sorted((c, "destroyed" if d else "kept") for c, d in got)
                                                               if all(c is not None for c, _ in got) else "an unknown count"))
    rep.floor("counter", 90, "count classes")


def locals_(P, V, rep):
    """automatic values: initialised ones are released on every path to a normal return"""
    releasers = {(u, n) for u, n in V.rel if V.sum.get(u, {}).get(n) == V.tags["NULL"]}

    def base(f, v):
        return an.path(f, v).base

    for f in P.functions.values():
        if f.mod.unit.startswith("bin"):
            continue
        inits = {}
        for i in f.insts():
            if i.op == "call":
                c = i.x["callee"]
                if c.startswith(("llvm.memset", "memset")) and an.const_int(i.ops[1]) == 0 and \
                        an.const_int(i.ops[2]) not in range(valflow.SIZE) or c == "handlebars_value_init":
                    b = base(f, i.ops[0])
                    d = f.defs.get(b)
                    if d is not None and d.op == "alloca" and an.pointee(f, b) == "handlebars_value":
                        inits.setdefault(b, []).append(i)
            elif i.op == "store" and an.const_int(i.ops[0]) == 0 and V.slot(f, i.ops[1]) and V.slot(f, i.ops[1])[1] == 0:
                b = base(f, i.ops[1])
                d = f.defs.get(b)
                if d is not None and d.op == "alloca" and an.pointee(f, b) == "handlebars_value":
                    inits.setdefault(b, []).append(i)
        for b, ii in inits.items():
            local(P, V, f, b, ii, releasers, rep)
    rep.floor("local", 40, "automatic values")


def local(P, V, f, b, inits, releasers, rep):
    rel, uses = [], False
    for i in f.insts():
        if i.op == "call":
            for n, o in enumerate(i.ops):
                if an.path(f, o).base == b and i not in inits:
                    if any((g, n) in releasers for g in P.targets(i)):
                        rel.append((i, o))
                    else:
                        uses = True
    name = "%s|%s" % (f.name, f.vars.get(b, b).lstrip("!%") if not f.vars.get(b, "!").startswith("!") else srcname(f, b))
    where = "%s %s" % (inits[0].where(), f.name)
    if not uses:
        rep.ok("local", where)
        return
    relset = {id(i) for i, _ in rel}
    # loops that release every element of an array
    heads = {}
    for i, o in rel:
        p = an.path(f, o)
        if p.sym or f.defs.get(o) is not None and f.defs[o].op == "phi":
            for h in f.order:
                if an.dominates(f, h, i.block) and h.term.op == "br" and len(h.term.x) == 2 and \
                        h in an.reach_blocks(f, i.block):
                    # innermost loop header: a block of the loop with an exit edge
                    inl = [s for s in h.succs if i.block in an.reach_blocks(f, s, lambda x: x is h)]
                    if len(inl) == 1:
                        cur = heads.get(id(i))
                        if cur is None or an.dominates(f, cur, h):
                            heads[id(i)] = h
    hb = set(heads.values())
    ids = {id(i) for i in inits}
    usecalls = set()
    for i in f.insts():
        if i.op == "call" and id(i) not in relset and id(i) not in ids and any(an.path(f, o).base == b for o in i.ops):
            usecalls.add(id(i))

    def tr(i, t, env):
        if id(i) in ids:
            return "clean"
        if id(i) in relset:
            return "clean" if id(i) not in heads else t
        if id(i) in usecalls and can_own(P, V, i, f, b):
            return "dirty"
        return t

    def edge(x, s, t, env):
        return "clean" if s in hb and x not in loop_blocks(f, s) else t
    F = Flow(f, "clean", tr, edge)
    F.run()
    dirty = [r for r, t, _ in F.exits if t == "dirty"]
    rep.check(not dirty, "local", name, where,
              "%s: the automatic value '%s' still owns a reference at the return" % (f.name, srcname(f, b)))


def loop_blocks(f, h):
    c = f.__dict__.setdefault("_loopb", {})
    if h not in c:
        c[h] = {b for b in f.order if an.dominates(f, h, b) and h in an.reach_blocks(f, b) and b is not h} | set()
    return c[h]


def srcname(f, b):
    v = f.vars.get(b)
    if v and v.startswith("!"):
        n = f.mod.mdfield(v[1:], "name")
        if n:
            return n
    return b.lstrip("%")


_NOOWN = ("handlebars_value_get_", "handlebars_value_is_", "handlebars_value_count", "handlebars_value_eq")


def can_own(P, V, i, f, b):
    """the call may leave the value owning something: it is (or forwards to) an assignment of that argument"""
    for n, o in enumerate(i.ops):
        if an.path(f, o).base != b:
            continue
        for g in P.targets(i):
            if g == "?" or assigns(P, V, g, n):
                return True
    return False


def assigns(P, V, g, n, depth=0):
    c = P.__dict__.setdefault("_assigns", {})
    if (g, n) in c:
        return c[(g, n)]
    c[(g, n)] = False
    f = P.functions.get(g)
    r = False
    if f is None:
        r = False
    elif (g, n) in V.rel and V.sum.get(g, {}).get(n) == V.tags["NULL"]:
        r = False
    elif n < len(f.params):
        p = f.params[n][1]
        al = {p}
        ch = True
        while ch:
            ch = False
            for i in f.insts():
                if i.op in ("phi", "select", "gep") and i.res not in al and \
                        any(o in al for o in ([x for x, _ in i.ops] if i.op == "phi" else i.ops)):
                    al.add(i.res)
                    ch = True
        for i in f.insts():
            if i.op == "store" and V.slot(f, i.ops[1]) and V.slot(f, i.ops[1])[0][0] in al and V.slot(f, i.ops[1])[1] in (0, 8):
                r = True
            elif i.op == "call":
                for m, o in enumerate(i.ops):
                    if o in al:
                        for tg in P.targets(i):
                            if tg == "?" or assigns(P, V, tg, m):
                                r = True
            if r:
                break
    c[(g, n)] = r
    return r


# functions documented to take over a reference to an argument
TAKES = {"handlebars_string_indent_append": 2, "handlebars_string_indent": 1}


def borrowed(P, rep):
    """a reference a function was lent by its caller is not released by it"""
    kinds = {"handlebars_" + k for k in RC.values()}
    for f in P.functions.values():
        if f.avail or f.mod.unit.startswith("bin"):
            continue
        ops = {}
        for i in f.insts():
            if i.op == "call" and i.ops:
                c = i.x["callee"].lstrip("@")
                if rcop(i.x["callee"]):
                    ops[i] = (i.ops[0], 1 if rcop(i.x["callee"])[1] == "addref" else -1)
                elif c in TAKES:
                    ops[i] = (i.ops[TAKES[c]], -1)
        if not any(k < 0 for _, k in ops.values()):
            continue
        sig = an.fn_sig(f.mod, f)[1]
        ps = {p[1] for n, p in enumerate(f.params) if n < len(sig) and an.ptr_struct(f.mod, sig[n]) in kinds}
        cells = {i.res for i in f.insts() if i.op == "alloca"}
        # objects made here start with no reference; a value that is given one holds the first
        made = {i.res for i in f.insts() if i.op == "call" and i.res and an.ret_struct(f, i) in kinds and
                i.x["callee"].lstrip("@").endswith("_ctor")}
        gives = {"handlebars_value_" + n for n in ("str", "map", "array", "ptr", "closure", "user")}

        def org(v, t):
            """the parameter a value is on this path, if any"""
            v = an.strip(f, v)
            if v in ps or v in made:
                return v
            return dict(t[0]).get(v)

        def tr(i, t, env):
            if i.op == "store" and an.strip(f, i.ops[1]) in cells:
                o = org(i.ops[0], t)
                s = {x for x in t[0] if x[0] != i.ops[1]}
                return (frozenset(s | ({(i.ops[1], o)} if o else set())), t[1])
            if i.op == "load" and i.ops[0] in cells:
                o = dict(t[0]).get(i.ops[0])
                s = {x for x in t[0] if x[0] != i.res}
                return (frozenset(s | ({(i.res, o)} if o else set())), t[1])
            if i.op == "call" and i.res in made:
                return (frozenset(x for x in t[0] if x[1] != i.res), frozenset(x for x in t[1] if x[0] != i.res))
            if i.op == "call" and i.x["callee"].lstrip("@") in gives and len(i.ops) > 1:
                o = org(i.ops[1], t)
                if o in made:
                    c = dict(t[1])
                    c.setdefault(o, 0)
                    return (t[0], frozenset(c.items()))
            if i in ops:
                o = org(ops[i][0], t)
                if o in made and ops[i][1] < 0 and o not in dict(t[1]):
                    o = None        # never shared: this ends it
                if o:
                    c = dict(t[1])
                    c[o] = max(-2, min(2, c.get(o, 0) + ops[i][1]))
                    t = (t[0], frozenset(c.items()))
            if i.op == "call" and i.res and an.ret_struct(f, i):
                # an operation on a string, stack or map that hands it, or its replacement, back
                for a in i.ops:
                    o = org(a, t) if isinstance(a, str) else None
                    if o and i.x["callee"].lstrip("@").startswith("handlebars_" + an.ret_struct(f, i)[11:] + "_") and i not in ops:
                        return (frozenset({x for x in t[0] if x[0] != i.res} | {(i.res, o)}), t[1])
            return t

        def edge(x, s, t, env):
            m = dict(t[0])
            new = {}
            for i in s.insts:
                if i.op != "phi":
                    break
                for v, b in i.ops:
                    if b == x.name or b is x:
                        o = org(v, t) if isinstance(v, str) else None
                        if o:
                            new[i.res] = o
                m.pop(i.res, None)
            m.update(new)
            return (frozenset(m.items()), t[1])
        F = Flow(f, (frozenset(), frozenset()), tr, edge, cap=1500)
        try:
            F.run()
        except an.AnalysisError:
            continue            # too many paths to tell apart
        if F.widened:
            continue
        # an operation that may replace the object it is given takes over the reference and hands one back
        kept = {org(r.ops[0], t2) for r, t2, e in F.exits if r.ops} | {f.params[TAKES[f.name]][1] for _ in (1,) if f.name in TAKES}
        neg = {o for r, t2, e in F.exits for o, n in t2[1] if n < 0}
        lent = {o for o in neg if o in made}
        rep.check(not lent, "borrowed", f.name + "|made", f.name, "%s releases %s, which only a value still holds" % (
            f.name, ", ".join(sorted("the result of " + f.defs[o].x["callee"].lstrip("@") for o in lent))))
        neg -= lent
        if f.name.endswith(("_delref", "_delref_ex")):
            continue
        rep.check(not neg - kept, "borrowed", f.name, f.name, "%s releases a reference to its argument %s it did not take" % (
            f.name, ", ".join(sorted(x.lstrip("%") for x in neg - kept))))
    rep.floor("borrowed", 20, "functions releasing references")


def pairs(P, rep):
    """a counted object referenced and released by name within one function: balanced on every normal path"""
    for f in P.functions.values():
        if f.mod.unit.startswith("bin"):
            continue
        ops = {}
        for i in f.insts():
            if i.op == "call" and i.ops:
                m = rcop(i.x["callee"])
                if m:
                    ops.setdefault(i.ops[0], {}).setdefault(m[1], []).append(i)
        for v, d in ops.items():
            if set(d) != {"addref", "delref"} or not isinstance(v, str) or f.defs.get(v) is None:
                continue
            vd = f.defs[v]
            if vd.op != "call":
                continue
            ids = {id(i): (1 if k == "addref" else -1) for k, l in d.items() for i in l}

            def tr(i, t, env):
                if i is vd:
                    return 0
                return max(-3, min(3, t + ids.get(id(i), 0)))
            F = Flow(f, 0, tr)
            F.run()
            got = {t for _, t, _ in F.exits}
            rep.check(got <= {0}, "pair", "%s|%s" % (f.name, vd.x["callee"]), d["addref"][0].where(),
                      "%s: the reference taken on the result of %s is not released exactly once on every path" % (f.name, vd.x["callee"]))
