"""C04: the kind tag of a value always describes its payload."""
from .. import an, valflow
from ..valflow import RC, STRUCT, SIZE

RULE = ("Abstract interpretation of every function that writes or reads the fields of a handlebars_value, with the tag split over "
        "all kinds: after a write the tag, the payload and the flags stem from the same assignment (payload of the tag's C type, "
        "flags cleared or copied with the value); a payload is read as a C type only on paths where the tag has been "
        "established to be the kind of that type.")
ASSUME = ["a user-defined value reports itself as null, map or array (checked for the library's own handlers by C33)",
          "a value whose tag is null has no flags set",
          "callers outside the library respect that handlebars_value_array_push/_set need an array and "
          "handlebars_value_get_handlers a user-defined value (asserted in debug builds)"]

CONTRACT = {"handlebars_value_array_push": "ARRAY", "handlebars_value_array_set": "ARRAY", "handlebars_value_get_handlers": "USER"}


def payload_ok(V, f, tag, pay, k):
    n = V.name.get(tag)
    if n in ("NULL", "TRUE", "FALSE"):
        return True
    if not (isinstance(pay, tuple) and pay[0] == "v"):
        return False
    v, ty = pay[1], pay[2]
    if n == "INTEGER":
        return ty == "i64"
    if n == "FLOAT":
        return ty == "double"
    if ty != "ptr":
        return False
    s = an.pointee(f, v)
    if n == "HELPER":
        return s is None
    return s == STRUCT[n]


def run(ctx, rep):
    P = ctx.inl
    V = valflow.VF(P)
    null = V.tags["NULL"]
    written = set()
    for f in V.fns:
        F = V.res[f.uname]
        if F.widened:
            raise an.AnalysisError("C04: too many paths in " + f.name)
        bases = {k for _, t, _ in F.exits for k, _ in t[0]}
        # stores that never reach an exit still count (their path ends in an error jump)
        for k in sorted(bases, key=repr):
            direct = any(i.op == "store" and (V.slot(f, i.ops[1]) or (None, 0))[0] == k for i in f.insts())
            if not direct:
                continue
            bad = None
            for ret, t, env in F.exits:
                r = V.get(t, k)
                if r.origin == "e" and r.flags == "e" and r.pay == "e":
                    continue
                bad = bad or judge(V, f, k, r)
            written.add(f.name)
            where = "%s:%d %s" % (f.file_line()[0], f.file_line()[1], f.name) if hasattr(f, "file_line") else f.name
            rep.check(bad is None, "write", f.name, where, "%s: %s" % (f.name, bad))
    rep.floor("write", 10, "functions assigning values")

    # reads
    need = {}
    for f in V.fns:
        for u, v, k, knd, tags in V.reads[f.uname]:
            want = wanted(knd)
            for tag, pay in sorted(tags, key=repr):
                if tag is None:
                    need.setdefault((f, k), {}).setdefault(want, u)
                    continue
                ok = V.name[tag] == want or want is None and V.name[tag] in RC
                rep.check(ok, "read", "%s|%s" % (f.name, knd), u.where(),
                          "%s reads the payload as %s although the value may be of kind %s" % (f.name, knd, V.name[tag]))
    rep.floor("read", 30, "payload reads")

    # reads without a test in the function itself: the requirement moves to whoever supplies the value
    for (f, k), wants in sorted(need.items(), key=lambda x: repr((x[0][0].name, x[0][1]))):
        for want, u in wants.items():
            if want is None:
                rep.bad("requirement", f.name, u.where(), "%s reads a payload of unknown kind without testing the tag" % f.name)
                continue
            params = [n for n, p in enumerate(f.params) if (p[1], 0, ()) == k]
            if params:
                if CONTRACT.get(f.name) == want:
                    callers(P, V, f, params[0], want, rep)
                else:
                    rep.bad("requirement", "%s|%s" % (f.name, want), u.where(),
                            "%s reads the payload of its argument as %s without testing the tag" % (f.name, want))
                continue
            d = f.defs.get(k[0])
            pl = an.place(f, d.ops[0]) if d is not None and d.op == "load" else None
            if pl and pl[:2] == ("handlebars_value_iterator", "value"):
                installs(P, V, f, want, rep)
            else:
                rep.bad("requirement", "%s|%s" % (f.name, want), u.where(),
                        "%s reads a payload as %s without testing the tag" % (f.name, want))


def wanted(knd):
    if knd == "double":
        return "FLOAT"
    if knd == "i64":
        return "INTEGER"
    if knd == "helper":
        return "HELPER"
    if knd == "?":
        return None
    for k, s in STRUCT.items():
        if s == knd:
            return k
    return "?" + str(knd)


def judge(V, f, k, r):
    if r.tag is None and r.origin != "e":
        return "the kind tag stored is not one of the known kinds"
    if r.origin == "e":
        if r.flags in ("0", "e", "or") and isinstance(r.pay, tuple) and r.pay[0] == "v":
            # an update of the container held: same C type, produced from the old payload
            d = f.defs.get(r.pay[1])
            if d is not None and d.op == "call" and d.ops:
                o = an.leaves(f, d.ops[0])
                o = o.pop() if len(o) == 1 else None
                ld = f.defs.get(o)
                if ld is not None and ld.op == "load" and V.slot(f, ld.ops[0]) == (k, valflow.PAY_OFF) and \
                        an.ret_struct(f, d) and an.ret_struct(f, d) == V.param_struct(f, d, 0):
                    if r.tag is None or STRUCT.get(V.name[r.tag]) == an.ret_struct(f, d):
                        return None
        if r.pay == "e" and r.flags in ("or", "e"):
            return None
        if r.tag is not None and r.flags in ("e", "or") and r.pay != "e" and payload_ok(V, f, r.tag, r.pay, k):
            return None
        return "the payload is replaced without setting the kind tag"
    if isinstance(r.origin, tuple):
        if r.pay != r.origin and V.name.get(r.tag) not in ("NULL", "TRUE", "FALSE"):
            return "the kind tag is copied from another value but the payload is not"
        if r.flags != r.origin:
            return "the kind tag is copied from another value but the flags are not"
        return None
    if r.flags != "0" and not (r.flags == "e" and r.tag0 == V.tags["NULL"]):
        return "flags of the previous content (such as 'safe') survive the assignment of a new %s" % V.name[r.tag]
    if r.pay == "e" and V.name[r.tag] not in ("NULL", "TRUE", "FALSE"):
        return "the kind tag becomes %s but the payload of the old kind stays" % V.name[r.tag]
    if not payload_ok(V, f, r.tag, r.pay, k):
        return "the payload stored does not have the type of kind %s" % V.name[r.tag]
    return None


def guarded(P, V, f, inst, v, want):
    """the tag of value v is known to be `want` at inst"""
    k = V.basekey(f, v)
    for pr, a, b in [x[:3] for x in an.dom_facts(inst)]:
        if pr == "in" or not isinstance(b, str) or an.const_int(b) is None:
            continue
        if pr == "eq" and V.name.get(an.const_int(b)) == want and is_tag(V, f, a, k):
            return True
    return False


def is_tag(V, f, a, k):
    for x in an.leaves(f, an.strip(f, a)):
        d = f.defs.get(x)
        if d is None:
            return False
        if d.op == "load" and V.slot(f, d.ops[0]) == (k, 0):
            continue
        if d.op == "call" and d.x["callee"] in ("handlebars_value_get_type", "handlebars_value_get_real_type") and \
                V.basekey(f, d.ops[0]) == k:
            continue
        return False
    return True


def callers(P, V, g, n, want, rep):
    for f in P.functions.values():
        if f.mod.unit.startswith("bin"):
            continue
        for i in f.insts():
            if i.op != "call" or P.uname(f.mod, i.x["callee"]) != g.uname or n >= len(i.ops):
                continue
            a = i.ops[n]
            k = V.basekey(f, a)
            ok = guarded(P, V, f, i, a, want) or ("flow", want) == ("flow", flow_tag(P, V, f, i, a))
            rep.check(ok, "requirement", "%s<-%s" % (g.name, f.name), i.where(),
                      "%s calls %s, which needs a value of kind %s, without having established the kind" % (f.name, g.name, want))


def flow_tag(P, V, f, inst, a):
    """the tag every path last assigned to value a before inst"""
    from ..flow import Flow
    k = V.basekey(f, a)
    got = set()

    def tr(i, t, env):
        if i is inst:
            got.add(t)
        if i.op == "call":
            g = P.uname(f.mod, i.x["callee"])
            for n, o in enumerate(i.ops):
                if V.basekey(f, o) == k and i.x["callee"] not in V.typefns:
                    eff = V.sum.get(g, {}).get(n)
                    if eff is not None:
                        t = V.name[eff]
                    elif i is not inst and g not in CONTRACT and not keeps(P, V, g, n):
                        t = "?"
        return t
    Flow(f, "?", tr).run()
    return got.pop() if len(got) == 1 else None


def keeps(P, V, g, n):
    """callee g does not change the kind of its argument n: it never assigns it"""
    f = P.functions.get(g)
    if f is None:
        return False
    c = P.__dict__.setdefault("_keeps", {})
    if (g, n) in c:
        return c[(g, n)]
    c[(g, n)] = True
    r = True
    if n < len(f.params):
        p = f.params[n][1]
        for i in f.insts():
            if i.op == "store" and V.slot(f, i.ops[1]) and V.slot(f, i.ops[1])[0][0] == p and V.slot(f, i.ops[1])[1] == 0:
                r = False
            if i.op == "call":
                for m, o in enumerate(i.ops):
                    if o == p:
                        for tg in P.targets(i):
                            if tg in V.sum and m in V.sum[tg] or tg == "handlebars_value_value" and m == 0:
                                r = False
                            elif tg not in P.functions:
                                continue
                            elif not keeps(P, V, tg, m):
                                r = False
    c[(g, n)] = r
    return r


def installs(P, V, g, want, rep):
    """g runs as the `next` step of an iterator: wherever it is installed, the iterated value is of kind `want`"""
    n = 0
    for f in P.functions.values():
        for i in f.insts():
            if i.op == "store" and isinstance(i.ops[0], str) and i.ops[0].startswith("@") and \
                    P.uname(f.mod, i.ops[0][1:]) == g.uname:
                n += 1
                pl = an.place(f, i.ops[1])
                it = pl[2] if pl else None
                vals = [s.ops[0] for s in f.insts() if s.op == "store" and an.place(f, s.ops[1]) and
                        an.place(f, s.ops[1])[:2] == ("handlebars_value_iterator", "value") and an.place(f, s.ops[1])[2] == it and
                        (an.inst_dominates(s, i) or an.inst_dominates(i, s))]
                ok = bool(vals) and all(guarded(P, V, f, i, v, want) for v in vals)
                rep.check(ok, "requirement", "%s installed in %s" % (g.name, f.name), i.where(),
                          "%s installs %s, which needs a value of kind %s, on a path where the kind is not established" % (
                              f.name, g.name, want))
    if not n and g.uname not in {x for ts in P.cg.values() for x in ts}:
        rep.ok("requirement", g.name + " (inlined)")
