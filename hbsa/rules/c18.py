"""C18: a cached template is used only for the text and the options it was made from."""
from .. import an, cachemod, linear
from ..an import const_int, path, place
from ..cachemod import PredFlow, rel, field_load, cmp_of
from ..flow import Flow
from .c15 import is_copy
from .c17 import derive
from .c13 import records

RULE = ("Path-sensitive value tracking. Renderer: the text looked up, the text parsed, the text under which the result is stored and the "
        "text released are one value, what is stored was compiled from it under the renderer's options, and a found template is executed "
        "only where its recorded options were found equal to the renderer's in every bit parsing and compiling look at. Caches: a "
        "template is returned only where the whole text was the key or was compared in full, and it is stored under the same key.")
ASSUME = ["LMDB, the map and the string comparison find equal keys only (C05)", "partials and helpers are looked up while rendering, not while compiling"]
MOD = "handlebars_module"


def run(ctx, rep):
    P = ctx.inl
    need = tested_bits(ctx.raw)
    n = 0
    for f in P.functions.values():
        if not f.avail and any(i.op == "call" and i.x["callee"] == "handlebars_cache_find" for i in f.insts()) and \
                not f.mod.unit.startswith("bin"):
            user(P, f, need, rep)
            n += 1
    if not n:
        raise an.AnalysisError("C18: nothing looks templates up in a cache")
    recorded(P, rep)
    lmdb(P, cachemod.backend(P, "lmdb"), rep)
    mmap(P, cachemod.backend(P, "mmap"), rep)
    simple(P, cachemod.backend(P, "simple"), rep)
    facade(P, rep)
    rep.floor("text", 4, "uses of texts by the renderer")
    rep.floor("options", 3, "places comparing or recording options")
    rep.floor("key", 6, "uses of keys by the caches")


def flagload(f, v, struct):
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    while d is not None and d.op in ("zext", "sext", "trunc", "freeze"):
        d = f.defs.get(d.ops[0])
    if d is None:
        return None
    if d.op == "load":
        pl = place(f, d.ops[0])
        if pl and pl[0] == struct and pl[1] == "flags":
            return pl[2]
    if d.op == "call" and struct == MOD and d.x["callee"] == "handlebars_module_get_flags":
        return d.ops[0]
    if d.op == "call" and struct == "handlebars_compiler" and d.x["callee"] == "handlebars_compiler_get_flags":
        return d.ops[0]
    if d.op == "call" and struct == "handlebars_vm" and d.x["callee"] == "handlebars_vm_get_flags":
        return d.ops[0]
    return None


def tested_bits(P):
    """every bit of the options that parsing or compiling looks at"""
    bits = 0
    for f in P.functions.values():
        for i in f.insts():
            if i.op == "and" and const_int(i.ops[1]) is not None:
                if any(flagload(f, i.ops[0], s) is not None for s in ("handlebars_compiler", "handlebars_parser")):
                    # a mask that only keeps or clears is not a test
                    if any(u.op in ("icmp", "trunc", "select") for u in f.insts() if i.res in [o for o in u.ops if isinstance(o, str)]):
                        bits |= const_int(i.ops[1])
    if not bits:
        raise an.AnalysisError("C18: the compiler looks at no options")
    return bits


def options_compared(f, need):
    """{comparison: (template value, true when equal)}"""
    out = {}

    def both(v, a):
        pass

    def masked(v):
        d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
        while d is not None and d.op in ("zext", "trunc", "sext"):
            d = f.defs.get(d.ops[0])
        if d is not None and d.op == "and":
            for x, y in (d.ops, d.ops[::-1]):
                if const_int(y) is not None:
                    return x, const_int(y)
        return v, -1

    def inner(v, op):
        d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
        while d is not None and d.op in ("zext", "trunc", "sext"):
            d = f.defs.get(d.ops[0])
        return d if d is not None and d.op == op else None

    def pair(a, b):
        m = flagload(f, a, MOD)
        if m is not None and flagload(f, b, "handlebars_vm") is not None:
            return m
        m = flagload(f, b, MOD)
        return m if m is not None and flagload(f, a, "handlebars_vm") is not None else None
    for i in f.insts():
        r, a, b = cmp_of(i)
        if i.op != "icmp" or r not in ("eq", "ne"):
            continue
        m = None
        for x, y in ((a, b), (b, a)):
            if const_int(y) == 0:
                v, k = masked(x)
                d = inner(v, "xor")
                if d is not None and k & need == need:
                    l, r2 = d.ops
                    (l, k1), (r2, k2) = masked(l), masked(r2)
                    if k1 & k2 & need == need:
                        m = pair(l, r2)
        if m is None:
            (l, k1), (r2, k2) = masked(a), masked(b)
            if k1 == k2 and k1 & need == need:
                m = pair(l, r2)
        if m is not None:
            out[i] = (m, r == "eq")
    return out


def user(P, f, need, rep):
    sj = [i for i in f.insts() if i.op == "call" and "setjmp" in i.x["callee"]]
    cmps = options_compared(f, need)
    preds = {i: ("same:%s" % i.res, eq, False) for i, (m, eq) in cmps.items()}
    finds = [i.res for i in f.insts() if i.op == "call" and i.x["callee"] == "handlebars_cache_find"]
    fields = set()
    for i in f.insts():
        if i.op == "call" and i.x["callee"] == "handlebars_cache_find":
            d = f.defs.get(an.strip(f, i.ops[0]))
            if d is not None and d.op == "load" and place(f, d.ops[0]):
                fields.add(place(f, d.ops[0])[:2])
    bad, good = {}, set()

    def note(i, m, kind="text"):
        bad.setdefault((i, m, kind), None)

    def cell(a):
        p = path(f, a)
        d = f.defs.get(p.base)
        return (p.base, p.off) if d is not None and d.op == "alloca" and not p.sym else None

    def tok(t, env, v):
        for _ in range(8):
            for a, b in t:
                if a == v:
                    return b
            n = env.get(("=", v)) if isinstance(v, str) else None
            if n is None or n == v:
                return v
            v = n
        return v

    def put(t, k, v):
        return frozenset({x for x in t if x[0] != k} | {(k, v)})

    def vmflags(v):
        return flagload(f, v, "handlebars_vm") is not None

    def tr(i, st, env):
        s, t = st
        if i.op == "store":
            c = cell(i.ops[1])
            if c:
                return (s, put(t, c, tok(t, env, i.ops[0])))
            return st
        if i.op == "load":
            c = cell(i.ops[0])
            if c:
                return (s, put(t, i.res, tok(t, env, c)))
            pl = place(f, i.ops[0])
            if any(str(b).startswith("found(") for a, b in t) and pl and pl[:2] in fields:
                return ("@env", st, {i.res: "nn"})
            return st
        if i in cmps:
            m, eq = cmps[i]
            if ("same:%s" % i.res, True) in s:
                good.add((i, "options"))
                return (s, put(t, ("same", tok(t, env, m)), "yes"))
            return st
        if i.op != "call":
            return st
        c = i.x["callee"]
        if i in sj:
            return [("@env", st, {i.res: 0})]
        if c in ("handlebars_throw", "handlebars_throw_ex", "handlebars_rethrow"):
            return None
        args = [tok(t, env, o) if isinstance(o, str) else o for o in i.ops]
        rs = an.ret_struct(f, i) if i.res else None
        if c == "handlebars_cache_find":
            good.add((i, "text"))
            t = put(t, "looked up", args[1])
            return [("@env", (s, put(t, i.res, "miss(%s)" % args[1])), {i.res: 0}),
                    ("@env", (s, put(t, i.res, "found(%s)" % args[1])), {i.res: "nn"})]
        if c == "handlebars_cache_release":
            good.add((i, "text"))
            if str(args[2]).startswith("found(") and args[2] != "found(%s)" % args[1]:
                note(i, "releases a template under another text than it was found by")
            return st
        if rs == "handlebars_ast_node":
            strs = [a for a, ty in zip(args, an_types(f, i)) if ty == "handlebars_string"]
            fl = [o for o, ty in zip(i.ops, an_types(f, i)) if ty in ("i32", "i64")]
            text = strs[0] if strs else "?"
            good.add((i, "text"))
            if dict(t).get("looked up", text) != text:
                note(i, "parses another text than it looked up")
            return (s, put(t, i.res, "ast(%s)" % text if fl and all(vmflags(x) for x in fl) else "ast'(%s)" % text))
        if c == "handlebars_compiler_set_flags":
            good.add((i, "options"))
            return (s, put(t, ("flags", args[0]), "vm" if vmflags(i.ops[1]) else "other"))
        if rs == "handlebars_program":
            comp = [a for a, ty in zip(args, an_types(f, i)) if ty == "handlebars_compiler"]
            src = [a for a in args if str(a).startswith(("ast(", "ast'("))]
            okf = bool(comp) and dict(t).get(("flags", comp[0])) == "vm"
            return (s, put(t, i.res, ("prog(%s)" if okf else "prog'(%s)") % (src[0] if src else "?")))
        if rs == MOD and any(str(a).startswith("prog") for a in args):
            return (s, put(t, i.res, "mod(%s)" % next(a for a in args if str(a).startswith("prog"))))
        if c == "handlebars_cache_add":
            good.add((i, "text"))
            a = str(args[2])
            if a.startswith("mod("):
                if a != "mod(prog(ast(%s)))" % args[1]:
                    if a.replace("'", "") == "mod(prog(ast(%s)))" % args[1]:
                        note(i, "stores a template compiled with other options than the renderer's", "options")
                    else:
                        note(i, "stores a template under another text than it was made from")
            elif a.startswith("found("):
                pass        # C16
            else:
                note(i, "stores a template of unknown origin")
            return st
        for o, a in zip(i.ops, args):
            if str(a).startswith("found(") and c.startswith("handlebars_vm_") or str(a).startswith("found(") and c in execs:
                good.add((i, "options"))
                if dict(t).get(("same", a)) != "yes":
                    note(i, "executes a cached template that may have been compiled with other options", "options")
                if keyed.get(a) is None:
                    pass
        return st
    keyed = {}
    execs = P.callers_closure({"handlebars_vm_execute_program_ex"}, set())
    cl = [i.res for i in f.insts() if i.op == "load" and place(f, i.ops[0]) and place(f, i.ops[0])[:2] in fields]
    keep = [i.res for i in f.insts() if i.op == "alloca"]
    extra = finds + [i.res for i in sj] + cl
    F = PredFlow(f, preds, frozenset(), tr, cap=1500, extra=extra, keep=extra + [(k, 0) for k in keep])
    F.run()
    if F.widened:
        raise an.AnalysisError("C18: too many paths in " + f.name)
    for i, m, k in bad:
        rep.bad(k, "%s|%s" % (f.name, m), i.where(), "%s %s" % (f.name, m))
    for i, k in good:
        if not any(b[0] is i and b[2] == k for b in bad):
            rep.ok(k, i.where())


def an_types(f, i):
    """the structure each pointer argument points to, or its type"""
    M = f.mod
    out = []
    g = M.functions.get(i.x["callee"]) or (f.prog.functions.get(i.x["callee"]) if getattr(f, "prog", None) else None) or M.decls.get(i.x["callee"])
    sig = an.fn_sig(g.mod, g)[1] if g is not None else []
    for k, ty in enumerate(i.x["tys"]):
        s = an.ptr_struct(g.mod, sig[k]) if ty == "ptr" and g is not None and k < len(sig) else None
        out.append(s or ty)
    return out


def recorded(P, rep):
    """the options travel from the compiler into the template"""
    f = P.need("handlebars_program_serialize")
    st = [i for i in f.insts() if i.op == "store" and place(f, i.ops[1]) and place(f, i.ops[1])[:2] == (MOD, "flags")]
    rets = [b.term for b in f.order if b.term.op == "ret"]
    for r in rets:
        ok = [i for i in st if flagload(f, i.ops[0], "handlebars_program") is not None and an.inst_dominates(i, r)]
        rep.check(bool(ok) and len(ok) == len(st), "options", "handlebars_program_serialize", r.where(),
                  "%s does not record the options a program was compiled with" % f.name)
    n = 0
    for g in P.functions.values():
        if g.avail or g.mod.unit.startswith("bin"):
            continue
        st = [i for i in g.insts() if i.op == "store" and place(g, i.ops[1]) and place(g, i.ops[1])[:2] == ("handlebars_program", "flags")]
        for i in st:
            rep.check(flagload(g, i.ops[0], "handlebars_compiler") is not None, "options", g.name, i.where(),
                      "%s leaves other options with a program than it is compiled with" % g.name)
        sj = [i for i in g.insts() if i.op == "call" and "setjmp" in i.x["callee"]]
        if sj and any(an.pointee(g, p) == "handlebars_compiler" for _, p, _ in g.params):
            n += 1

            def tr(i, t, env):
                if i in sj:
                    return ("@env", t, {i.res: 0})
                if i.op == "call" and i.x["callee"] in ("handlebars_throw", "handlebars_throw_ex", "handlebars_rethrow"):
                    return None
                return t or i in st
            F = Flow(g, False, tr, cap=64, extra=[i.res for i in sj], keep=[i.res for i in sj])
            F.run()
            for r, t, env in F.exits:
                rep.check(t, "options", g.name + "|none", r.where(), "%s does not leave the options with the program" % g.name)
    if not n:
        raise an.AnalysisError("C18: the entry of the compiler was not found")


# --- the caches -------------------------------------------------------------------------------------------

def strval(f, v, s):
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    if d is None:
        return False
    if d.op == "call" and d.x["callee"] == "hbs_str_val":
        return d.ops[0] == s
    p = path(f, v)
    return p.base == s and not p.sym and p.off > 0


def strlen_(f, v, s):
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    if d is None:
        return False
    if d.op == "call" and d.x["callee"] == "hbs_str_len":
        return d.ops[0] == s
    return field_load(f, v, "handlebars_string", "len") == s


def lmdb(P, H, rep):
    for n in ("find", "add"):
        keys(P, H[n], n, rep)


def keys(P, f, kind, rep):
    tmpl = f.params[1][1]
    calls = [i for i in f.insts() if i.op == "call" and i.x["callee"] in ("mdb_get", "mdb_put")]
    if not calls:
        raise an.AnalysisError("C18: %s does not look at the database" % f.name)
    recs = records(f) if kind == "find" else {path(f, i.ops[3]).base for i in calls}
    der = derive(f, recs) if kind == "find" else set()
    kcell = {path(f, i.ops[2]).base for i in calls}
    bad, good = {}, set()

    def lenof(env, v):
        """is v, on this path, the length of the text"""
        for _ in range(8):
            if strlen_(f, v, tmpl):
                return True
            n = env.get(("=", v)) if isinstance(v, str) else None
            if n is None or n == v:
                return False
            v = n
        return False

    def resolve(env, L):
        d, c = dict(L[0]), L[1]
        out = {}
        for a, k in d.items():
            if lenof(env, a):
                a = "len"
            elif F.val(a, env) == 0:
                continue
            out[a] = out.get(a, 0) + k
        return {a: k for a, k in out.items() if k}, c

    def isdata(v):
        d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
        if d is None or d.op != "load":
            return False
        p = path(f, d.ops[0])
        return p.base in recs and p.off == 0 and not p.sym
    preds = {}
    for i in f.insts():
        r, a, b = cmp_of(i)
        if i.op == "icmp" and r in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                d = f.defs.get(x)
                if const_int(y) == 0 and d is not None and d.op == "call" and d.x["callee"] in ("memcmp", "bcmp"):
                    preds[i] = ("cmp:" + d.res, r == "eq", False)
                if isdata(x) and const_int(y) is None:
                    preds[i] = ("size:" + i.res, r == "eq", False)

    # state: what the key is made of: (data, size), and whether it can stand for another text; text stored after the template
    def tr(i, st, env):
        s, (kd, ks, ex) = st
        if i.op == "store":
            p = path(f, i.ops[1])
            if p.base in kcell and not p.sym:
                v = i.ops[0]
                if p.off == 0:
                    L = resolve(env, linear.lin(f, v))
                    return (s, (kd, "exact" if L == ({"len": 1}, 1) else "other", ex))
                if p.off == 8:
                    return (s, ("exact" if strval(f, v, tmpl) else "other", ks, ex))
            if kind == "add" and p.base in recs and p.off == 0 and not p.sym:
                L = resolve(env, linear.lin(f, i.ops[0]))
                return (s, (kd, ks, frozenset(x for x in ex if x != "sized") | ({"sized"} if L[0].get("len") == 1 else set())))
            return st
        if i.op == "icmp":
            r, a, b = cmp_of(i)
            if r in ("eq", "ne", "gt", "le") and const_int(b) == 0 and lenof(env, a):
                if (kd, ks) != ("exact", "exact") and kd is not None:
                    # the key is not the text itself because the text is long, so it is not empty
                    return ("@env", st, {i.res: 1 if r in ("ne", "gt") else 0})
            if i in preds and preds[i][0].startswith("size:") and (preds[i][0], True) in s:
                x, y = (a, b) if isdata(a) else (b, a)
                L = resolve(env, linear.lin(f, y))
                if L[0].get("len") == 1 and L[1] == 0 and len(L[0]) == 2:
                    return (s, (kd, ks, ex | {"size"}))
            if i in preds and preds[i][0].startswith("cmp:") and (preds[i][0], True) in s:
                d = f.defs[preds[i][0][4:]]
                sides = d.ops[:2]
                L = resolve(env, linear.lin(f, d.ops[2]))
                if any(strval(f, x, tmpl) for x in sides) and any(x in der or path(f, x).base in der for x in sides) and L == ({"len": 1}, 0):
                    return (s, (kd, ks, ex | {"text"}))
            return st
        if i.op != "call":
            return st
        c = i.x["callee"]
        if c in ("handlebars_throw", "handlebars_throw_ex"):
            return None
        if kind == "add" and is_copy(c) and strval(f, i.ops[1], tmpl):
            L = resolve(env, linear.lin(f, i.ops[2]))
            if L == ({"len": 1}, 0):
                return (s, (kd, ks, ex | {"text"}))
        if i in calls:
            good.add((i, (kd, ks)))
            if kd is None or ks is None:
                bad[(i, "uses a key it did not make")] = 1
            elif kind == "add" and (kd, ks) != ("exact", "exact") and not {"text", "sized"} <= ex:
                bad[(i, "stores a template under a key that may stand for another text, without the text")] = 1
            elif kind == "add" and (kd, ks) == ("exact", "exact") and ("text" in ex):
                bad[(i, "stores the text with a template that is looked up without")] = 1
            if kind == "find":
                return (s, (kd, ks, frozenset()))
        return st
    ext = [i.res for i in preds] + [i.res for i in f.insts() if i.op == "phi"]
    keep = [b.term.ops[0] for b in f.order if b.term.op == "ret" and b.term.ops and isinstance(b.term.ops[0], str)] + \
        [i.res for i in f.insts() if i.op == "phi"]
    F = PredFlow(f, preds, (None, None, frozenset()), tr, cap=1500, extra=ext + keep, keep=keep)
    F.run()
    if F.widened:
        raise an.AnalysisError("C18: too many paths in " + f.name)
    if kind == "find":
        for r, (s, (kd, ks, ex)), env in F.exits:
            if F.val(r.ops[0], env) == 0:
                continue
            ok = (kd, ks) == ("exact", "exact") or {"size", "text"} <= ex
            rep.check(ok, "key", f.name + "|lmdb", r.where(), "%s may return the template of another text with the same key" % f.name)
    for i, m in bad:
        rep.bad("key", "%s|%s" % (f.name, m), i.where(), "%s %s" % (f.name, m))
    for i, k in good:
        if not any(b[0] is i for b in bad):
            rep.ok("key", i.where())


def origins(f, v, depth=0):
    """what a value was read from, through pointers"""
    out = set()
    for l in an.leaves(f, v):
        out.add(l)
        d = f.defs.get(an.strip(f, l)) if isinstance(l, str) else None
        if d is not None and d.op == "load" and depth < 6:
            out |= origins(f, path(f, d.ops[0]).base, depth + 1)
    return out


def mmap(P, H, rep):
    f = H["find"]
    key = f.params[1][1]
    preds = {}
    for i in f.insts():
        if i.op == "call" and i.x["callee"] in ("handlebars_string_eq",) and key in i.ops:
            o = i.ops[0] if i.ops[1] == key else i.ops[1]
            d = f.defs.get(an.strip(f, o))
            e = path(f, d.ops[0]).base if d is not None and d.op == "load" else None
            if e and place(f, d.ops[0]) is not None and path(f, d.ops[0]).off == 0:
                preds[i] = ("same:" + e, True, False)

    def tr(i, st, env):
        return None if i.op == "call" and i.x["callee"] in ("handlebars_throw", "handlebars_throw_ex") else st
    rets = [b.term.ops[0] for b in f.order if b.term.op == "ret" and b.term.ops and isinstance(b.term.ops[0], str)]
    F = PredFlow(f, preds, 0, tr, extra=rets, keep=rets, cap=900)
    F.run()
    if F.widened:
        raise an.AnalysisError("C18: too many paths in " + f.name)
    for r, (s, _), env in F.exits:
        v = r.ops[0]
        if F.val(v, env) == 0:
            continue
        v = env.get(("=", v), v)
        org = {x for l in an.leaves(f, v) for x in origins(f, l)}
        ok = any(b and k[5:] in org for k, b in s if k.startswith("same:"))
        rep.check(ok, "key", f.name + "|mmap", r.where(), "%s may return the template of another text in the same place of the table" % f.name)
    # stored under a copy of the key
    g = H["add"]
    key, mod = g.params[1][1], g.params[2][1]
    srcs = {}
    for i in g.insts():
        if i.op == "call" and is_copy(i.x["callee"]):
            srcs.setdefault(i.ops[1], []).append(i)
    for i in srcs.get(key, []):
        L = linear.lin(g, i.ops[2])
        lens = [a for a in L[0] if strlen_(g, a, key)]
        ok = len(L[0]) == 1 and bool(lens) and L[1] > 0
        if not ok:
            ok = any(strlen_(g, a, key) for a in feeds(g, i.ops[2]))
        rep.check(ok, "key", g.name + "|mmap copy", i.where(), "%s does not store the whole text" % g.name)
    rep.check(bool(srcs.get(key)), "key", g.name + "|mmap", g.order[0].insts[0].where(), "%s does not store the text with the template" % g.name)


def feeds(f, v, depth=0):
    out = {v}
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is not None and depth < 8 and d.op not in ("load", "call"):
        for o in d.ops:
            if isinstance(o, str):
                out |= feeds(f, o, depth + 1)
            elif isinstance(o, tuple):
                out |= feeds(f, o[0], depth + 1)
    return out


def simple(P, H, rep):
    f = H["find"]
    key = f.params[1][1]
    fs = [i for i in f.insts() if i.op == "call" and i.x["callee"] in ("handlebars_map_find", "handlebars_map_str_find")]
    for b in f.order:
        if b.term.op == "ret":
            org = set()
            for l in an.leaves(f, b.term.ops[0]):
                if l == "null":
                    continue
                d = f.defs.get(l)
                src = [i for i in fs if d is not None and (d.op == "call" and i.res in d.ops or i.res in origins(f, l))]
                ok = bool(src) and all(i.ops[1] == key for i in src)
                rep.check(ok, "key", f.name + "|simple", b.term.where(), "%s returns a template that was not looked up by the text" % f.name)
    g = H["add"]
    key = g.params[1][1]
    n = 0
    for i in g.insts():
        if i.op == "call" and i.x["callee"] in ("handlebars_map_add", "handlebars_map_update"):
            n += 1
            ok = True
            for l in an.leaves(g, i.ops[1]):
                d = g.defs.get(l)
                same = l == key or d is not None and d.op == "call" and (
                    d.x["callee"] == "handlebars_string_copy_ctor" and d.ops[1] == key or
                    d.x["callee"] == "handlebars_string_ctor" and strval(g, d.ops[1], key) and strlen_(g, d.ops[2], key))
                ok = ok and same
            rep.check(ok, "key", g.name + "|simple", i.where(), "%s stores a template under another text" % g.name)
    if not n:
        raise an.AnalysisError("C18: the in-process cache stores nothing")


def facade(P, rep):
    """the interface of the caches hands text and template on unchanged"""
    for nm in ("handlebars_cache_find", "handlebars_cache_add", "handlebars_cache_release"):
        f = P.need(nm)
        cs = [i for i in f.insts() if i.op == "call" and not i.x["callee"].startswith(("@", "handlebars_", "llvm."))]
        ps = [p for _, p, _ in f.params]
        for i in cs:
            rep.check(list(i.ops) == ps, "key", nm, i.where(), "%s does not hand on what it was given" % nm)
        if not cs:
            raise an.AnalysisError("C18: %s calls no cache" % nm)
