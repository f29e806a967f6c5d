"""C14: expired templates are not served, and are collected."""
from .. import an, cachemod
from ..an import const_int, path, place
from ..cachemod import PredFlow, rel, field_load
from .c15 import Seg, is_copy
from .c17 import derive
from .c13 import records

RULE = ("Path-sensitive dataflow over the lookups and collections of the caches: a lookup of the database and the shared memory cache returns a "
        "template only on paths where no maximum age is set or the time since that template was stored, measured by the clock read "
        "in the same call, was found to be less; a collection passes over no entry whose age it found to have reached the maximum; "
        "the in-process cache goes through its entries oldest first; the time of a template is set when it is compiled.")
ASSUME = ["the clock does not go backwards", "the in-process cache counts a template's age from its last use and applies it when collecting"]
MOD, CACHE = "handlebars_module", "handlebars_cache"


def run(ctx, rep):
    P = ctx.inl
    for w in ("lmdb", "mmap"):
        lookup(P, w, cachemod.backend(P, w)["find"], rep)
    for w in ("lmdb", "simple"):
        collect(P, cachemod.backend(P, w)["gc"], rep)
    compare(P, cachemod.backend(P, "simple")["gc"], rep)
    stamped(P, rep)
    rep.floor("fresh", 2, "ways out of lookups")
    rep.floor("collected", 2, "ways on from expired entries")
    rep.floor("stamp", 1, "compiled templates")


def isnow(f, v):
    """v is the current time, read in this call"""
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    if d is None:
        return False
    if d.op == "call":
        return d.x["callee"] == "time"
    if d.op == "load":
        p = path(f, d.ops[0])
        a = f.defs.get(p.base)
        if a is None or a.op != "alloca":
            return False
        st = [i for i in f.insts() if i.op == "store" and path(f, i.ops[1]).key() == p.key()]
        if st:
            return all(isnow(f, i.ops[0]) for i in st)
        return any(i.op == "call" and i.x["callee"] == "time" and path(f, i.ops[0]).key() == p.key() and an.inst_dominates(i, d)
                   for i in f.insts())
    return False


def age_of(f, v):
    """base of the template whose age v is"""
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    while d is not None and d.op in ("sitofp", "uitofp", "sext", "zext"):
        d = f.defs.get(d.ops[0])
    if d is None:
        return None
    if (d.op == "call" and d.x["callee"] == "difftime") or d.op == "sub":
        if isnow(f, d.ops[0]):
            return field_load(f, d.ops[1], MOD, "ts")
    return None


def maxage(f, v):
    return field_load(f, v, CACHE, "max_age") is not None


def zero(v):
    if const_int(v) == 0:
        return True
    try:
        return isinstance(v, str) and float(v) == 0.0
    except ValueError:
        return False


def preds_of(f):
    preds, ages = {}, {}
    for i in f.insts():
        r = rel(i, lambda v: maxage(f, v), zero)
        if r in ("lt", "ge"):
            preds[i] = ("unlimited", r == "lt", False)
            continue
        b = None
        r = rel(i, lambda v: age_of(f, v) is not None, lambda v: maxage(f, v))
        if r:
            b = next(age_of(f, o) for o in i.ops if age_of(f, o) is not None)
            if r in ("lt", "ge"):
                preds[i] = ("young:" + b, r == "lt", False)
            elif r in ("le", "gt"):
                preds[i] = ("notover:" + b, r == "le", False)
    return preds


def lookup(P, w, f, rep):
    preds = preds_of(f)
    der = derive(f, records(f)) if w == "lmdb" else set()
    rets = [b.term.ops[0] for b in f.order if b.term.op == "ret" and b.term.ops and isinstance(b.term.ops[0], str)]
    copies = {}
    for i in f.insts():
        if i.op == "call" and is_copy(i.x["callee"]) and isinstance(i.ops[1], str):
            copies.setdefault(path(f, i.ops[0]).base, set()).add(an.strip(f, i.ops[1]))

    def tr(i, t, env):
        return None if i.op == "call" and i.x["callee"] in ("handlebars_throw", "handlebars_throw_ex") else t
    F = PredFlow(f, preds, 0, tr, extra=rets, keep=rets, cap=900)
    F.run()
    if F.widened:
        raise an.AnalysisError("C14: too many paths in " + f.name)
    for r, (s, _), env in F.exits:
        v = r.ops[0]
        if F.val(v, env) == 0:
            continue
        v = env.get(("=", v), v)
        ls = {l for l in an.leaves(f, v) if l != "null"}
        bases = set(ls)
        for l in ls:
            bases |= copies.get(path(f, l).base, set())
        # the record may be read through several pointers
        own = {b for b in bases} | (der if any(b in der for b in bases) else set())
        ok = ("unlimited", True) in s or any(b and k.startswith("young:") and k[6:] in own for k, b in s)
        rep.check(ok, "fresh", f.name + "|" + w, r.where(), "%s (%s) returns a template whose age may have reached the maximum" % (f.name, w))


def collect(P, f, rep):
    preds = preds_of(f)
    if not any(n.startswith(("young", "notover")) for n, _, _ in preds.values()):
        rep.bad("collected", f.name + "|" + f.mod.unit, f.order[0].insts[0].where(), "%s does not look at the age of entries" % f.name)
        return
    bad, good = {}, set()
    queue = set()   # where the keys to remove are gathered
    for i in f.insts():
        if i.op == "call" and i.x["callee"] == "handlebars_map_remove":
            for l in an.leaves(f, i.ops[1]):
                d = f.defs.get(l)
                if d is not None and d.op == "load":
                    b = path(f, d.ops[0]).base
                    if b in f.defs and f.defs[b].op == "call":
                        queue.add(b)

    def expired(s):
        for k, b in s:
            if not b and k.startswith(("young:", "notover:")) and ("unlimited", False) in s:
                return True
        return False

    def tr(i, t, env):
        s, (got, more) = t

        def leave(where):
            if expired(s):
                good.add(where)
                if not got:
                    bad.setdefault(where, "passes over an entry that has expired")
        if i.op == "load" and field_load(f, i.res, MOD, "ts") is not None:
            leave(i)
            return (frozenset(x for x in s if x[0] == "unlimited"), (False, more))
        if i.op == "store" and path(f, i.ops[1]).base in queue:
            return (s, (True, more))
        if i.op == "call" and i.x["callee"] in ("mdb_del", "mdb_cursor_del", "handlebars_map_remove"):
            if i.x["callee"] == "handlebars_map_remove" and not got:
                leave(i)
                return (frozenset(x for x in s if x[0] == "unlimited"), (False, more))
            return (s, (True, more))
        if i.op == "call" and i.x["callee"] in ("handlebars_throw", "handlebars_throw_ex"):
            return None
        if i.op == "call" and i.x["callee"] in ("mdb_cursor_get", "handlebars_map_rehash", "handlebars_map_get_kv_at_index"):
            leave(i)
            rest = frozenset(x for x in s if x[0] == "unlimited")
            if i.x["callee"] == "mdb_cursor_get" and i.res:
                return [("@env", (rest, (False, True)), {i.res: 0}), ("@env", (rest, (False, False)), {i.res: "nn"})]
            return (rest, (False, more))
        if i.op == "ret":
            leave(i)
            if more:
                bad.setdefault(i, "stops before it went through all entries")
        return t
    cur = [i.res for i in f.insts() if i.op == "call" and i.res and i.x["callee"] == "mdb_cursor_get"]
    F = PredFlow(f, preds, (False, False), tr, cap=900, extra=cur, keep=cur)
    F.run()
    if F.widened:
        raise an.AnalysisError("C14: too many paths in " + f.name)
    for i, m in bad.items():
        rep.bad("collected", "%s|%s" % (f.name, f.mod.unit), i.where(), "%s %s" % (f.name, m))
    for i in good:
        if i not in bad:
            rep.ok("collected", i.where())


def compare(P, f, rep):
    sorts = [i for i in f.insts() if i.op == "call" and i.x["callee"] in ("handlebars_map_sort", "handlebars_map_sort_r")]
    for i in sorts:
        g = P.find(i.ops[1].lstrip("@"), f.mod.unit) if isinstance(i.ops[1], str) else None
        if g is None:
            raise an.AnalysisError("C14: comparison at %s not found" % i.where())
        for sg in (1, 0, -1):
            r = evaluate(g, sg)
            rep.check(r is not None and (r > 0) - (r < 0) == sg, "oldest", "%s|%d" % (g.name, sg), g.order[0].insts[0].where(),
                      "%s does not order entries by age, oldest first" % g.name)


def evaluate(g, sg):
    """result of a comparison function when the first entry is younger (1), as old (0) or older (-1)"""
    p1, p2 = g.params[0][1], g.params[1][1]

    def side(v):
        b, n = v, 0
        while isinstance(b, str) and n < 20:
            n += 1
            if b in (p1, p2):
                return 1 if b == p1 else 2
            d = g.defs.get(b)
            if d is None or not d.ops:
                return None
            b = d.ops[0] if d.op != "phi" else None
        return None
    env = {}

    def val(v):
        c = const_int(v)
        if c is not None:
            return c
        try:
            return float(v)
        except (TypeError, ValueError):
            return env.get(v)
    b, prev = g.order[0], None
    for _ in range(60):
        new = {}
        for i in b.insts:
            if i.op == "phi":
                new[i.res] = next((val(o) for o, l in i.ops if l == prev), None)
        env.update(new)
        for i in b.insts:
            o = i.ops
            if i.op == "call" and i.x["callee"] == "difftime" or i.op == "sub" and \
                    all(field_load(g, x, MOD, "ts") is not None for x in o):
                a, c = side(o[0]), side(o[1])
                if {a, c} == {1, 2}:
                    env[i.res] = sg if a == 1 else -sg
            elif i.op in ("icmp", "fcmp"):
                if all(field_load(g, x, MOD, "ts") is not None for x in o) and {side(o[0]), side(o[1])} == {1, 2}:
                    a, c = (sg, 0) if side(o[0]) == 1 else (0, sg)
                else:
                    a, c = val(o[0]), val(o[1])
                r, _, _ = cachemod.cmp_of(i)
                if a is not None and c is not None:
                    env[i.res] = int({"eq": a == c, "ne": a != c, "lt": a < c, "le": a <= c, "gt": a > c, "ge": a >= c}[r])
            elif i.op in ("zext", "sext", "trunc", "fptosi", "sitofp", "freeze"):
                x = val(o[0])
                if x is not None:
                    env[i.res] = -x if i.op == "sext" and i.x == "i1" else x
            elif i.op in ("add", "sub", "mul", "xor", "or", "and"):
                x, y = val(o[0]), val(o[1])
                if x is not None and y is not None:
                    env[i.res] = {"add": x + y, "sub": x - y, "mul": x * y, "xor": int(x) ^ int(y), "or": int(x) | int(y),
                                  "and": int(x) & int(y)}[i.op]
            elif i.op == "select":
                x = val(o[0])
                if x is not None:
                    env[i.res] = val(o[1] if x else o[2])
            elif i.op == "ret":
                return val(o[0])
        t = b.term
        if t.op == "br":
            prev = b.name
            if len(t.x) == 2:
                c = val(t.ops[0])
                if c is None:
                    return None
                b = g.blocks[t.x[0] if c else t.x[1]]
            else:
                b = g.blocks[t.x[0]]
        else:
            return None
    return None


def stamped(P, rep):
    f = P.need("handlebars_program_serialize")
    ok = []
    for i in f.insts():
        a = None
        if i.op == "call" and i.x["callee"] == "time" and i.ops[0] != "null":
            a = i.ops[0]
        elif i.op == "store" and isnow(f, i.ops[0]):
            a = i.ops[1]
        if a and place(f, a) and place(f, a)[:2] == (MOD, "ts"):
            ok.append(i)
    for b in f.order:
        if b.term.op == "ret":
            rep.check(any(an.inst_dominates(i, b.term) for i in ok), "stamp", f.name, b.term.where(),
                      "%s returns a template without the time it was made" % f.name)
