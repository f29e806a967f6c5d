"""C13: only intact, suitable templates come out of a cache."""
from .. import an, cachemod, linear
from ..an import const_int, path, place
from ..cachemod import PredFlow, rel, field_load, size_of
from .c15 import Seg, slot, is_copy
from .c17 import derive

RULE = ("Must-happen-before analysis over the lookups, stores and the checksum: a record of the database is looked into only after its size was "
        "found sufficient, and used only after the stated size was found to lie within it and its checksum and version verified; the "
        "verification says yes only if checksum and version both match; the checksum covers everything from the version to the end "
        "and storing computes it the same way, last, over position-independent content; a template leaves the lookup relocated; the "
        "shared memory cache compares version and address and stores templates relocated to where they are.")
ASSUME = ["LMDB returns records as they were stored or as the file has them", "xxh3 tells different contents apart"]
MOD = "handlebars_module"


def run(ctx, rep):
    P = ctx.inl
    Z = size_of(P, MOD)
    H = cachemod.backend(P, "lmdb")
    find(P, H["find"], Z, rep)
    for n in ("gc", "stat", "reset"):
        touched(P, H[n], Z, rep)
    add(P, H["add"], rep)
    verify(P, rep)
    mm(P, cachemod.backend(P, "mmap"), rep)
    rep.floor("verified", 4, "ways out with a template")
    rep.floor("complete", 3, "reads of records")
    rep.floor("checksum", 4, "facts about the checksum")
    rep.floor("stored", 3, "stores")


def records(f):
    r = {path(f, o).base for i in f.insts() if i.op == "call" and i.x["callee"] in ("mdb_get", "mdb_cursor_get")
         for o in i.ops[2 if i.x["callee"] == "mdb_get" else 1:][:2]}
    r -= {path(f, i.ops[2]).base for i in f.insts() if i.op == "call" and i.x["callee"] == "mdb_get"}
    return r


def preds_of(f, recs, der, Z):
    """recognised comparisons of the size of a record"""
    preds = {}

    def mv(v):
        d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
        p = path(f, d.ops[0]) if d is not None and d.op == "load" else None
        return p is not None and p.base in recs and p.off == 0 and not p.sym

    def stated(v):
        b = field_load(f, v, MOD, "size")
        return b is not None and b in der

    def const(v):
        return const_int(v) is not None
    for i in f.insts():
        for nm, a, b, need in (("large", mv, const, Z), ("fits", mv, stated, None), ("header", stated, const, Z)):
            r = rel(i, a, b)
            if r is None:
                continue
            if need is not None:
                k = const_int(i.ops[1]) if const(i.ops[1]) else const_int(i.ops[0])
                yes = (r == "ge" and k >= need) or (r == "gt" and k >= need - 1) or (r == "eq" and k >= need)
                no = (r == "lt" and k >= need) or (r == "le" and k >= need - 1) or (r == "ne" and k >= need)
            else:
                yes, no = r in ("ge", "eq", "gt"), r in ("lt", "ne", "le")
            if yes or no:
                preds[i] = (nm, yes, False)
    return preds


def has(s, k):
    return (k, True) in s


def inside(f, i, p, n, recs, der):
    """the n bytes at p lie inside the record according to the facts that hold here"""
    off = ({}, p.off)
    for v, z in p.sym:
        off = linear.comb(off, linear.lin(f, v), z)
    end = linear.comb(off, n, 1)
    fs = an.dom_facts(i)
    for b in f.insts():
        if b.op == "load":
            q = path(f, b.ops[0])
            if q.base in recs and q.off == 0 and not q.sym and an.inst_dominates(b, i):
                if linear.prove(f, linear.comb(linear.lin(f, b.res), end, -1), fs):
                    return True
    return False


def walk(P, f, Z, rep, verify_needed):
    """follow a record through f; returns the exits"""
    recs = records(f)
    der = derive(f, recs)
    preds = preds_of(f, recs, der, Z)
    bad, good = {}, set()

    def note(i, m):
        bad.setdefault((i, m), None)

    # own: (verified?, copies of the record {value: relocated?})
    def tr(i, t, env):
        s, (ver, cp) = t
        if i.op == "load" or i.op == "store":
            a = i.ops[0] if i.op == "load" else i.ops[1]
            p = path(f, a)
            if p.base in der or a in der:
                good.add(i)
                if not has(s, "large"):
                    note(i, "looks into a record that may be shorter than a template's header")
                elif p.sym or p.off >= Z:
                    if not inside(f, i, p, ({}, 1), recs, der):
                        note(i, "looks at a part of a record that may not be there")
            return t
        if i.op != "call":
            return t
        c = i.x["callee"]
        if c in ("mdb_get", "mdb_cursor_get"):
            return (frozenset(), (False, cp))
        if c == "handlebars_module_verify" and i.ops[0] in der:
            good.add(i)
            if not (has(s, "large") and has(s, "fits") and has(s, "header")):
                note(i, "verifies a record before knowing that all of it is there")
            return [("@env", (s, (True, cp)), {i.res: 1})] + \
                ([("@env", (s, (False, cp)), {i.res: 0})] if i.ops[1] == "null" else [])
        if is_copy(c) and i.ops[1] in der:
            good.add(i)
            n = linear.lin(f, i.ops[2])
            whole = field_load(f, i.ops[2], MOD, "size") in der
            if not ver:
                note(i, "copies a record that was not verified")
            if not (whole and has(s, "fits")) and not inside(f, i, path(f, i.ops[1]), n, recs, der):
                note(i, "copies more than the record has")
            b = path(f, i.ops[0]).base
            return (s, (ver, frozenset({x for x in cp if x[0] != b} | {(b, False)})))
        if c in ("memcmp", "bcmp") and any(o in der for o in i.ops[:2]):
            good.add(i)
            for o in i.ops[:2]:
                if o in der and not inside(f, i, path(f, o), linear.lin(f, i.ops[2]), recs, der):
                    note(i, "compares a part of a record that may not be there")
            return t
        if c == "handlebars_module_patch_pointers":
            b = path(f, i.ops[0]).base
            return (s, (ver, frozenset((x, True if x == b else y) for x, y in cp)))
        return t
    rets = [b.term.ops[0] for b in f.order if b.term.op == "ret" and b.term.ops and isinstance(b.term.ops[0], str)]
    vs = [i.res for i in f.insts() if i.op == "call" and i.x["callee"] == "handlebars_module_verify"]
    F = PredFlow(f, preds, (False, frozenset()), tr, cap=1500, extra=rets + vs, keep=rets + vs)
    F.run()
    if F.widened:
        raise an.AnalysisError("C13: too many paths in " + f.name)
    for i, m in bad:
        rep.bad("complete", "%s|%s" % (f.name, m), i.where(), "%s %s" % (f.name, m))
    for i in good:
        if not any(b[0] is i for b in bad):
            rep.ok("complete", i.where())
    return F


def find(P, f, Z, rep):
    F = walk(P, f, Z, rep, True)
    for r, (s, (ver, cp)), env in F.exits:
        v = F.val(r.ops[0], env)
        if v == 0:
            continue
        ls = [l for l in an.leaves(f, r.ops[0]) if l != "null"]
        al = env.get(("=", r.ops[0]))
        if al:
            ls = [al]
        rep.check(ver, "verified", f.name + "|verify", r.where(), "%s returns a template whose checksum and version were not verified" % f.name)
        for l in ls:
            b = path(f, l).base
            rep.check((b, True) in cp, "verified", f.name + "|relocate", r.where(),
                      "%s returns a template that was not relocated to where it is" % f.name)


def touched(P, f, Z, rep):
    if any(i.op == "call" and i.x["callee"] in ("mdb_get", "mdb_cursor_get") for i in f.insts()):
        walk(P, f, Z, rep, False)


def add(P, f, rep):
    """what is stored: own copy, normalized, checksum last"""
    mod = f.params[2][1]
    from .c15 import Writes
    W = Writes(P)
    puts = [i for i in f.insts() if i.op == "call" and i.x["callee"] in ("mdb_put", "mdb_cursor_put")]
    if not puts:
        raise an.AnalysisError("C13: nothing is stored")
    for put in puts:
        rec = path(f, put.ops[3]).base
        srcs = {path(f, i.ops[0]).base for i in f.insts() if i.op == "store" and path(f, i.ops[1]).base == rec and path(f, i.ops[1]).off == 8}
        rep.check(bool(srcs) and mod not in srcs, "stored", f.name + "|own", put.where(), "%s stores the caller's template itself" % f.name)
        for src in srcs:
            bad = {}

            # state of the copy: 0 nothing, 1 copied, 2 relocated to itself, 3 normalized, 4 checksummed
            def tr(i, t, env):
                if i.op == "store" and path(f, i.ops[1]).base == src:
                    return min(t, 3)
                if i.op != "call":
                    return t
                c = i.x["callee"]
                if is_copy(c) and path(f, i.ops[0]).base == src:
                    p = path(f, i.ops[0])
                    if path(f, i.ops[1]).base == mod and not p.sym and not p.off:
                        return 1
                    # behind the template
                    if len(p.sym) == 1 and not p.off and p.sym[0][1] == 1 and field_load(f, p.sym[0][0], MOD, "size") in (mod, src):
                        return t
                    return min(t, 3)
                if i.ops and path(f, i.ops[0]).base == src:
                    if c == "handlebars_module_patch_pointers":
                        return 2 if t else t
                    if c == "handlebars_module_normalize_pointers":
                        if const_int(i.ops[1]) != 0 and i.ops[1] != "null":
                            return 1 if t else t
                        return 3 if t >= 2 else t
                    if c == "handlebars_module_generate_hash":
                        return 4 if t == 3 else t
                if i is put:
                    if t != 4:
                        bad[i] = {0: "something else than the template", 1: "the template with the addresses of this process",
                                  2: "the template with the addresses of this process",
                                  3: "the template without a checksum of its final content"}[t]
                    return t
                if not c.startswith(("llvm.", "@llvm.")):
                    for k, o in enumerate(i.ops):
                        if isinstance(o, str) and path(f, o).base == src and t == 4:
                            if any(W.param(n, k) for n in P.targets(i) or {c}) and "free" not in c and not c.startswith("%"):
                                return 3
                return t
            from ..flow import Flow
            F = Flow(f, 0, tr, cap=400)
            F.run()
            for i, m in bad.items():
                rep.bad("stored", f.name + "|" + m, i.where(), "%s stores %s" % (f.name, m))
            if not bad:
                rep.ok("stored", put.where())
        # its size: that of the template, plus what was put behind it
        for i in f.insts():
            if i.op == "store" and path(f, i.ops[1]).base == rec and path(f, i.ops[1]).off == 0:
                e = linear.lin(f, i.ops[0])
                sz = [j for j in f.insts() if j.op == "load" and field_load(f, j.res, MOD, "size") in srcs | {mod}]
                ok = any(linear.comb(e, linear.lin(f, j.res), -1)[1] >= 0 and
                         all(k > 0 for k in linear.comb(e, linear.lin(f, j.res), -1)[0].values()) for j in sz)
                rep.check(ok, "stored", f.name + "|size", i.where(), "%s stores less than the whole template" % f.name)


def hashargs(f, i):
    """(base, offset, size) hashed by a call"""
    p = path(f, i.ops[0])
    return (p.base, p.off, tuple(p.sym)), linear.lin(f, i.ops[1])


def verify(P, rep):
    f = P.need("handlebars_module_verify")
    g = P.need("handlebars_module_generate_hash")
    m, gm = f.params[0][1], g.params[0][1]
    mem = {n: o // 8 for n, o, _, _ in P.struct(MOD)}
    cover = {}
    for h, b in ((f, m), (g, gm)):
        cs = [i for i in h.insts() if i.op == "call" and i.res and len(i.ops) >= 2 and path(h, i.ops[0]).base == b and
              i.x["callee"].startswith("handlebars_hash")]
        if not cs:
            raise an.AnalysisError("C13: %s computes no checksum" % h.name)
        i = cs[0]
        (_, off, sym), n = hashargs(h, i)
        szs = [j for j in h.insts() if j.op == "load" and field_load(h, j.res, MOD, "size") == b]
        full = any(linear.comb(n, linear.lin(h, j.res), -1) == ({}, -off) for j in szs)
        first = min(o for k, o in mem.items() if k not in ("header", "hash"))
        rep.check(not sym and off <= first and full and not (off < mem["hash"] + 8 and off > mem["hash"] - 1), "checksum", h.name + "|cover",
                  i.where(), "%s: the checksum does not cover the template from its version to its end" % h.name)
        cover[h.name] = (i.x["callee"], off)
    rep.check(len(set(cover.values())) == 1, "checksum", "same", g.name, "the checksum is verified otherwise than it is computed: %s" % cover)
    st = [i for i in g.insts() if i.op == "store" and place(g, i.ops[1]) and place(g, i.ops[1])[:2] == (MOD, "hash")]
    rets = [b.term for b in g.order if b.term.op == "ret"]
    ok = st and all(g.defs.get(i.ops[0]) is not None and g.defs[i.ops[0]].op == "call" and g.defs[i.ops[0]].x["callee"].startswith("handlebars_hash")
                    for i in st) and all(an.inst_dominates(st[0], r) for r in rets)
    rep.check(bool(ok), "checksum", "kept", g.order[0].insts[0].where(), "%s does not store the checksum" % g.name)
    preds = {}

    def call(pref):
        return lambda v: isinstance(v, str) and f.defs.get(an.strip(f, v)) is not None and f.defs[an.strip(f, v)].op == "call" and \
            f.defs[an.strip(f, v)].x["callee"].startswith(pref)
    for i in f.insts():
        for nm, a, k in (("hash", call("handlebars_hash"), "hash"), ("version", call("handlebars_version"), "version")):
            r = rel(i, a, lambda v: field_load(f, v, MOD, k) == m)
            if r in ("eq", "ne"):
                preds[i] = (nm, r == "eq", False)
    rets = [b.term.ops[0] for b in f.order if b.term.op == "ret" and isinstance(b.term.ops[0], str)]
    F = PredFlow(f, preds, 0, lambda i, t, e: None if i.op == "call" and i.x["callee"] in ("handlebars_throw", "handlebars_throw_ex") else t,
                 extra=rets, keep=rets)
    F.run()
    n = 0
    for r, (s, _), env in F.exits:
        if F.val(r.ops[0], env) == 0:
            continue
        n += 1
        for k, w in (("hash", "checksum"), ("version", "version")):
            rep.check(has(s, k), "checksum", "yes|" + k, r.where(), "%s says yes to a template with another %s" % (f.name, w))
    if not n:
        rep.bad("checksum", "yes|never", f.order[0].insts[0].where(), "%s never says yes" % f.name)


def mm(P, H, rep):
    G = Seg(P)
    f = H["find"]
    sh = G.shared(f)
    preds = {}

    def ver(v):
        return isinstance(v, str) and f.defs.get(an.strip(f, v)) is not None and f.defs[an.strip(f, v)].op == "call" and \
            f.defs[an.strip(f, v)].x["callee"] == "handlebars_version"
    for i in f.insts():
        r = rel(i, ver, lambda v: field_load(f, v, MOD, "version") in sh)
        if r in ("eq", "ne"):
            preds[i] = ("version", r == "eq", False)
        for a, b in ((0, 1), (1, 0)):
            if i.op == "icmp" and i.x in ("eq", "ne") and field_load(f, i.ops[a], MOD, "addr") is not None and \
                    an.strip(f, i.ops[b]) == an.strip(f, field_load(f, i.ops[a], MOD, "addr")):
                preds[i] = ("address", i.x == "eq", False)
    rets = [b.term.ops[0] for b in f.order if b.term.op == "ret" and isinstance(b.term.ops[0], str)]
    F = PredFlow(f, preds, 0, lambda i, t, e: None if i.op == "call" and i.x["callee"] in ("handlebars_throw", "handlebars_throw_ex") else t,
                 extra=rets, keep=rets, cap=900)
    F.run()
    if F.widened:
        raise an.AnalysisError("C13: too many paths in " + f.name)
    for r, (s, _), env in F.exits:
        if F.val(r.ops[0], env) == 0:
            continue
        for k in ("version", "address"):
            rep.check(has(s, k), "verified", "%s|%s" % (f.name, k), r.where(),
                      "%s returns a template without comparing its %s" % (f.name, k))
    f = H["add"]
    sh = G.shared(f)
    slots = [i for i in f.insts() if i.op == "store" and i.ty == "ptr" and i.ops[0] != "null" and slot(f, G, i.ops[1])]
    mods = [i for i in f.insts() if i.op == "call" and is_copy(i.x["callee"]) and i.ops[0] in sh and path(f, i.ops[1]).base == f.params[2][1]]
    for c in mods:
        n = linear.lin(f, c.ops[2])
        whole = field_load(f, c.ops[2], MOD, "size") == f.params[2][1]
        rep.check(whole, "stored", f.name + "|size", c.where(), "%s stores something else than the whole template" % f.name)
        for s in slots:
            ok = any(j.op == "call" and j.x["callee"] == "handlebars_module_patch_pointers" and an.inst_dominates(j, s) and
                     c.ops[0] in alias(f, j.ops[0]) for j in f.insts())
            rep.check(ok, "stored", f.name + "|relocate", s.where(), "%s makes a template available that was not relocated to where it is" % f.name)
    if not mods or not slots:
        raise an.AnalysisError("C13: the shared memory cache stores nothing")


def alias(f, v):
    """values v may be, through joins and local variables"""
    out, work = set(), [v]
    while work:
        x = work.pop()
        if x in out or not isinstance(x, str):
            continue
        out.add(x)
        for l in an.leaves(f, x):
            work.append(l)
        d = f.defs.get(x)
        if d is not None and d.op == "load":
            p = path(f, d.ops[0])
            b = f.defs.get(p.base)
            if b is not None and b.op == "alloca":
                for i in f.insts():
                    if i.op == "store" and path(f, i.ops[1]).key() == p.key():
                        work.append(i.ops[0])
    return out
