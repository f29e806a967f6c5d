"""C01: a failed memory allocation is never used."""
from .. import an
from ..an import cname, const_int, path
from ..nullness import ALLOC, RET_ARG

RULE = ("Interprocedural null-flow over every function of the library: each result of an allocating call (talloc "
        "family behind the memory hooks, libc, scanner allocator, and every function of the program that can hand such a "
        "null on) must be compared with null, on every path, before it is dereferenced, passed to a parameter that is "
        "dereferenced, or left behind in memory reachable after the function returns; an error raised because the "
        "pointer is null must carry the out-of-memory code.")
ASSUME = ["external functions used by the code dereference their pointer arguments unless listed as null-tolerant",
          "talloc/libc allocation functions are the allocation primitives (list ALLOC in nullness.py)"]


def stored_unchecked(N, f, i):
    """allocation result published in memory and control can leave the function without a null test"""
    v = i.res
    st = [u for u in f.users.get(v, []) if u.op == "store" and u.ops[0] == v]
    if not st:
        return None
    seen = set()
    work = [(i.block, i.idx + 1)]
    published = {}
    IN = N.flow(f)
    while work:
        b, k = work.pop()
        if (b, k) in seen:
            continue
        seen.add((b, k))
        for j in b.insts[k:]:
            if j.op == "ret":
                if j.ops and v in an.leaves(f, j.ops[0]):
                    break
                return st[0]
            if j.op == "call" and j is not i and v in j.ops:
                pass
        t = b.term
        if t.op in ("ret", "unreachable"):
            continue
        for s in b.succs:
            if any(x[1] == v and x[2] == "null" for x in an.edge_facts(b, s)):
                continue      # tested here
            work.append((s, 0))
    return None


def run(ctx, rep):
    N, P = ctx.null, ctx.raw
    nomem = P.enum("HANDLEBARS_NOMEM")
    throws = {"handlebars_throw", "handlebars_throw_ex"}
    nfun = 0
    for f in P.functions.values():
        if f.mod.unit in ("handlebars_memory.c", "bin/handlebarsc.c"):
            continue
        nfun += 1
        bad = {}
        sites = {}
        for i in f.calls():
            q = N.call_nullness(i) if i.ty == "ptr" else None
            if q and "alloc" in q:
                sites[i.res] = (i, q)
        for i, v, r, how in N.check(f, {"alloc"}):
            if "declared nonnull" in how or v == "null":
                continue
            bad.setdefault((r["alloc"], v), (i, how))
        for (reason, v), (i, how) in bad.items():
            root = v
            rep.bad("alloc-use", "%s:%s:%s" % (f.name, root_name(f, v), sinkname(i)), i.where(),
                    "in %s(), %s is %s without a null test (%s)" % (f.name, valname(f, v), how, reason))
        for v, (i, q) in sites.items():
            s = stored_unchecked(N, f, i) if v else None
            if s is not None and not any(b[1] == v for b in bad):
                rep.bad("alloc-publish", "%s:%s" % (f.name, root_name(f, v)), s.where(),
                        "in %s(), %s is stored without ever being tested for null (%s)" % (f.name, valname(f, v), q["alloc"]))
            else:
                rep.ok("alloc-site", "%s %s" % (i.where(), cname(i)))
        # the error raised on the null edge
        for b in f.order:
            if len(b.preds) != 1:
                continue
            for pr, a, z in an.edge_facts(b.preds[0], b):
                if pr == "eq" and z == "null" and a in sites:
                    for j in b.insts:
                        if j.op == "call" and cname(j) in throws and len(j.ops) > 1:
                            c = const_int(j.ops[1])
                            rep.check(c == nomem, "nomem-code", "%s:%s" % (f.name, root_name(f, a)), j.where(),
                                      "in %s(), the failed allocation is reported with error code %s instead of out-of-memory" % (f.name, c))
    rep.floor("alloc-site", 40)
    rep.info["functions"] = nfun


def root_name(f, v):
    d = f.defs.get(v)
    if d is None:
        return v
    if d.op == "call":
        return cname(d)
    if d.op in ("phi", "select"):
        n = sorted({root_name(f, x) for x in an.leaves(f, v) if x != "null"})
        return "|".join(n)
    return d.op


def sinkname(i):
    return cname(i) if i.op == "call" else i.op


def valname(f, v):
    n = f.mod.varname(f, v)
    return "'%s'" % n if n else "the result of %s()" % root_name(f, v)
