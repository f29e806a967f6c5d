"""C35: what is written into strings, stacks and maps stays within the memory they have, and their counts stay true."""
import multiprocessing, os, time

from .. import an, measure, poly
from ..build import AnalysisError

RULE = ("In every function of the string, stack and map modules, each write into the memory of a string, stack or map is shown to lie inside "
        "it, and on every return the counting members fit the memory (length below the room, with the terminator at the length; number of "
        "elements at most the capacity; both at least 0): by abstract interpretation over linear constraints between lengths, capacities, "
        "offsets and object sizes, with inductive loop invariants. Where a string is written in a loop without checking, the loop that measured it is "
        "compared with the loop that writes, case by case.")
ASSUME = ["sums of sizes do not wrap around (C06)", "callers give a length that the text handed over has",
          "a map's entries are counted by both of its element counts, and only the number of entries goes down again"]
UNITS = ("handlebars_string.c", "handlebars_stack.c", "handlebars_map.c")
UNSAFE = {"handlebars_string_append_unsafe"}

ELEMENT = {("handlebars_map_entry", "table_offset"): ("handlebars_map", "table_capacity")}
# members never above another one, taken as given: entries are counted by both, and only the count goes down again
TRUST = {("handlebars_map", "i"): "vec_offset"}


def classes(P):
    def lay(s, *fl):
        for M in P.mods.values():
            if M.struct_fields.get(s) and an.struct_size(M, s):
                d = {}
                for m in M.struct_fields[s]:
                    d[m[0]] = m
                out = {}
                for x in fl:
                    if x not in d:
                        raise AnalysisError("struct %s has no member %s" % (s, x))
                    out[x] = d[x][1] // 8
                return M, out, an.struct_size(M, s)
        raise AnalysisError("struct %s not found" % s)
    add, C = poly.add, poly.C
    M, o, sz = lay("handlebars_string", "len", "val")
    string = poly.Class("handlebars_string", sz, {"len": (o["len"], 8)},
                        lambda c: [c["len"], add(add(c["size"], c["len"], -1), C(-(sz + 1)))], val=(o["val"], "len"))
    M, o, ssz = lay("handlebars_stack", "i", "capacity", "v")
    esz = an.struct_size(M, "handlebars_value")
    stack = poly.Class("handlebars_stack", ssz, {"i": (o["i"], 8), "capacity": (o["capacity"], 8)},
                       lambda c: [c["i"], add(c["capacity"], c["i"], -1), add(add(c["size"], C(-o["v"])), c["capacity"], -esz)])
    M, mo, msz = lay("handlebars_map", "vec_offset", "vec_capacity", "table_capacity", "data", "i")
    msize = an.struct_size(M, "handlebars_map_entry")
    # what is there besides the elements and the table, from the function that says how much memory a map takes
    f = next((f for f in P.functions.values() if f.name == "handlebars_map_size_of" and f.blocks and not f.avail), None)
    room = mo["data"]
    if f is not None:
        I = poly.Interp(P, {}, ELEMENT)
        I.analyse(f)
        if I.result is not None and isinstance(I.result[0], tuple):
            e = I.result[0]
            if sorted(e[0].values()) == [8, msize]:
                room = max(room, e[1])
    mp = poly.Class("handlebars_map", msz, {k: (mo[k], 4) for k in ("vec_offset", "vec_capacity", "table_capacity")},
                    lambda c: [c["vec_offset"], add(c["vec_capacity"], c["vec_offset"], -1), add(c["table_capacity"], C(-1)),
                               add(add(add(c["size"], C(-room)), c["vec_capacity"], -msize), c["table_capacity"], -8)])
    return {c.name: c for c in (string, stack, mp)}


def contract(f):
    """what must be so on entry is for the callers to see to: they are analysed with this function entered"""
    return f.internal or f.name.endswith("_unsafe") or f.name in ("handlebars_stack_init",)


def unit(P, fns):
    """[(function name, decided, [(holds, key, kind, where, text)], seconds)] - picklable"""
    I = poly.Interp(P, classes(P), ELEMENT, trust=TRUST)
    out = []
    mine = {f.uname for f in fns}
    # functions in between that were decided by comparing loops
    compared = {}
    for f in I.order(fns):
        t = time.time()
        try:
            m = measure.decide(f, UNSAFE)
        except (measure.Shape, LookupError, TypeError, AttributeError, StopIteration) as e:
            m = "writing loop: %s" % e
        compared[f.uname] = m
        try:
            obl = I.analyse(f)
        except (poly.Undecided, ArithmeticError, LookupError, TypeError, AttributeError, RecursionError) as e:
            out.append((f.name, str(e) or type(e).__name__, [], time.time() - t))
            continue
        res = []
        bad = {k: v for k, v in obl.items() if not v[0]}
        reach = {u for u in P.reachable([f.uname]) if u in mine}
        loop = [compared[u] for u in reach if compared.get(u) is not None]
        why = None
        for (fn, i, kind), (ok, text) in obl.items():
            if not ok and loop and (fn in {u for u in reach if P.functions[u].name in UNSAFE} or m is not None):
                # written in a loop: decided by the comparison
                if any(isinstance(x, str) for x in loop):
                    why = next(x for x in loop if isinstance(x, str))
                continue
            if not ok and contract(f):
                continue
            res.append((bool(ok), "%s|%s|%s" % (f.name, P.functions[fn].name, kind), kind, i.where(), text))
        if isinstance(m, list):
            for k, (ok, where, text) in enumerate(m):
                res.append((bool(ok), "%s|room|%s" % (f.name, text if not ok else k), "room", where, text))
        if bad and loop and all(not isinstance(x, list) or all(y[0] for y in x) for x in loop):
            I.sums[f.uname].ok = True
        out.append((f.name, why, res, time.time() - t))
    return out


_P = None


def _unit(names):
    return unit(_P, [_P.functions[n] for n in names])


def run(ctx, rep):
    global _P
    P = _P = ctx.raw
    cl = classes(P)
    I = poly.Interp(P, cl, ELEMENT, trust=TRUST)
    groups = []
    for u in UNITS:
        g = [f.uname for f in P.functions.values() if os.path.basename(f.mod.unit) == u and not f.avail and f.blocks and I.relevant(f)]
        if len(g) < 5:
            raise AnalysisError("C35: %s has %d functions dealing with its objects" % (u, len(g)))
        groups.append(g)
    # anything elsewhere that changes the counting members itself, or writes without checking
    other = []
    for f in P.functions.values():
        if f.avail or not f.blocks or os.path.basename(f.mod.unit) in UNITS:
            continue
        if f.uname in I.writers or any(i.op == "call" and an.cname(i) in UNSAFE for i in f.insts()):
            other.append(f.uname)
    if other:
        groups.append(other)
    with multiprocessing.get_context("fork").Pool(min(4, len(groups))) as pool:
        results = pool.map(_unit, groups, chunksize=1)
    undecided, n = {}, 0
    for r in results:
        for name, why, res, _ in r:
            if why is not None:
                undecided[name] = why
            n += why is None
            for ok, key, kind, where, text in res:
                rep.check(ok, "write" if kind in ("write", "read") else "room" if kind == "room" else "count", key, where,
                          "%s: %s" % (name, text))
    rep.info["functions_decided"] = n
    rep.info["functions_undecided"] = undecided
    rep.info["seconds_by_function"] = {x[0]: round(x[3], 1) for r in results for x in r if x[3] > 2}
    stacks(P, cl["handlebars_stack"], rep)
    rep.floor("write", 40, "writes into strings, stacks and maps")
    rep.floor("count", 40, "returns and counts")
    rep.floor("stack", 2, "stacks made in memory given")


def stacks(P, cl, rep):
    """a stack made in memory given: the memory is as large as the size function says for the capacity given"""
    g = next((f for f in P.functions.values() if f.name == "handlebars_stack_size" and f.blocks and not f.avail), None)
    if g is None:
        raise AnalysisError("C35: no handlebars_stack_size")
    I = poly.Interp(P, {cl.name: cl}, ELEMENT)
    I.analyse(g)
    e = I.result[0] if I.result is not None else None
    M = g.mod
    esz = an.struct_size(M, "handlebars_value")
    v = next(m[1] // 8 for m in M.struct_fields["handlebars_stack"] if m[0] == "v")
    if not isinstance(e, tuple):
        raise AnalysisError("C35: what handlebars_stack_size returns was not understood")
    cap = e[0].get(g.params[0][1], 0)
    rep.check(cap >= esz and e[1] >= v and len(e[0]) == 1, "stack", "size", "handlebars_stack_size",
              "a stack's size is taken to be %s; its elements start at %d and take %d bytes each" % (poly.show(e), v, esz))
    for f in P.functions.values():
        if f.avail:
            continue
        for i in f.insts():
            if i.op != "call" or an.cname(i) != "handlebars_stack_init" or os.path.basename(f.mod.unit) == "handlebars_stack.c":
                continue
            n = an.const_int(i.ops[2])
            d = f.defs.get(an.path(f, i.ops[1]).base)
            ok = False
            if d is not None and d.op == "alloca":
                c = d.ops[0] if d.ops else None
                k = an.const_int(c) if c else None
                s = f.defs.get(c) if c else None
                while s is not None and s.op in ("zext", "sext", "trunc", "freeze"):
                    s = f.defs.get(s.ops[0])
                if s is not None and s.op == "call" and an.cname(s) == "handlebars_stack_size":
                    m = an.const_int(s.ops[0])
                    ok = s.ops[0] == i.ops[2] or (n is not None and m is not None and m >= n)
                elif k is not None and n is not None:
                    ok = k >= v + n * esz
            elif d is not None:
                continue
            rep.check(ok, "stack", "%s|stack_init" % f.name, i.where(), "%s makes a stack of %s in memory not sized for it" % (f.name, n if n is not None else "some"))
