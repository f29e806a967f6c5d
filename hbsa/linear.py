"""Small linear-integer reasoner over program facts (Fourier-Motzkin; no solver).

Values are read as mathematical integers; an expression is {atom: coef} + const.  Atoms are SSA values, or
'count(<place>)' for the element count of a container held in a given place.
"""
from . import an
from .an import const_int, path, place, cname

COUNT_CALLS = {"handlebars_stack_count", "handlebars_map_count", "handlebars_value_count"}
COUNT_FIELDS = {("handlebars_stack", "i")}


def container(fn, v):
    """canonical name of a container pointer: the place it was loaded from, or the value"""
    d = fn.defs.get(v)
    if d is not None and d.op == "load":
        pl = place(fn, d.ops[0])
        p = path(fn, d.ops[0])
        if not p.sym:
            return "mem@%s+%d" % (p.base, p.off)
    return v


def lin(fn, v, depth=0):
    """(dict, const) of v"""
    c = const_int(v)
    if c is not None:
        return {}, c
    d = fn.defs.get(v)
    if d is None or depth > 20:
        return {v: 1}, 0
    if d.op in ("zext", "sext", "trunc", "freeze"):
        return lin(fn, d.ops[0], depth + 1)
    if d.op in ("add", "sub"):
        a, b = lin(fn, d.ops[0], depth + 1), lin(fn, d.ops[1], depth + 1)
        return comb(a, b, 1 if d.op == "add" else -1)
    if d.op in ("mul", "shl"):
        x, y = d.ops
        if d.op == "mul" and const_int(x) is not None:
            x, y = y, x
        k = const_int(y)
        if k is not None:
            a = lin(fn, x, depth + 1)
            k = k if d.op == "mul" else 1 << k
            return {x: y * k for x, y in a[0].items()}, a[1] * k
    if d.op == "call" and cname(d) in COUNT_CALLS and d.ops:
        return {"count(%s)" % container(fn, d.ops[0]): 1}, 0
    if d.op == "load":
        pl = place(fn, d.ops[0])
        p = path(fn, d.ops[0])
        if pl and pl[:2] in COUNT_FIELDS:
            return {"count(%s)" % container(fn, p.base): 1}, 0
        k = stable_load(fn, d, p)
        if k:
            return {k: 1}, 0
    return {v: 1}, 0


def stable_load(fn, d, p):
    """memory atom of a load no store of the function to the same place can reach"""
    if p.sym or p.base.startswith("@"):
        return None
    c = fn.__dict__.setdefault("_stl", {})
    if d.res in c:
        return c[d.res]
    stores = fn.__dict__.get("_stores")
    if stores is None:
        stores = fn._stores = {}
        for i in fn.insts():
            if i.op == "store":
                q = path(fn, i.ops[1])
                stores.setdefault((q.base, q.off), []).append(i)
    k = "mem@%s+%d" % (p.base, p.off)
    for s in stores.get((p.base, p.off), []):
        if s.block is d.block and s.idx < d.idx:
            k = None
            break
        if any(d.block in an.reach_blocks(fn, x) for x in s.block.succs):
            k = None
            break
    c[d.res] = k
    return k


def comb(a, b, k):
    r = dict(a[0])
    for x, y in b[0].items():
        r[x] = r.get(x, 0) + k * y
        if r[x] == 0:
            del r[x]
    return r, a[1] + k * b[1]


def nonneg_atoms(fn, atoms):
    out = []
    for a in atoms:
        if a.startswith("count("):
            out.append(({a: 1}, 0))
            continue
        d = fn.defs.get(a)
        if d is not None and d.op == "phi":
            # induction variable: constant start, positive steps
            lo = None
            for o, _ in d.ops:
                c = const_int(o)
                if c is not None:
                    lo = c if lo is None else min(lo, c)
                    continue
                e = lin(fn, o)
                if e[0] == {a: 1} and e[1] >= 0:
                    continue
                lo = None
                break
            if lo is not None:
                out.append(({a: 1}, -lo))
        if d is not None and d.op == "load":
            for u in fn.users.get(a, []):
                if u.op == "zext":
                    out.append(({a: 1}, 0))
                    break
    return out


def constraints(fn, fs):
    """linear constraints e >= 0 from a list of (pred, a, b) facts"""
    out = []
    for f in fs:
        pr, a, b = f[:3]
        if pr not in ("eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"):
            continue
        if not isinstance(b, str) or b == "null" or a == "null":
            continue
        la, lb = lin(fn, a), lin(fn, b)
        ab, ba = comb(la, lb, -1), comb(lb, la, -1)
        if pr in ("slt", "ult"):
            out.append((ba[0], ba[1] - 1))
        elif pr in ("sle", "ule"):
            out.append(ba)
        elif pr in ("sgt", "ugt"):
            out.append((ab[0], ab[1] - 1))
        elif pr in ("sge", "uge"):
            out.append(ab)
        elif pr == "eq":
            out += [ab, ba]
        elif pr == "ne":
            # a != b with a >= b known from non-negativity when b is 0
            if lb == ({}, 0) and len(la[0]) == 1:
                at = next(iter(la[0]))
                if at.startswith("count(") and la[0][at] == 1 and la[1] == 0:
                    out.append((la[0], -1))
        if pr[0] == "u":
            for l in (la, lb):
                if len(l[0]) == 1 and l[1] == 0:
                    out.append(l)
    return out


def prove(fn, goal, fs, extra=()):
    """goal: (dict, const) meaning goal >= 0; True when entailed by the facts"""
    cons = constraints(fn, fs) + list(extra)
    atoms = set(goal[0])
    for c in cons:
        atoms |= set(c[0])
    cons += nonneg_atoms(fn, atoms)
    neg = ({a: -k for a, k in goal[0].items()}, -goal[1] - 1)
    return unsat(cons + [neg])


def feasible(fn, fs, extra=()):
    cons = constraints(fn, fs) + list(extra)
    atoms = set()
    for c in cons:
        atoms |= set(c[0])
    return not unsat(cons + nonneg_atoms(fn, atoms))


def unsat(cons, cap=400):
    cons = {(tuple(sorted(c[0].items())), c[1]) for c in cons}
    while True:
        for e, k in cons:
            if not e and k < 0:
                return True
        cons = {(e, k) for e, k in cons if e}
        if not cons:
            return False
        cnt = {}
        for e, _ in cons:
            for a, c in e:
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, n) if c > 0 else (p, n + 1)
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x))
        pos = [(dict(e), k) for e, k in cons if dict(e).get(a, 0) > 0]
        neg = [(dict(e), k) for e, k in cons if dict(e).get(a, 0) < 0]
        rest = {(e, k) for e, k in cons if a not in dict(e)}
        for p in pos:
            for n in neg:
                cp, cn = p[0][a], -n[0][a]
                d = {}
                for x, y in p[0].items():
                    d[x] = d.get(x, 0) + y * cn
                for x, y in n[0].items():
                    d[x] = d.get(x, 0) + y * cp
                d = {x: y for x, y in d.items() if y}
                rest.add((tuple(sorted(d.items())), p[1] * cn + n[1] * cp))
                if len(rest) > cap:
                    return False
        cons = rest
