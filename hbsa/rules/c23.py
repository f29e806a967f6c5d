"""C23: a path leads to the value it names, or to nothing."""
from .. import an, linear, summary
from ..an import const_int, path, place, strip

RULE = ("In every walk along a path - a loop whose look-ups take as subject what the round before found - a round that does not find "
        "its part never goes on with, or pushes or returns, the value it was looked up in, on any path of execution. A path that goes up "
        "levels takes exactly the level it names, counted from the top of its stack; the outermost context is the bottom of the stack; "
        "the search through contexts goes from the innermost outwards; text is taken as an index only if all of it was read as one.")
ASSUME = ["the look-up functions themselves return the entry asked for or nothing (C05)",
          "levels are in the stacks in the order they were entered (C11)"]
FIND = {"handlebars_value_map_find", "handlebars_value_map_str_find", "handlebars_value_array_find"}
PUSH = {"handlebars_stack_push"}
COPY = {"handlebars_value_value"}
SETTERS = {"handlebars_value_" + x for x in ("null", "init", "str", "str_steal", "integer", "float", "boolean", "map", "array", "ptr", "closure",
                                            "helper", "user", "dtor", "map_find", "map_str_find", "array_find")}


def run(ctx, rep):
    P = ctx.inl
    for f in P.functions.values():
        if f.avail or f.mod.unit not in ("handlebars_vm.c", "handlebars_helpers.c", "handlebars_value.c"):
            continue
        for h, L, cells in subjects(P, f):
            walk(P, f, h, L, cells, rep)
            numbers(P, f, L, rep)
        levels(P, f, rep)
        asked(P, f, rep)
        outermost(P, f, rep)
        order(P, f, rep)
    rep.floor("walk", 3, "walks along a path")
    rep.floor("level", 2, "accesses to a level")
    rep.floor("root", 1, "accesses to the outermost context")
    rep.floor("order", 1, "searches through the contexts")


def name(P, i):
    return an.cname(i) if i.op == "call" else None


def root(f, v):
    p = path(f, v)
    d = f.defs.get(p.base)
    return p.base if d is not None and d.op == "alloca" else None


def headers(f):
    out = {}
    for b in f.order:
        for s in b.succs:
            if an.dominates(f, s, b):
                out.setdefault(s, set()).add(b)
    return out


def body(f, h, backs):
    seen, work = {h}, list(backs)
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            work += x.preds
    return seen


def subjects(P, f):
    """(header, what the walk's look-ups take as subject)"""
    loops = {h: body(f, h, backs) for h, backs in headers(f).items()}
    for h, L in loops.items():
        if any(i.op == "call" and name(P, i) in PUSH for b in L for i in b.insts):
            continue
        cells = set()
        for b in L:
            for i in b.insts:
                if name(P, i) not in FIND or any(b in M and len(M) < len(L) for M in loops.values()):
                    continue
                s = strip(f, i.ops[0])
                for x in phis(f, s, L):
                    if x.block is h and any(from_find(P, f, v, L) for v, lab in x.ops if f.blocks[lab] in L):
                        cells.add(x.res)
                r = root(f, s)
                if r and any(j.op == "call" and name(P, j) in COPY and root(f, j.ops[0]) == r and from_find(P, f, j.ops[1], L)
                             for y in L for j in y.insts):
                    cells.add(r)
        if cells:
            yield h, L, cells


def phis(f, v, L, seen=None):
    seen = set() if seen is None else seen
    d = f.defs.get(v)
    if d is None or d.op != "phi" or v in seen or d.block not in L:
        return []
    seen.add(v)
    return [d] + [y for x, _ in d.ops for y in phis(f, strip(f, x), L, seen)]


def from_find(P, f, v, L, seen=None):
    seen = set() if seen is None else seen
    v = strip(f, v)
    if v in seen:
        return False
    seen.add(v)
    d = f.defs.get(v)
    if d is None:
        return False
    if d.op == "phi":
        return d.block in L and any(from_find(P, f, x, L, seen) for x, _ in d.ops)
    if d.op == "select":
        return any(from_find(P, f, x, L, seen) for x in d.ops[1:3])
    return d.op == "call" and d.block in L and name(P, d) in FIND


def walk(P, f, h, L, cells, rep):
    """one round, from the header until the header is met again or the value is used"""
    where = summary.where(f, h)
    for c in sorted(cells):
        d = f.defs[c]
        stale = {c}
        if d.op == "phi":
            stale |= {strip(f, v) for v, lab in d.ops if f.blocks[lab] not in L and f.defs.get(strip(f, v)) is not None}
        bad = trace(P, f, h, L, c, frozenset(stale)) or foreign(P, f, h, L, c)
        who = next((i.origin() for i in h.insts if i.dbg), f.name)
        rep.check(not bad, "walk", who, where, "%s: when a part of a path is not found, %s" % (who, bad))


def trace(P, f, h, L, c, stale):
    seen, work = set(), [(h, None, stale)]
    while work:
        b, pred, st = work.pop()
        st = set(st)
        if pred is not None:
            new = set(st)
            for i in b.insts:
                if i.op != "phi":
                    break
                v = next((strip(f, v) for v, lab in i.ops if f.blocks[lab] is pred), None)
                if v in st:
                    new.add(i.res)
                else:
                    new.discard(i.res)
            st = new
        for i in b.insts:
            if i.op in ("bitcast", "freeze") and i.ops[0] in st:
                st.add(i.res)
            if i.op == "select":
                (st.add if strip(f, i.ops[1]) in st or strip(f, i.ops[2]) in st else st.discard)(i.res)
            if i.op != "call":
                continue
            n = name(P, i)
            if n in PUSH:
                if held(f, i.ops[1], st):
                    return "the value it was looked up in is pushed at %s" % i.where()
                break
            if n in COPY:
                r = root(f, i.ops[0])
                if r:
                    (st.add if held(f, i.ops[1], st) else st.discard)(r)
            elif n in FIND:
                if b not in L and held(f, i.ops[0], st):
                    return "another look-up is made in the value it was looked up in at %s" % i.where()
                r = root(f, i.ops[-1])
                if r and strip(f, i.ops[0]) != r:
                    st.discard(r)
            elif n in SETTERS and i.ops:
                r = root(f, i.ops[0])
                if r:
                    st.discard(r)
        if any(i.op == "call" and name(P, i) in PUSH for i in b.insts):
            continue
        t = b.term
        if t.op == "ret":
            if t.ops and held(f, t.ops[0], st):
                return "the value it was looked up in is returned"
            continue
        for s in b.succs:
            if b is h and s not in L and not any(i.op == "call" and any(held(f, o, st) for o in i.ops if isinstance(o, str)) for i in b.insts):
                continue    # no more parts
            if s is h:
                d = f.defs[c]
                if d.op == "phi":
                    v = next((strip(f, v) for v, lab in d.ops if f.blocks[lab] is b), None)
                    if v is not None and held(f, v, st):
                        return "the walk goes on with the value it was looked up in"
                elif c in st:
                    return "the walk goes on with the value it was looked up in"
                continue
            k = (s, b, frozenset(st))
            if k not in seen:
                seen.add(k)
                work.append((s, b, frozenset(st)))
                if len(seen) > 20000:
                    raise an.AnalysisError("C23: too many paths in " + f.name)
    return None


def foreign(P, f, h, L, c):
    """what the walk goes on with must have been found in this round"""
    d = f.defs[c]
    if d.op == "phi":
        srcs = [v for v, lab in d.ops if f.blocks[lab] in L]
    else:
        srcs = [i.ops[1] for b in L for i in b.insts if i.op == "call" and name(P, i) in COPY and root(f, i.ops[0]) == c]
    for v in srcs:
        for x in an.leaves(f, v):
            q = f.defs.get(strip(f, x))
            if x in ("null", 0) or x == c or q is not None and q.op == "call" and name(P, q) in FIND:
                continue
            if q is not None and q.op == "alloca" and empty(P, f, x):
                continue
            return "the walk goes on with something else than what was found in this round"
    return None


def empty(P, f, a):
    """a local value nothing is ever put into"""
    return not any(i.op == "call" and name(P, i) not in ("handlebars_value_init", "handlebars_value_dtor", "handlebars_value_null") and
                   i.ops and name(P, i) in SETTERS | COPY and root(f, i.ops[0]) == a for i in f.insts())


def held(f, v, st):
    v = strip(f, v)
    return v in st or root(f, v) in st


# --- levels

def vmstack(f, v):
    """the stack of the machine a value was read from"""
    for x in an.leaves(f, v):
        d = f.defs.get(strip(f, x))
        if d is not None and d.op == "load":
            pl = place(f, d.ops[0])
            if pl and pl[0] == "handlebars_vm" and pl[1] in ("contextStack", "blockParamStack"):
                return pl[1]
    return None


def off(f, v):
    """(depth, constant, number of stack heights) of a position; heights of one stack are one"""
    e = linear.lin(f, v)
    rest, heights = {}, 0
    for a, k in e[0].items():
        d = f.defs.get(a)
        if a.startswith("count(") or d is not None and d.op == "call" and d.x["callee"] == "handlebars_stack_count" or is_height(f, d):
            heights += k
        else:
            rest[a] = rest.get(a, 0) + k
    return {a: k for a, k in rest.items() if k}, e[1], heights


def is_height(f, d):
    if d is None or d.op != "load":
        return False
    pl = place(f, d.ops[0])
    return bool(pl and pl[:2] == ("handlebars_stack", "i"))


def gets(P, f):
    for i in f.insts():
        if name(P, i) == "handlebars_stack_get" and vmstack(f, i.ops[0]):
            yield i, vmstack(f, i.ops[0])


def levels(P, f, rep):
    loops = {h: body(f, h, backs) for h, backs in headers(f).items()}
    for i, s in gets(P, f):
        rest, k, n = off(f, i.ops[1])
        if any(i.block in L and slope(f, i.ops[1], h, L) for h, L in loops.items()):
            continue    # a search through all levels
        if not rest and n == 0:
            rep.check(k == 0, "level", "%s|%s|const" % (f.name, s), i.where(), "a fixed level other than the outermost is used")
            continue
        ok = n == 1 and k == -1 and len(rest) == 1 and list(rest.values()) == [-1] or n == 1 and k == -1 and not rest
        rep.check(ok, "level", "%s|%s" % (s, i.where().split(":")[0]), i.where(),
                  "a level of the %s is taken from position height*%d%+d%s, not height-1 minus the number asked for" % (
                      s, n, k, "".join(" %+d*%s" % (z, a) for a, z in rest.items())))


def asked(P, f, rep):
    """the context a tag names by its number of levels: that very one, or none at all"""
    for i in f.insts():
        if name(P, i) not in COPY:
            continue
        d = f.defs.get(strip(f, i.ops[0]))
        pl = place(f, d.ops[0]) if d is not None and d.op == "load" else None
        if not pl or pl[:2] != ("handlebars_vm", "last_context"):
            continue
        for x in an.leaves(f, i.ops[1]):
            g = f.defs.get(strip(f, x))
            if g is None or g.op != "call" or name(P, g) not in ("handlebars_stack_get", "handlebars_stack_top") or \
                    vmstack(f, g.ops[0]) != "contextStack":
                continue
            rest, k, n = off(f, g.ops[1]) if name(P, g) == "handlebars_stack_get" else ({}, -1, 1)
            ok = bool(rest) and not any(off(f, y)[2] for a in rest for y in an.leaves(f, a))
            if not rest and (n, k) == (1, -1):
                ok = any(z[0] == "eq" and (const_int(z[2]) == 0 or z[2] in (0, "0")) and isinstance(z[1], str) and
                         getattr(f.defs.get(strip(f, z[1])), "op", "icmp") != "icmp" for z in an.dom_facts(g))
            rep.check(ok, "level", "asked|%s" % f.name, i.where(),
                      "%s takes a fixed level for a path that names its level by number" % i.origin())


def text(f, v):
    p = path(f, v)
    g = f.mod.globals.get(p.base[1:]) if p.base.startswith("@") else None
    return g[2] if g else None


def outermost(P, f, rep):
    for i in f.insts():
        if name(P, i) not in ("hbs_str_eq_strl", "strcmp", "strncmp", "memcmp", "bcmp") or not any('c"root\\00"' == text(f, o) for o in i.ops if isinstance(o, str)):
            continue
        eq = name(P, i) == "hbs_str_eq_strl"
        for b in f.order:
            for s in b.succs:
                if any(strip(f, x[1]) == i.res or x[1] == i.res for x in an.edge_facts(b, s) if isinstance(x[1], str)) and \
                        any((x[0] == "ne") == eq and x[1] == i.res and const_int(x[2]) == 0 or x[0] == "eq" and x[1] == i.res and x[2] in ("true", 1)
                            for x in an.edge_facts(b, s)):
                    first_copy(P, f, s, rep)


def first_copy(P, f, b, rep):
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for i in x.insts:
            n = name(P, i)
            if n == "hbs_str_eq_strl":
                break
            if n in COPY | PUSH:
                src = i.ops[1]
                ls = [f.defs.get(strip(f, y)) for y in an.leaves(f, src)]
                ok = ls and all(d is not None and d.op == "call" and d.x["callee"] == "handlebars_stack_get" and
                                vmstack(f, d.ops[0]) == "contextStack" and const_int(d.ops[1]) == 0 for d in ls)
                rep.check(ok, "root", f.name, i.where(), "what is used as the outermost context is not the bottom of the stack of contexts")
                break
        else:
            work += x.succs


def order(P, f, rep):
    hs = headers(f)
    for i in f.insts():
        if name(P, i) not in FIND:
            continue
        g = [f.defs.get(strip(f, x)) for x in an.leaves(f, i.ops[0])]
        g = [d for d in g if d is not None and d.op == "call" and name(P, d) == "handlebars_stack_get" and vmstack(f, d.ops[0]) == "contextStack"]
        if not g:
            continue
        g = g[0]
        for h, backs in hs.items():
            L = body(f, h, backs)
            if i.block not in L or g.block not in L:
                continue
            sl = slope(f, g.ops[1], h, L)
            if sl is None:
                continue
            rep.check(sl < 0, "order", "inwards", g.where(), "contexts are searched from the outermost inwards")
            go, leave = None, False
            for b in L:
                for s in b.succs:
                    if any(x[0] == "ne" and i.res in (strip(f, x[1]), strip(f, x[2])) and ("null" in x[1:3] or 0 in x[1:3])
                           for x in an.edge_facts(b, s) if isinstance(x[1], str)):
                        if s is h or s in L and h in an.reach_blocks(f, s, lambda y: y not in L):
                            go = b
                        else:
                            leave = True
            rep.check(leave and go is None, "order", "first", i.where(), "the search through the contexts goes on after the name was found")


def slope(f, v, h, L):
    """change of a position from one round to the next"""
    e = linear.lin(f, v)
    out, any_ = 0, False
    for a, k in e[0].items():
        d = f.defs.get(a)
        if d is not None and d.op == "phi" and d.block is h:
            for x, lab in d.ops:
                if f.blocks[lab] in L:
                    q = linear.lin(f, x)
                    if q[0] == {a: 1}:
                        out += k * q[1]
                        any_ = True
    return out if any_ else None


# --- numbers

def numbers(P, f, L, rep):
    loops = {h: body(f, h, backs) for h, backs in headers(f).items()}
    for b in L:
        if any(b in M and len(M) < len(L) for M in loops.values()):
            continue
        for i in b.insts:
            if name(P, i) != "handlebars_value_array_find":
                continue
            d = f.defs.get(strip(f, i.ops[1]))
            src = scanned(P, f, d)
            if src is None:
                continue
            call, cell = src
            rep.check(whole(P, f, i, call), "number", "%s" % name(P, call), i.where(),
                      "text is used as an index although not all of it was read as a number")


def scanned(P, f, d):
    """the call that read a number from text"""
    if d is None:
        return None
    if d.op == "call" and (name(P, d) or "").startswith(("strto", "__isoc23_strto", "ato")):
        return d, None
    if d.op == "load":
        r = root(f, d.ops[0])
        for i in f.insts():
            if r and i.op == "call" and "sscanf" in (name(P, i) or "") and any(root(f, o) == r for o in i.ops[2:] if isinstance(o, str)):
                return i, r
    if d.op == "phi":
        for x, _ in d.ops:
            q = scanned(P, f, f.defs.get(strip(f, x)))
            if q:
                return q
    return None


def whole(P, f, use, call):
    outs = {root(f, o) for o in call.ops[1:] if isinstance(o, str) and root(f, o)}
    for x in an.dom_facts(use):
        if x[0] != "eq":
            continue
        for a, b in ((x[1], x[2]), (x[2], x[1])):
            d = f.defs.get(strip(f, a)) if isinstance(a, str) else None
            if d is None or d.op != "load":
                continue
            if root(f, d.ops[0]) in outs and not const_like(b):
                return True
            # the character after what was read is the end of the text
            q = f.defs.get(strip(f, path(f, d.ops[0]).base))
            if d.ty == "i8" and const_int(b) == 0 and q is not None and q.op == "load" and root(f, q.ops[0]) in outs:
                return True
            # the end of what was read is the end of the text
            if d.ty == "ptr" and root(f, d.ops[0]) in outs:
                return True
    return False


def const_like(v):
    return not isinstance(v, str) or const_int(v) is not None
