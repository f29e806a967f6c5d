"""C05: string equality and map lookup are decided by content."""
from .. import an, linear, loops
from ..an import const_int, path
from ..flow import Flow

RULE = ("Path analysis of the string comparison functions: every path returning true has established equal lengths and equal "
        "bytes over that length (or identity), every path returning false has established that the lengths, the bytes or the "
        "computed hashes differ. Every map operation takes an entry from the hash table only where its key compared equal, and "
        "the probe loop is left only at an empty slot, a match, or after visiting the whole table. The hash is computed from the "
        "bytes and length of the string it is stored in. The positions a search looks at, one per round, are all the slots of the table "
        "(index arithmetic evaluated over table sizes and starting points); a slot is never set back to empty; an entry is put into the "
        "slot it records; no path that found the key adds it once more; every slot of a new table is cleared.")
ASSUME = ["the hash function depends on its byte range only"]


def term(f, v):
    """('len'|'val'|'hash'|'rawhash', owner) of a value"""
    v = an.strip(f, v)
    d = f.defs.get(v)
    if d is None or d.op in ("gep", "alloca"):
        p = path(f, v) if isinstance(v, str) else None
        if p and p.steps and p.steps[-1][0] == "handlebars_string" and p.steps[-1][1] == "val" and not p.sym:
            return ("val", p.base)
        for n, q in enumerate(f.params):
            if q[1] == v:
                return ("par", v)
        return None
    if d.op == "call":
        c = d.x["callee"]
        k = {"hbs_str_val": "val", "hbs_str_len": "len", "hbs_str_hash": "hash"}.get(c)
        return (k, d.ops[0]) if k else None
    if d.op == "load":
        pl = an.place(f, d.ops[0])
        if pl and pl[0] == "handlebars_string":
            return ({"len": "len", "hash": "rawhash"}.get(pl[1], pl[1]), pl[2])
    if d.op == "phi":
        # lazily computed hash
        ts = {term(f, o) for o, _ in d.ops}
        s = [t for t in ts if t]
        if any(isinstance(t, tuple) and t[0] == "rawhash" for t in s):
            return ("hash", [t for t in s if t[0] == "rawhash"][0][1])
    return None


def classify(f, fact):
    pr, a, b = fact[:3]
    if pr not in ("eq", "ne") or not isinstance(b, str):
        return None
    ta, tb = term(f, a), term(f, b)
    if ta and tb and ta[0] == tb[0] and ta[1] != tb[1] and ta[0] in ("len", "hash"):
        return (ta[0], pr)
    if ta and tb and {ta[0], tb[0]} == {"len", "par"}:
        return ("len", pr)
    if ta and tb and ta[0] == tb[0] == "par" and an.pointee(f, a) == "handlebars_string":
        return ("ptr", pr)
    d = f.defs.get(an.strip(f, a))
    if d is not None and d.op == "call" and const_int(b) == 0 and d.x["callee"] in ("memcmp", "bcmp"):
        x, y, n = (term(f, o) for o in d.ops[:3])
        if x and y and x[0] in ("val", "par") and y[0] in ("val", "par") and x[1] != y[1] and "val" in (x[0], y[0]) and n and n[0] in ("len", "par"):
            return ("mem", pr)
        return ("memx", pr)
    return None


def cases(f, v, truth, t, depth=0):
    """disjuncts (lists of facts) under which v == truth"""
    c = const_int(v)
    if c is not None:
        return [[]] if bool(c) == truth else []
    ph = dict((x[1], x[2]) for x in t if x[0] == "phi")
    if v in ph:
        return cases(f, ph[v], truth, t, depth + 1) if depth < 10 else [[]]
    d = f.defs.get(v)
    if d is not None and depth < 10:
        if d.op in ("zext", "trunc", "freeze"):
            return cases(f, d.ops[0], truth, t, depth + 1)
        if d.op == "xor" and const_int(d.ops[1]) in (1, -1):
            return cases(f, d.ops[0], not truth, t, depth + 1)
        if d.op in ("and", "or", "select"):
            if d.op == "select":
                cc, x, y = d.ops
            elif d.op == "and":
                cc, x, y = d.ops[0], d.ops[1], "false"
            else:
                cc, x, y = d.ops[0], "true", d.ops[1]
            out = []
            for c1 in cases(f, cc, True, t, depth + 1):
                out += [c1 + z for z in cases(f, x, truth, t, depth + 1)]
            for c1 in cases(f, cc, False, t, depth + 1):
                out += [c1 + z for z in cases(f, y, truth, t, depth + 1)]
            return out
    return [list(an.facts(f, v, truth))]


def eq(f, rep):
    def edge(b, s, t, env):
        add = {c for c in (classify(f, x) for x in an.edge_facts(b, s)) if c}
        ph = set()
        for i in s.insts:
            if i.op != "phi":
                break
            if i.ty != "ptr":
                ph |= {("phi", i.res, v) for v, lab in i.ops if lab == b.name}
        t = frozenset(x for x in t if not (x[0] == "phi" and any(x[1] == y[1] for y in ph)))
        return t | add | ph
    F = Flow(f, frozenset(), lambda i, t, env: t, edge).run()
    n = 0
    for r, t, env in F.exits:
        for truth in (True, False):
            for fs in cases(f, r.ops[0], truth, t):
                ev = {x for x in t if x[0] != "phi"} | {c for c in (classify(f, y) for y in fs) if c}
                if any((x[0], "ne" if x[1] == "eq" else "eq") in ev for x in ev):
                    continue
                n += 1
                if truth:
                    ok = ("ptr", "eq") in ev or ("len", "eq") in ev and ("mem", "eq") in ev
                    rep.check(ok, "equal", f.name + "|true", r.where(),
                              "%s returns true on a path that has not compared %s" % (
                                  f.name, "the lengths" if ("len", "eq") not in ev else "all the bytes"))
                else:
                    ok = bool({("len", "ne"), ("mem", "ne"), ("hash", "ne")} & set(ev))
                    rep.check(ok, "equal", f.name + "|false", r.where(),
                              "%s returns false although no difference in content was established" % f.name)
    return n


def hash_sources(P, rep):
    """hash of the right bytes"""
    k = 0
    for f in P.functions.values():
        if f.mod.unit != "handlebars_string.c" and f.name != "hbs_str_hash":
            continue
        for s in f.insts():
            if s.op == "store" and an.place(f, s.ops[1]) and an.place(f, s.ops[1])[:2] == ("handlebars_string", "hash"):
                d = f.defs.get(an.strip(f, s.ops[0]))
                if d is not None and d.op == "call" and "hash" in d.x["callee"]:
                    k += 1
                    x = path(f, d.ops[0])
                    y = term(f, d.ops[1]) if len(d.ops) > 1 else None
                    own = path(f, s.ops[1]).base
                    ok = d.x["callee"] == "hbs_str_hash" or x.base == own and x.steps and x.steps[-1][1] == "val" and not x.sym and y == ("len", own)
                    rep.check(ok, "hash", f.name, s.where(), "%s stores a hash that is not computed from the whole content" % f.name)
    h = P.need("hbs_str_hash")
    for r in h.insts():
        if r.op == "ret":
            lv = an.leaves(h, r.ops[0])
            ok = all((lambda d: d is not None and (d.op == "load" and an.place(h, d.ops[0]) and an.place(h, d.ops[0])[1] == "hash" or
                                                   d.op == "call" and "hash" in d.x["callee"]))(h.defs.get(an.strip(h, l))) for l in lv)
            rep.check(ok, "hash", "hbs_str_hash|ret", r.where(), "hbs_str_hash returns something other than the string's hash")
    rep.floor("hash", 2, "hash computations")


def run(ctx, rep):
    P = ctx.inl
    for n in ("handlebars_string_eq", "hbs_str_eq_strl"):
        eq(P.need(n), rep)
    rep.floor("equal", 4, "return paths")
    hash_sources(P, rep)
    # map lookups
    for f in P.functions.values():
        if f.mod.unit != "handlebars_map.c" or f.avail:
            continue
        probes(P, f, rep)
        slots(P, f, rep)
        once(P, f, rep)
    cleared(P, rep)
    rep.floor("slot", 2, "entries put into the table")
    rep.floor("probe", 4, "probe loops")
    for n in ("handlebars_map_find", "handlebars_map_add", "handlebars_map_update", "handlebars_map_remove"):
        f = P.need(n)
        ok = any(i.op == "call" and i.x["callee"] == "handlebars_string_eq" for i in f.insts()) or any(
            i.op == "call" and i.x["callee"].startswith("handlebars_map_") and i.x["callee"] in
            ("handlebars_map_find", "handlebars_map_update", "handlebars_map_remove", "handlebars_map_add") for i in f.insts())
        rep.check(ok, "lookup", n, n, "%s does not compare keys" % n)


def is_slot(f, addr):
    """index of an address in the hash table of a map (not of its entries)"""
    g = f.defs.get(addr) if isinstance(addr, str) else None
    if g is None or g.op != "gep":
        return None
    p = path(f, addr)
    if ("handlebars_map", "data") not in p.steps and an.pointee(f, p.base) != "handlebars_map":
        return None
    sz = [k for x, k in p.sym]
    if 8 not in sz or len(sz) < 2 or len(g.ops) != 2:
        return None
    return g.ops[1]


def member(f, v, m):
    """address of the entry whose member the value was read from"""
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    if d is None or d.op != "load":
        return None
    pl = an.place(f, d.ops[0])
    return d.ops[0] if pl and pl[:2] == ("handlebars_map_entry", m) else None


def same_entry(f, a, e):
    """a (the address of a member) lies in entry e, or in the entry that is copied to e"""
    def sig(x):
        p = path(f, x)
        return (p.base, tuple(sorted((an.strip(f, s) if isinstance(s, str) else s, k) for s, k in p.sym)))
    want = {sig(e)}
    for i in f.insts():
        if i.op == "call" and "memcpy" in i.x["callee"] and sig(i.ops[0]) in want:
            want.add(sig(i.ops[1]))
    return sig(a) in want


def slots(P, f, rep):
    """what is put into the hash table"""
    for i in f.insts():
        if i.op != "store" or i.ty != "ptr":
            continue
        idx = is_slot(f, i.ops[1])
        if idx is None:
            continue
        for v in an.leaves(f, i.ops[0]):
            if v == "null":
                if loops.header_phi(f, idx):
                    continue    # the table is emptied as a whole
                rep.bad("slot", f.name + "|null", i.where(), "%s empties a slot of the table: keys stored behind it are no longer found" % f.name)
                continue
            p = path(f, v)
            if not any(k == 32 for _, k in p.sym) and ("handlebars_map", "data") not in p.steps:
                continue        # the tombstone
            a = member(f, idx, "table_offset")
            ok = a is not None and (same_entry(f, a, v) or same_entry(f, a, i.ops[0]))
            for s in f.insts():
                if not ok and s.op == "store" and (an.place(f, s.ops[1]) or ("", ""))[:2] == ("handlebars_map_entry", "table_offset"):
                    ok = (same_entry(f, s.ops[1], v) or same_entry(f, s.ops[1], i.ops[0])) and an.strip(f, s.ops[0]) == an.strip(f, idx)
            rep.check(ok, "slot", f.name + "|entry", i.where(),
                      "%s puts an entry into a slot other than the one recorded in the entry" % f.name)


def once(P, f, rep):
    """no insertion of a key that is there already"""
    eqs = {i.res for i in f.insts() if i.op == "call" and i.x["callee"] in ("handlebars_string_eq", "hbs_str_eq_strl")}
    grows = [i for i in f.insts() if i.op == "store" and (an.place(f, i.ops[1]) or ("", ""))[:2] == ("handlebars_map", "i")
             and (lambda l: l and l[1] > 0 and len(l[0]) == 1)(linear.lin(f, i.ops[0]))]
    if not eqs or not grows:
        return
    bad = set()

    def found(v):
        ds = [f.defs.get(x) for x in an.leaves(f, v) if x != "null"]
        return bool(ds) and all(d is not None and d.op == "load" and is_slot(f, d.ops[0]) is not None for d in ds)

    def tr(i, t, env):
        if i in grows and t:
            bad.add(i)
        return t

    def edge(b, s, t, env):
        for x in an.edge_facts(b, s):
            if x[1] in eqs and (x[0] == "eq" and const_int(x[2]) == 1 or x[0] == "ne" and const_int(x[2]) == 0):
                t = True
            elif t and x[0] == "eq" and "null" in x[1:3] and found(x[1] if x[2] == "null" else x[2]):
                return None     # the entry that matched is there
        return t
    Flow(f, False, tr, edge).run()
    for g in grows:
        rep.check(g not in bad, "once", f.name, g.where(), "%s adds an entry on a path that has found the key in the map" % f.name)


def cleared(P, rep):
    """a new table is empty in all its slots"""
    f = P.need("handlebars_map_ctor")
    cap = [linear.lin(f, i.ops[0]) for i in f.insts() if i.op == "store" and (an.place(f, i.ops[1]) or ("", ""))[:2] == ("handlebars_map", "table_capacity")]
    for i in f.insts():
        if i.op != "call" or "memset" not in i.x["callee"]:
            continue
        p = path(f, i.ops[0])
        if ("handlebars_map", "data") not in p.steps or not p.sym:
            continue
        l = linear.lin(f, i.ops[2])
        ok = bool(l) and bool(cap) and all(c and l[1] >= 8 * c[1] and {a: k for a, k in l[0].items()} == {a: 8 * k for a, k in c[0].items()} for c in cap)
        rep.check(ok and const_int(i.ops[1]) == 0, "cleared", f.name, i.where(), "%s: not every slot of a new table is cleared" % f.name)


def evaluate(f, v, val, depth=0):
    """value of an index expression over given leaves, None if it is not one"""
    c = const_int(v)
    if c is not None:
        return c
    v = an.strip(f, v)
    if v in val:
        return val[v]
    d = f.defs.get(v)
    if d is None or depth > 12:
        return None
    if d.op in ("add", "sub", "mul", "urem", "and", "or", "xor", "udiv", "shl", "lshr"):
        a, b = (evaluate(f, o, val, depth + 1) for o in d.ops[:2])
        if a is None or b is None or d.op in ("urem", "udiv") and b == 0:
            return None
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "urem": lambda: a % b, "and": lambda: a & b, "or": lambda: a | b,
                "xor": lambda: a ^ b, "udiv": lambda: a // b, "shl": lambda: a << (b & 63), "lshr": lambda: a >> (b & 63)}[d.op]()
    if d.op == "select":
        c = f.defs.get(d.ops[0])
        if c is None or c.op != "icmp":
            return None
        a, b = (evaluate(f, o, val, depth + 1) for o in c.ops[:2])
        if a is None or b is None:
            return None
        t = {"eq": a == b, "ne": a != b}.get(c.x)
        if t is None:
            t = {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c.x[1:]]
        return evaluate(f, d.ops[1 if t else 2], val, depth + 1)
    if d.op == "call" and d.x["callee"].startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
        a, b = (evaluate(f, o, val, depth + 1) for o in d.ops[:2])
        return None if a is None or b is None else (min if "min" in d.x["callee"] else max)(a, b)
    return None


def everywhere(f, h, idx):
    """the positions looked at, one per round, are all the slots of the table, wherever the search starts"""
    ctr, cap, start = {}, set(), set()

    def walk(v, depth=0):
        v = an.strip(f, v)
        if const_int(v) is not None or v in ctr or v in cap or v in start:
            return True
        d = f.defs.get(v)
        if d is None or depth > 12:
            start.add(v)
            return True
        if d.op == "load":
            pl = an.place(f, d.ops[0])
            (cap if pl and pl[:2] == ("handlebars_map", "table_capacity") else start).add(v)
            return True
        if d.op == "call" and not d.x["callee"].startswith("llvm."):
            start.add(v)
            return True
        if d.op == "phi":
            if d.block is not h:
                return False
            ini = [o for o, lab in d.ops if not an.dominates(f, h, f.blocks[lab] if isinstance(f.blocks, dict) else next(b for b in f.order if b.name == lab))]
            stp = [o for o, lab in d.ops if o not in ini]
            if len(set(ini)) != 1 or len(set(stp)) != 1:
                return False
            ctr[v] = (ini[0], stp[0])
            return walk(ini[0], depth + 1) and walk(stp[0], depth + 1)
        if d.op == "icmp" or d.op in ("add", "sub", "mul", "urem", "and", "or", "xor", "udiv", "shl", "lshr", "select", "call"):
            return all(walk(o, depth + 1) for o in d.ops if isinstance(o, str) and not o.startswith("@"))
        return False
    if not walk(idx) or not ctr or not cap:
        return None
    for n in (5, 11, 23):
        for s in (0, 1, n - 1, n, 2 * n + 3, 4093):
            val = {c: n for c in cap}
            val.update({x: s for x in start})
            for c, (i, _) in ctr.items():
                val[c] = evaluate(f, i, val)
            seen = set()
            for _ in range(n):
                p = evaluate(f, idx, val)
                if p is None or any(x is None for x in val.values()):
                    return None
                seen.add(p & 0xffffffffffffffff)
                new = {c: evaluate(f, st, val) for c, (_, st) in ctr.items()}
                val.update(new)
            if seen != set(range(n)):
                return "%d of %d slots are visited" % (len(seen), n) if max(seen) < n else "position %d of %d" % (max(seen), n)
    return True


def probes(P, f, rep):
    """loops that walk the hash table: left only with a match, an empty slot or the whole table visited"""
    cells = [i for i in f.insts() if i.op == "load" and i.ty == "ptr" and path(f, i.ops[0]).sym and table_slot(f, i)]
    heads = {}
    for c in cells:
        hs = [h for h in f.order if an.dominates(f, h, c.block) and any(an.dominates(f, h, p) and p in an.reach_blocks(f, c.block) for p in h.preds)]
        if hs:
            heads.setdefault(hs[-1], []).append(c)
    for h, cs in heads.items():
        loop = {b for b in f.order if an.dominates(f, h, b) and any(
            p in an.reach_blocks(f, b, lambda x: x is h and x is not b) for p in h.preds if an.dominates(f, h, p))}
        res = {c.res for c in f.insts() if c in cells and an.dominates(f, h, c.block)}
        # only loops that look for something: the slot decides when to stop
        if not any(i.op == "icmp" and "null" in i.ops and set(i.ops) & res for b in loop for i in b.insts) and \
                not any(i.op == "call" and i.x["callee"] in ("handlebars_string_eq", "hbs_str_eq_strl") for b in loop for i in b.insts):
            continue
        where = "%s loop at %s" % (f.name, cs[0].where())
        eqs = {i.res: i for b in f.order for i in b.insts if i.op == "call" and i.x["callee"] in ("handlebars_string_eq", "hbs_str_eq_strl")
               and any(slot_key(f, o, res) for o in i.ops[:2])}
        bad = {}

        def tr(i, t, env):
            return "none" if i.op == "load" and i.res in res and i.block in loop else t

        def edge(b, s, t, env):
            for x in an.edge_facts(b, s):
                if not isinstance(x[2], str):
                    continue
                if x[1] in eqs:
                    if x[0] == "eq" and const_int(x[2]) == 1 or x[0] == "ne" and const_int(x[2]) == 0:
                        t = "match"
                elif x[0] == "eq" and "null" in x[1:3] and (x[1] in res or x[2] in res):
                    t = "empty"
                elif t == "none" and full(f, x):
                    t = "full"
            if b in loop and s not in loop and s.term.op != "unreachable" and t == "none":
                bad.setdefault(b, s)
            for i in s.insts:
                if i.op != "phi":
                    break
                if s not in loop and i.ty == "ptr":
                    for v, lab in i.ops:
                        if lab == b.name and v in res and t != "match":
                            bad.setdefault("entry", s)
            return t
        Flow(f, "none", tr, edge).run()
        m = None
        if "entry" in bad:
            m = "an entry is taken although its key did not compare equal"
        elif bad:
            m = "the search for a key ends before an empty slot, a match or the whole table"
        rep.check(m is None, "probe", f.name, where, "%s: %s" % (f.name, m))
        for c in cs:
            idx = is_slot(f, c.ops[0])
            w = everywhere(f, h, idx) if idx is not None else None
            if w is not None:
                rep.check(w is True, "positions", f.name, where, "%s: the search for a key does not look at every slot of the table (%s)" % (f.name, w))


def table_slot(f, i):
    """a load of an entry pointer from the hash table of a map"""
    p = path(f, i.ops[0])
    d = f.defs.get(i.ops[0])
    return d is not None and d.op == "gep" and d.x == "ptr" and (("handlebars_map", "data") in p.steps or an.pointee(f, p.base) == "handlebars_map")


def slot_key(f, v, res):
    d = f.defs.get(v)
    return d is not None and d.op == "load" and path(f, d.ops[0]).base in res


def full(f, x):
    """the probe counter reached the capacity"""
    for a, o in ((x[1], x[2]), (x[2], x[1])):
        z = loops.header_phi(f, a) if const_int(a) is None else None
        if z:
            src = loops.source(f, o)
            if src is None or src[0] in ("call", "param"):
                return const_int(o) is None
            return src[0] == "field" and src[2] == "table_capacity" and src[3] == 0 and x[0] in ("uge", "sge", "eq", "ule", "sle")
    return False
