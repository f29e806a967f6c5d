"""C15: the shared memory cache is changed only under its lock and is read-only otherwise."""
from .. import an, linear
from ..an import const_int, path, place
from ..cachemod import PredFlow

RULE = ("Lock and protection typestate over every function of the shared memory cache: the segment is written only while the lock is "
        "held and its protection lifted; header members are either only changed atomically or only under the lock; the protection "
        "is changed only under the lock, covers table and data, and is back before the lock is released; no path returns or throws "
        "with the lock held or the protection lifted, takes the lock twice or calls something that takes it or can throw; entries "
        "are complete before their slot is filled and slots and copies stay inside their regions; everything later readers would "
        "want to store in an entry is computed before it is copied in.")
ASSUME = ["pthread locks and mprotect behave as documented; releasing a lock does not fail",
          "ordinary aligned pointer stores are not torn (the lock-free readers rely on it)"]
LOCKS = {"pthread_spin_lock", "pthread_mutex_lock", "pthread_spin_trylock", "pthread_mutex_trylock"}
UNLOCKS = {"pthread_spin_unlock", "pthread_mutex_unlock"}
COPY = ("llvm.memcpy", "llvm.memmove", "llvm.memset", "memcpy", "memmove", "memset", "strcpy", "strncpy")
THROW = {"handlebars_throw", "handlebars_throw_ex", "longjmp"}
PURE = {"memcmp", "strlen", "strcmp", "strncmp", "difftime", "strerror", "usleep", "memchr", "bcmp"}


def is_copy(c):
    return c.lstrip("@").startswith(COPY)


class Seg:
    """the shared segment: its header structure, lock and region pointers"""

    def __init__(self, P):
        self.P = P
        fs = [f for f in P.functions.values() if not f.avail and not f.mod.unit.startswith("bin")
              and any(i.op == "call" and i.x["callee"] == "mprotect" for i in f.insts())]
        if not fs:
            raise an.AnalysisError("C15: no function changes memory protection")
        self.units = {f.mod.unit for f in fs}
        self.fns = [f for f in P.functions.values() if f.mod.unit in self.units and not f.avail]
        S = {place(f, i.ops[0])[0] for f in self.fns for i in f.insts()
             if i.op == "call" and i.x["callee"] in LOCKS and place(f, i.ops[0])}
        if len(S) != 1:
            raise an.AnalysisError("C15: header structure of the segment not identified: %s" % S)
        self.S = S.pop()
        self.ptrs = {m[0] for m in P.struct(self.S) if self.isptr(m)}

    def isptr(self, m):
        for M in self.P.mods.values():
            for x in M.struct_fields.get(self.S, []):
                if x[0] == m[0]:
                    return an._strip_ty(M, x[2])[0] == "ptr"
        return False

    def shared(self, f):
        """values pointing into the table or data of the segment"""
        sh, cells, ch = set(), set(), True
        while ch:
            ch = False
            for i in f.insts():
                if i.op == "store" and i.ops[0] in sh:
                    p = path(f, i.ops[1])
                    d = f.defs.get(p.base)
                    if d is not None and d.op == "alloca" and (p.base, p.off) not in cells:
                        cells.add((p.base, p.off))
                        ch = True
                if not i.res or i.res in sh:
                    continue
                hit = False
                if i.op == "load":
                    pl, p = place(f, i.ops[0]), path(f, i.ops[0])
                    hit = (pl and pl[0] == self.S and pl[1] in self.ptrs) or (p.base in sh and i.ty == "ptr") or \
                        ((p.base, p.off) in cells and not p.sym)
                elif i.op in ("gep", "bitcast", "freeze"):
                    hit = i.ops[0] in sh
                elif i.op == "phi":
                    hit = any(o in sh for o, _ in i.ops)
                elif i.op == "select":
                    hit = i.ops[1] in sh or i.ops[2] in sh
                if hit:
                    sh.add(i.res)
                    ch = True
        return sh


def memo_store(f, i):
    """a store of a lazily computed string hash, done only if the hash was not there and is not zero"""
    pl = place(f, i.ops[1])
    if not pl or pl[1] != "hash":
        return False
    absent = nonzero = False
    for fa in an.dom_facts(i):
        if fa[0] == "eq" and an.const_int(fa[2]) == 0:
            d = f.defs.get(fa[1])
            if d is not None and d.op == "load" and path(f, d.ops[0]).key() == path(f, i.ops[1]).key():
                absent = True
        if fa[0] in ("ne", "ugt") and fa[1] == i.ops[0] and an.const_int(fa[2]) == 0:
            nonzero = True
    return absent and nonzero


def always_hashes(P, c):
    """the function looks at the cached hash of its first argument on every path, storing it if absent"""
    g = P.functions.get(c)
    if g is None or not g.params:
        return False
    st = [i for i in g.insts() if i.op == "store" and place(g, i.ops[1]) and place(g, i.ops[1])[1] == "hash" and memo_store(g, i)
          and path(g, i.ops[1]).base == g.params[0][1]]
    ld = [i for i in g.order[0].insts if i.op == "load" and st and path(g, i.ops[0]).key() == path(g, st[0].ops[1]).key()]
    return bool(st and ld)


class Writes:
    """does a function write through a parameter?"""

    def __init__(self, P):
        self.P, self.c = P, {}

    def param(self, n, k):
        if (n, k) in self.c:
            return self.c[n, k]
        self.c[n, k] = None
        g = self.P.functions.get(n)
        if g is None:
            r = None if n.lstrip("@") in PURE or n.startswith("llvm.") else n
        elif k >= len(g.params) or not g.params[k][0].startswith("ptr"):
            r = None
        else:
            r = self.body(g, g.params[k][1])
        self.c[n, k] = r
        return r

    def body(self, g, root):
        der, ch = {root}, True
        while ch:
            ch = False
            for i in g.insts():
                if i.res and i.res not in der:
                    ops = [o for o, _ in i.ops] if i.op == "phi" else i.ops
                    if (i.op in ("gep", "bitcast", "phi", "select", "freeze") and any(o in der for o in ops)) or \
                            (i.op == "load" and i.ty == "ptr" and path(g, i.ops[0]).base in der):
                        der.add(i.res)
                        ch = True
        for i in g.insts():
            if i.op == "store" and (i.ops[1] in der or path(g, i.ops[1]).base in der):
                if not memo_store(g, i):
                    return "%s (%s)" % (g.name, i.where())
            elif i.op == "atomicrmw" and path(g, i.ops[0]).base in der:
                return "%s (%s)" % (g.name, i.where())
            elif i.op == "call":
                c = i.x["callee"]
                if is_copy(c):
                    if i.ops[0] in der:
                        return "%s (%s)" % (g.name, i.where())
                    continue
                for k, o in enumerate(i.ops):
                    if isinstance(o, str) and o in der:
                        for n in self.P.targets(i) or {c}:
                            r = self.param(n, k)
                            if r:
                                return r
        return None


def run(ctx, rep):
    P = ctx.inl
    G = Seg(P)
    W = Writes(P)
    locking = P.callers_closure({f.name for f in P.functions.values() for i in f.insts() if i.op == "call" and i.x["callee"] in LOCKS} |
                                LOCKS)
    from .c17 import thrower
    may = thrower(P)
    atomic = {}
    for f in G.fns:
        for i in f.insts():
            if i.op == "atomicrmw":
                pl = place(f, i.ops[0])
                if pl and pl[0] == G.S:
                    atomic.setdefault(pl[1], i.where())
    G.atomic = atomic
    if not created(P, G, rep):
        return
    for f in G.fns:
        check(P, G, W, f, locking, may, rep)
        bounds(P, G, f, rep)
    rep.floor("written", 8, "writes to the segment")
    rep.floor("ends", 5, "ways out of the functions of the cache")
    rep.floor("protection", 4, "changes of the protection")
    rep.floor("inside", 6, "copies into the segment and slots of the table")
    rep.floor("complete", 1, "slots filled")
    rep.info["atomic_members"] = sorted(atomic)


def check(P, G, W, f, locking, may, rep):
    sh = G.shared(f)
    ctor = any(i.op == "call" and i.x["callee"] == "mmap" for i in f.insts())
    bad, good = {}, set()
    slotv = {}

    def note(i, k, m):
        bad.setdefault((i, k, m), None)

    # own state: (locked, writable, a primitive failed, slot filled)
    def tr(i, t, env):
        s, (lk, wr, failed, pub) = t
        if i.op in ("store", "atomicrmw"):
            a = i.ops[1] if i.op == "store" else i.ops[0]
            pl, p = place(f, a), path(f, a)
            if pl and pl[0] == G.S and p.base not in sh:
                if i.op == "atomicrmw" or ctor:
                    good.add((i, "written"))
                    return t
                if pl[1] in G.atomic:
                    note(i, "written", "changes %s without an atomic operation, unlike %s" % (pl[1], G.atomic[pl[1]]))
                elif not lk:
                    note(i, "written", "changes %s of the segment without holding the lock" % pl[1])
                else:
                    good.add((i, "written"))
                return t
            if p.base in sh or a in sh:
                if not lk or not wr:
                    note(i, "written", "writes to the segment %s" % ("without holding the lock" if not lk else "while it is read-only"))
                else:
                    good.add((i, "written"))
                if pub and p.base in sh:
                    note(i, "complete", "writes to the segment after the slot of the entry was filled")
                if i.op == "store" and i.ty == "ptr" and p.base in sh and not slot(f, G, a) and not within(f, G, sh, i.ops[0]):
                    note(i, "complete", "puts an entry into the segment that points outside it")
                # a slot of the table is filled
                if i.op == "store" and i.ty == "ptr" and i.ops[0] != "null" and slot(f, G, a):
                    if not within(f, G, sh, i.ops[0]):
                        note(i, "complete", "fills a slot with the address of something outside the segment")
                    good.add((i, "complete"))
                    return (s, (lk, wr, failed, True))
            return t
        if i.op != "call":
            return t
        c = i.x["callee"]
        if c in LOCKS:
            if lk:
                note(i, "ends", "takes the lock while holding it")
            good.add((i, "protection"))
            return [("@env", (s, (True, wr, failed, False)), {i.res: 0}), ("@env", (s, (lk, wr, True, pub)), {i.res: 1})]
        if c in UNLOCKS:
            if not lk and not failed:
                note(i, "ends", "releases a lock it does not hold")
            if wr and not failed:
                note(i, "protection", "releases the lock before the segment is read-only again")
            good.add((i, "protection"))
            return ("@env", (s, (False, wr, failed, False)), {i.res: 0})
        if c == "mprotect":
            fl = const_int(i.ops[2])
            if fl is None:
                raise an.AnalysisError("C15: protection at %s is not constant" % i.where())
            if not lk:
                note(i, "protection", "changes the protection without holding the lock")
            if not covers(f, G, i):
                note(i, "protection", "changes the protection of something else than the whole table and data")
            good.add((i, "protection"))
            return [("@env", (s, (lk, bool(fl & 2), failed, pub)), {i.res: 0}), ("@env", (s, (lk, wr, True, pub)), {i.res: -1})]
        if c == "mmap":
            return (s, (False, True, False, False))
        if is_copy(c):
            a = i.ops[0]
            if a in sh or path(f, a).base in sh:
                if not lk or not wr:
                    note(i, "written", "copies to the segment %s" % ("without holding the lock" if not lk else "while it is read-only"))
                else:
                    good.add((i, "written"))
                if pub:
                    note(i, "complete", "writes to the segment after the slot of the entry was filled")
            return t
        if c.startswith(("llvm.", "@llvm.")):
            return t
        ts = P.targets(i) or {c}
        for k, o in enumerate(i.ops):
            if isinstance(o, str) and o in sh:
                w = None
                for n in ts:
                    w = w or W.param(n, k)
                if w:
                    if not lk or not wr:
                        note(i, "written", "%s writes to the segment %s" % (w, "without holding the lock" if not lk else "while it is read-only"))
                    else:
                        good.add((i, "written"))
                    if pub:
                        note(i, "complete", "%s writes to the segment after the slot of the entry was filled" % w)
        if c in THROW:
            if lk:
                note(i, "ends", "throws while holding the lock")
            elif wr and not failed and not ctor:
                note(i, "ends", "throws while the segment is writable")
            return None
        if ts & locking:
            if lk:
                note(i, "ends", "calls %s, which takes the lock, while holding it" % c)
            if ctor:
                return (s, (lk, False, failed, pub))
        if lk and may(i):
            note(i, "ends", "calls %s, which can throw, while holding the lock" % c)
        return t
    res = [i.res for i in f.insts() if i.op == "call" and i.x["callee"] in LOCKS | UNLOCKS | {"mprotect"}]
    F = PredFlow(f, {}, (False, False, False, False), tr, cap=600, extra=res, keep=res)
    F.run()
    if F.widened:
        raise an.AnalysisError("C15: too many paths in " + f.name)
    for r, (s, (lk, wr, failed, pub)), env in F.exits:
        m = "returns while holding the lock" if lk else "returns with the segment writable" if wr and not failed else None
        rep.check(m is None, "ends", f.name + "|end", r.where(), "%s %s" % (f.name, m))
    hit = {b[0] for b in bad}
    for i, k, m in bad:
        rep.bad(k, "%s|%s" % (f.name, m.split(" (")[0]), i.where(), "%s: %s" % (f.name, m))
    for i, k in good:
        if i not in hit:
            rep.ok(k, i.where())
    # templates and strings are copied whole, and what a copied record points to was copied before
    for i in f.insts():
        if i.op != "call" or not is_copy(i.x["callee"]) or not i.ops[0] in sh or not isinstance(i.ops[1], str):
            continue
        src = path(f, i.ops[1])
        if an.pointee(f, an.strip(f, i.ops[1])) in ("handlebars_module", "handlebars_string"):
            rep.check(whole_copy(f, i, an.strip(f, i.ops[1])), "complete", f.name + "|whole", i.where(),
                      "%s copies only a part of a template or its text into the segment" % f.name)
        d = f.defs.get(src.base)
        if d is not None and d.op == "alloca":
            for j in f.insts():
                if j.op == "store" and j.ty == "ptr" and path(f, j.ops[1]).base == src.base and not within(f, G, sh, j.ops[0]):
                    rep.bad("complete", f.name + "|points", j.where(), "%s puts an entry into the segment that points outside it" % f.name)
    # what is copied in as a string must have its hash already
    for i in f.insts():
        if i.op == "call" and is_copy(i.x["callee"]) and (i.ops[0] in sh) and isinstance(i.ops[1], str) and \
                an.pointee(f, an.strip(f, i.ops[1])) == "handlebars_string":
            ok = any(j.op == "call" and j.ops and j.ops[0] == i.ops[1] and always_hashes(P, j.x["callee"]) and an.inst_dominates(j, i)
                     for j in f.insts())
            rep.check(ok, "complete", f.name + "|hash", i.where(), "%s copies a string into the segment before its hash is computed; "
                      "readers would have to store it" % f.name)


def within(f, G, sh, v):
    """v is null or an address in the segment"""
    for l in an.leaves(f, v):
        if not isinstance(l, str) or l in ("null", "0") or const_int(l) == 0:
            continue
        b = path(f, l).base
        d = f.defs.get(b)
        pl = place(f, d.ops[0]) if d is not None and d.op == "load" else None
        if not (l in sh or b in sh or pl and pl[0] == G.S and pl[1] in G.ptrs):
            return False
    return True


def whole_copy(f, i, s):
    """the copy takes all of a template or a string: its size is the one the object tells"""
    l, k = linear.lin(f, i.ops[2])
    st = an.pointee(f, s)
    mem = {"handlebars_module": "size", "handlebars_string": "len"}[st]

    def member(a):
        for j in f.insts():
            if j.op == "load" and (j.res == a or linear.lin(f, j.res)[0] == {a: 1}):
                pl = place(f, j.ops[0])
                if pl and pl[0] == st:
                    return pl[1]
        return None
    if len(l) != 1 or any(c != 1 for c in l.values()):
        return k >= 0
    if mem == "size":
        return k >= 0 or member(next(iter(l))) != mem
    return k > 0


def slot(f, G, a):
    """address of a table slot: table pointer of the header plus an index"""
    p = path(f, a)
    d = f.defs.get(p.base)
    if d is None or d.op != "load" or not p.sym:
        return None
    pl = place(f, d.ops[0])
    if pl and pl[0] == G.S and pl[1] in G.ptrs and all(z == 8 for _, z in p.sym):
        return pl[1]
    return None


def ctor_value(f, G, v):
    """v in terms of the values the constructor gave the header members it is computed from"""
    l, k = linear.lin(f, v)
    out = ({}, k)
    for a, c in l.items():
        m = member_atom(f, G, a)
        if m not in G.given:
            return None
        out = linear.comb(out, G.given[m], c)
    return out


def member_atom(f, G, a):
    d = f.defs.get(a)
    if d is not None and d.op == "load":
        pl = place(f, d.ops[0])
        return pl[1] if pl and pl[0] == G.S else None
    for i in f.insts():
        if i.op == "load" and linear.lin(f, i.res)[0] == {a: 1}:
            pl = place(f, i.ops[0])
            if pl and pl[0] == G.S:
                return pl[1]
    return None


def covers(f, G, i):
    d = f.defs.get(an.strip(f, i.ops[0]))
    if d is None or d.op != "load":
        return False
    pl = place(f, d.ops[0])
    if not pl or pl[0] != G.S or pl[1] not in G.ptrs:
        return False
    return pl[1] == G.tab and ctor_value(f, G, i.ops[1]) == linear.comb(G.ts, G.ds, 1)


def bounds(P, G, f, rep):
    sh = G.shared(f)
    if any(i.op == "call" and i.x["callee"] == "mmap" for i in f.insts()):
        return
    tab = G.tab
    for i in f.insts():
        if i.op in ("load", "store"):
            a = i.ops[0] if i.op == "load" else i.ops[1]
            s = slot(f, G, a)
            if s == tab:
                p = path(f, a)
                d = f.defs.get(an.strip(f, p.sym[0][0]))
                while d is not None and d.op in ("zext", "sext"):
                    d = f.defs.get(d.ops[0])
                ok = d is not None and d.op == "urem" and G.counts(f, d.ops[1]) and not p.off
                rep.check(ok, "inside", "%s|slot" % f.name, i.where(), "%s uses a slot that may lie outside the table" % f.name)
        elif i.op == "call" and is_copy(i.x["callee"]) and (i.ops[0] in sh):
            n = i.ops[2]
            p = path(f, i.ops[0])
            d = f.defs.get(p.base)
            pl = place(f, d.ops[0]) if d is not None and d.op == "load" else None
            if not pl or pl[0] != G.S:
                rep.bad("inside", "%s|copy" % f.name, i.where(), "%s copies to an unknown place of the segment" % f.name)
                continue
            if pl[1] == tab:
                ok = not p.sym and not p.off and ctor_value(f, G, n) == G.ts
                rep.check(ok, "inside", "%s|table" % f.name, i.where(), "%s clears something else than the table" % f.name)
                continue
            fs = an.dom_facts(i)
            ok = True
            off = ({}, p.off)
            for v, z in p.sym:
                off = linear.comb(off, linear.lin(f, v), z)
            goal0 = linear.comb(off, linear.lin(f, n), 1)
            lims = [a for c in linear.constraints(f, fs) for a in c[0]
                    if member_atom(f, G, a) and G.given.get(member_atom(f, G, a)) == G.ds]
            ok = bool(lims)
            if lims:
                goal = linear.comb(({lims[0]: 1}, 0), goal0, -1)
                ok = all(linear.prove(f, sub, [], extra) for sub, extra in cases(f, fs, goal, i))
            rep.check(ok, "inside", "%s|copy" % f.name, i.where(), "%s may copy beyond the data of the segment" % f.name)
            # and the room it takes is taken
            ok = False
            for j in f.insts():
                if j.op == "store" and (an.inst_dominates(j, i) or an.inst_dominates(i, j)):
                    m = place(f, j.ops[1])
                    if m and m[0] == G.S and any(member_atom(f, G, a) == m[1] for a in off[0]):
                        def one(e):
                            r = ({}, e[1])
                            for a, k in e[0].items():
                                r = linear.comb(r, ({m[1] if member_atom(f, G, a) == m[1] else a: 1}, 0), k)
                            return r
                        g = linear.comb(one(linear.lin(f, j.ops[0])), one(goal0), -1)
                        ok = ok or all(linear.prove(f, sub, [], extra) for sub, extra in cases(f, fs, g, i))
            rep.check(ok, "inside", "%s|taken" % f.name, i.where(), "%s does not count the room it takes, which will be handed out again" % f.name)


def cases(f, fs, goal, at):
    """the goal and the facts, once for each value of the joined values in them, with the bounds of remainders"""
    cons = linear.constraints(f, fs)
    phis = sorted({a for e in [goal] + cons for a in e[0] if f.defs.get(a) is not None and f.defs[a].op == "phi"
                   and len(f.defs[a].ops) <= 4 and not an.loops_containing(f, f.defs[a].block)})[:3]
    combos = [({}, [])]
    for ph in phis:
        combos = [(dict(m, **{ph: o}), ex + linear.constraints(f, an.edge_facts(f.blocks[lab], f.defs[ph].block) +
                                                              an.dom_facts(f.blocks[lab])))
                  for m, ex in combos for o, lab in f.defs[ph].ops]
    for m, ex in combos:
        def sub(e):
            r = ({}, e[1])
            for a, k in e[0].items():
                r = linear.comb(r, linear.lin(f, m[a]) if a in m else ({a: 1}, 0), k)
            return r
        cs = [sub(c) for c in cons + ex]
        g = sub(goal)
        at = {a for e in cs + [g] for a in e[0]}
        for a in at:
            d = f.defs.get(a)
            if d is not None and d.op == "urem":
                cs.append(({a: 1}, 0))
                k = const_int(d.ops[1])
                if k:
                    cs.append(({a: -1}, k - 1))
        yield g, cs


def created(P, G, rep):
    """the constructor lays table and data out one after the other inside the segment"""
    cs = [(f, i) for f in G.fns for i in f.insts() if i.op == "call" and i.x["callee"] == "mmap"]
    if len(cs) != 1:
        raise an.AnalysisError("C15: %d places create the segment" % len(cs))
    f, m = cs[0]
    st = {}
    for i in f.insts():
        if i.op == "store":
            pl = place(f, i.ops[1])
            if pl and pl[0] == G.S:
                st.setdefault(pl[1], []).append(i.ops[0])
    pt, G.given = {}, {}
    for k, vs in st.items():
        if k in G.ptrs:
            p = path(f, vs[0])
            o = ({}, p.off)
            for x, z in p.sym:
                o = linear.comb(o, linear.lin(f, x), z)
            if len(vs) == 1 and p.base == m.res:
                pt[k] = o
        elif len(vs) == 1:
            G.given[k] = linear.lin(f, vs[0])
    tot = linear.lin(f, m.ops[1])
    lay = []
    for t in pt:
        for d in pt:
            if t == d:
                continue
            G.tab, G.ts, G.ds = t, linear.comb(pt[d], pt[t], -1), linear.comb(tot, pt[d], -1)
            ok = G.ts in G.given.values() and G.ds in G.given.values() and any(slot(g, G, a) == t for g in G.fns for i in g.insts()
                                                                               if i.op == "load" for a in i.ops)
            if ok:
                lay.append((t, G.ts, G.ds))
    rep.check(len(lay) == 1, "inside", f.name + "|layout", m.where(),
              "%s: the table and the data it records do not make up the segment behind the header" % f.name)
    if len(lay) != 1:
        return False
    G.tab, G.ts, G.ds = lay[0]
    v = [x for k, vs in st.items() for x in vs if k not in G.ptrs and linear.lin(f, x) == G.ts]

    def counts(g, x):
        """x is a number of slots the table has room for"""
        c = ctor_value(g, G, x)
        return c is not None and any(all(enough(f, l, c) for l in an.leaves(f, w)) for w in v)
    G.counts = counts
    return True


def enough(f, v, tc):
    """v is at least 8 * tc: the product itself, or rounded up by adding more than a remainder"""
    e = linear.lin(f, v)
    d = linear.comb(e, ({a: k * 8 for a, k in tc[0].items()}, tc[1] * 8), -1)
    if d == ({}, 0):
        return True
    # + page - (product % page)
    pos = [a for a, k in d[0].items() if k == 1]
    neg = [a for a, k in d[0].items() if k == -1]
    if len(pos) == 1 and len(neg) == 1 and d[1] == 0:
        r = f.defs.get(neg[0])
        return r is not None and r.op == "urem" and linear.lin(f, r.ops[1]) == ({pos[0]: 1}, 0)
    return False
