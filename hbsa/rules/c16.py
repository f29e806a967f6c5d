"""C16: cached templates stay alive while they are in use, and no longer."""
from .. import an, cachemod
from ..an import const_int, path, place
from ..cachemod import PredFlow, rel
from ..flow import Flow
from .c15 import Seg, slot, is_copy

RULE = ("Typestate of the pin on a cached template. Users: every template found is released exactly once on every way out, errors "
        "included, and not touched afterwards; a template given to a cache is not used any more. Shared memory: looking up pins "
        "before anything is read, keeps the pin exactly if it returns a template, and reads nothing without it; releasing drops one "
        "pin; a reset announces itself first and recycles only after it read no pins. In-process cache: found templates are counted, "
        "releasing counts down, templates are freed only while none is in use and keys outlive their caller. Database cache: a found "
        "template is a copy owned by the finder and freed by releasing it.")
ASSUME = ["calls of the locking primitives do not fail", "the longjmp of an error reaches the handler installed last (C08)"]
THROW = {"handlebars_throw", "handlebars_throw_ex", "handlebars_rethrow", "longjmp"}
FREEMOD = {"handlebars_map_remove", "handlebars_map_str_remove", "handlebars_map_delref", "handlebars_map_dtor"}


def run(ctx, rep):
    P = ctx.inl
    n = 0
    for f in P.functions.values():
        if not f.avail and any(i.op == "call" and i.x["callee"] == "handlebars_cache_find" for i in f.insts()) and \
                not f.mod.unit.startswith("bin"):
            user(P, f, rep)
            n += 1
    if not n:
        raise an.AnalysisError("C16: nothing looks templates up in a cache")
    mmap(P, cachemod.backend(P, "mmap"), rep)
    simple(P, cachemod.backend(P, "simple"), rep)
    lmdb(P, cachemod.backend(P, "lmdb"), rep)
    rep.floor("released", 3, "ways out of users of a cache")
    rep.floor("pinned", 8, "ways out of and reads in the shared memory cache")
    rep.floor("recycled", 2, "places recycling or freeing cached templates")
    rep.floor("owned", 2, "templates handed out or taken over")


# --- users of a cache -------------------------------------------------------------------------------------

def user(P, f, rep):
    sj = [i for i in f.insts() if i.op == "call" and "setjmp" in i.x["callee"]]
    throwing = P.callers_closure(THROW, {n for n in P.functions if n.endswith(("_dtor", "_delref"))}) | {"?"}
    finds = {i.res for i in f.insts() if i.op == "call" and i.x["callee"] == "handlebars_cache_find"}
    bufs = {i.ops[0] for i in sj}
    fields = set()
    for i in f.insts():
        if i.op == "call" and i.x["callee"] == "handlebars_cache_find":
            d = f.defs.get(an.strip(f, i.ops[0]))
            if d is not None and d.op == "load" and place(f, d.ops[0]):
                fields.add(place(f, d.ops[0])[:2])
    H, thrown, bad = {}, set(), {}
    good = set()

    def note(i, m):
        bad.setdefault((i, m), None)

    def cell(a):
        p = path(f, a)
        d = f.defs.get(p.base)
        return (p.base, p.off) if d is not None and d.op == "alloca" and not p.sym else None

    def get(t, k):
        for a, b in t[2]:
            if a == k:
                return b
        return None

    def put(t, k, v):
        return (t[0], t[1], frozenset({x for x in t[2] if x[0] != k} | ({(k, v)} if v is not None else set())))

    # state: (phase, templates held, names of templates)
    def tr(i, t, env):
        if i.op == "store":
            c = cell(i.ops[1])
            pl = place(f, i.ops[1])
            if pl and pl[:2] == ("handlebars_error", "jmp") and t[0] == "try" and i.ops[0] not in bufs:
                return ("after",) + t[1:]     # errors go to the caller again
            if c:
                return put(t, c, get(t, i.ops[0]))
            k = get(t, path(f, i.ops[1]).base)
            if k in ("released", "given"):
                note(i, "writes to a template after it was " + k)
            return t
        if i.op == "load":
            c = cell(i.ops[0])
            if c:
                return put(t, i.res, get(t, c))
            pl = place(f, i.ops[0])
            if t[1] and pl and pl[:2] in fields:
                return ("@env", t, {i.res: "nn"})     # the cache it was found in is still there
            k = get(t, path(f, i.ops[0]).base)
            if k in ("released", "given"):
                note(i, "reads a template after it was " + k)
            return t
        if i.op in ("phi", "select", "bitcast"):
            return t
        if i.op != "call":
            return t
        c = i.x["callee"]
        if i in sj:
            out = [("@env", ("try",) + t[1:], {i.res: 0})] if H["phase"] == 1 else []
            if H["phase"] == 2:
                for t2, e2 in thrown:
                    e = dict(e2)
                    e[i.res] = "nn"
                    out.append(("@env", ("caught",) + t2[1:], e))
            return out
        if c in THROW and t[0] != "try":
            if t[1]:
                note(i, "throws with a template it has not released")
            return None
        if c == "handlebars_cache_find":
            r = [("@env", put(t, i.res, None), {i.res: 0})]
            t2 = put((t[0], t[1] + 1, t[2]), i.res, "found")
            if t[1]:
                note(i, "looks up a template while it holds another")
            r.append(("@env", t2, {i.res: "nn"}))
            if t[0] == "try":
                thrown.add((t, frozenset(env.items())))
            return r
        if c == "handlebars_cache_release":
            k = get(t, i.ops[2])
            if k != "found" or not t[1]:
                note(i, "releases a template it does not hold")
                return None
            return (t[0], t[1] - 1, frozenset((a, "released" if b == "found" else b) for a, b in t[2]))
        for a in i.ops:
            k = get(t, a)
            if k in ("released", "given") and not c.startswith(("llvm.", "@llvm.")):
                note(i, "uses a template after it was " + k)
        if c == "handlebars_cache_add":
            good.add((i, "owned"))
            m = i.ops[2]
            k = get(t, m)
            if k == "found":
                note(i, "gives a template of the cache to it once more")
            # all names of the same template
            tok = k if k is not None and k.startswith("made") else None
            nt = frozenset((a, "given" if tok and b == tok else b) for a, b in t[2])
            t = put((t[0], t[1], nt), m, "given")
            if t[0] == "try":
                thrown.add((t, frozenset(env.items())))
            return t
        tg = P.targets(i)
        if i.res and an.ret_struct(f, i) == "handlebars_module":
            t = put(t, i.res, "made:" + i.res)
        if tg & throwing or c in throwing:
            if t[0] == "try":
                thrown.add((t, frozenset(env.items())))
            elif t[1]:
                note(i, "calls %s, which can throw, with a template it has not released" % c)
        return t
    cl = [i.res for i in f.insts() if i.op == "load" and place(f, i.ops[0]) and place(f, i.ops[0])[:2] in fields]
    keep = [i.res for i in f.insts() if i.op == "alloca"]
    cells = [(k, 0) for k in keep]
    extra = list(finds) + [s.res for s in sj] + cl
    ends = []
    for ph in ((1, 2) if sj else (1,)):
        H["phase"] = ph
        F = Flow(f, ("start", 0, frozenset()), tr, cap=900, extra=extra, keep=extra + cells)
        F.run()
        if F.widened:
            raise an.AnalysisError("C16: too many paths in " + f.name)
        ends += [x for x in F.exits if ph == 1 or x[1][0] == "caught"]
    for r, t, env in ends:
        rep.check(t[1] == 0, "released", f.name + "|" + t[0], r.where(), "%s %s without releasing the template it found" % (
            f.name, "returns" if t[0] != "caught" else "returns after an error"))
    for i, m in bad:
        rep.bad("released", "%s|%s" % (f.name, m), i.where(), "%s %s" % (f.name, m))
    for i, k in good:
        rep.ok(k, i.where())
    if sj and not any(t[0] == "caught" for _, t, _ in ends) and not any(t[0] == "caught" for t in []):
        raise an.AnalysisError("C16: no error paths in " + f.name)


# --- shared memory ----------------------------------------------------------------------------------------

def amount(f, i):
    """(member, change) of an atomic change of a header member"""
    pl = place(f, i.ops[0])
    k = const_int(i.ops[1])
    if pl and k is not None and i.x in ("add", "sub"):
        return pl[1], k if i.x == "add" else -k
    return None


def mmap(P, H, rep):
    G = Seg(P)
    chg = {n: {amount(f, i) for i in f.insts() if i.op == "atomicrmw" and amount(f, i)} for n, f in H.items()}
    pins = {m for m, k in chg["find"] if k == 1} & {m for m, k in chg["release"] if k == -1}
    if len(pins) != 1:
        # no counter taken by looking up and given back by releasing
        fs = {m for m, k in chg["find"] if k == 1 and (m, -1) in chg["find"]}
        f = H["release"]
        if len(fs) == 1:
            rep.bad("pinned", "release", f.order[0].insts[0].where(), "%s does not give back the pin (%s) taken by looking up" % (f.name, fs.pop()))
            return
        rep.bad("pinned", "find", H["find"].order[0].insts[0].where(), "looking up takes no pin that releasing gives back")
        return
    pin = pins.pop()
    gates = {m for m, k in chg["reset"] if k == 1}
    rf = H["reset"]
    if not gates:
        rep.bad("recycled", "gate", rf.order[0].insts[0].where(), "%s does not announce the reset before looking at the pins" % rf.name)
        return

    def gate_load(f, v):
        d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
        if d is None or d.op != "load":
            return None
        pl = place(f, d.ops[0])
        return pl[1] if pl and pl[0] == G.S else None
    # what starting afresh sets in the header
    G.fresh = {place(rf, i.ops[1])[1] for i in rf.insts() if i.op == "store" and const_int(i.ops[0]) is not None and
               place(rf, i.ops[1]) and place(rf, i.ops[1])[0] == G.S}

    def whole(f, a):
        d = f.defs.get(an.strip(f, a))
        pl = place(f, d.ops[0]) if d is not None and d.op == "load" else None
        return bool(pl and pl[0] == G.S)
    G.whole = whole
    for n, f in H.items():
        flow_mmap(P, G, f, n, pin, gates, gate_load, rep)


def flow_mmap(P, G, f, name, pin, gates, gate_load, rep):
    sh = G.shared(f)
    preds = {}
    for i in f.insts():
        r = rel(i, lambda v: gate_load(f, v) == pin, lambda v: const_int(v) is not None)
        if r:
            c = const_int(i.ops[1]) if const_int(i.ops[1]) is not None else const_int(i.ops[0])
            free = {("gt", 0): False, ("le", 0): True, ("eq", 0): True, ("ne", 0): False, ("ge", 1): False, ("lt", 1): True}.get((r, c))
            if free is not None:
                src = next(f.defs[an.strip(f, o)] for o in i.ops if gate_load(f, o) == pin)
                preds[i] = ("free:" + src.res, free, False)
        r = rel(i, lambda v: gate_load(f, v) in gates, lambda v: const_int(v) == 0)
        if r in ("eq", "ne", "gt", "le"):
            src = next(f.defs[an.strip(f, o)] for o in i.ops if gate_load(f, o) in gates)
            preds[i] = ("open:" + src.res, r in ("eq", "le"), False)
    bad, good = {}, set()

    def note(i, k, m):
        bad.setdefault((i, k, m), None)

    # own: (pins taken, announced, locked, loads made while pinned / announced)
    def tr(i, t, env):
        s, (d, g, lk, ld) = t
        if i.op == "atomicrmw":
            a = amount(f, i)
            if a and a[0] == pin:
                if abs(d + a[1]) > 2:
                    return None
                return (s, (d + a[1], g, lk, ld))
            if a and a[0] in gates:
                return (s, (d, g + a[1], lk, ld if a[1] > 0 else ld)) if abs(g + a[1]) <= 2 else None
            return t
        if i.op == "load" or i.op == "store":
            a = i.ops[0] if i.op == "load" else i.ops[1]
            pl, p = place(f, a), path(f, a)
            if i.op == "load" and pl and pl[0] == G.S and (pl[1] == pin or pl[1] in gates):
                ld = frozenset({x for x in ld if x[0] != i.res} | {(i.res, d > 0, g > 0)})
                return (s, (d, g, lk, ld))
            if i.op == "load" and p.base in sh:
                if name == "find" or not lk:
                    good.add((i, "pinned"))
                    if d <= 0:
                        note(i, "pinned", "reads an entry without a pin on it")
                    elif name == "find" and not any(b and k.startswith("open:") and any(x[0] == k[5:] and x[1] for x in ld) for k, b in s):
                        note(i, "pinned", "reads an entry before it knows that no reset is going on")
            if i.op == "store" and pl and pl[0] == G.S and pl[1] in G.fresh and const_int(i.ops[0]) is not None and p.base not in sh:
                recycle(i, t)
            return t
        if i.op != "call":
            return t
        c = i.x["callee"]
        if c in ("pthread_spin_lock", "pthread_mutex_lock"):
            return [("@env", (s, (d, g, True, ld)), {i.res: 0})]
        if c in ("pthread_spin_unlock", "pthread_mutex_unlock"):
            return [("@env", (s, (d, g, False, ld)), {i.res: 0})]
        if c == "mprotect":
            return [("@env", t, {i.res: 0})]
        if is_copy(c) and i.ops[0] in sh and G.whole(f, i.ops[0]):
            recycle(i, t)
        if c in THROW:
            if d or g:
                note(i, "pinned", "throws without giving back %s" % ("the pin" if d else "the announcement of a reset"))
            return None
        return t

    def recycle(i, t):
        s, (d, g, lk, ld) = t
        good.add((i, "recycled"))
        ok = g > 0 and any(b and k.startswith("free:") and any(x[0] == k[5:] and x[2] for x in ld) for k, b in s)
        if not ok:
            note(i, "recycled", "recycles entries %s" % ("without announcing it" if g <= 0 else
                                                         "without having read, after announcing it, that none is in use"))
    res = [i.res for i in f.insts() if i.op == "call" and i.x["callee"] in (
        "pthread_spin_lock", "pthread_mutex_lock", "pthread_spin_unlock", "pthread_mutex_unlock", "mprotect")]
    rets = [b.term.ops[0] for b in f.order if b.term.op == "ret" and b.term.ops and isinstance(b.term.ops[0], str)]
    F = PredFlow(f, preds, (0, 0, False, frozenset()), tr, cap=900, extra=res + rets, keep=res + rets)
    F.run()
    if F.widened:
        raise an.AnalysisError("C16: too many paths in " + f.name)
    for r, (s, (d, g, lk, ld)), env in F.exits:
        want = 0
        if name == "find":
            want = 0 if F.val(r.ops[0], env) == 0 else 1
        elif name == "release":
            want = -1
        rep.check(d == want, "pinned", "%s|%d|%d" % (f.name, want, d), r.where(),
                  "%s returns %shaving changed the pins by %d instead of %d" % (
                      f.name, "" if name != "find" else "a template " if want else "nothing ", d, want))
        rep.check(g == 0, "recycled", f.name + "|gate", r.where(), "%s returns with a reset still announced" % f.name)
    hit = {b[0] for b in bad}
    for i, k, m in bad:
        rep.bad(k, "%s|%s" % (f.name, m), i.where(), "%s: %s" % (f.name, m))
    for i, k in good:
        if i not in hit:
            rep.ok(k, i.where())


# --- in-process -------------------------------------------------------------------------------------------

def simple(P, H, rep):
    own = None
    for f in (H["find"], H["release"]):
        st = {place(f, i.ops[1])[:2] for i in f.insts() if i.op == "store" and place(f, i.ops[1]) and step(f, i) in (1, -1)}
        own = st if own is None else own & st
    if len(own) != 1:
        rep.bad("released", "simple|count", H["release"].order[0].insts[0].where(),
                "the in-process cache does not count down on releasing what it counted up on looking up")
        return
    own = own.pop()
    for name, f in H.items():
        preds = {}
        for i in f.insts():
            def isown(v):
                d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
                return d is not None and d.op == "load" and place(f, d.ops[0]) and place(f, d.ops[0])[:2] == own
            r = rel(i, isown, lambda v: const_int(v) is not None)
            if r:
                c = const_int(i.ops[1]) if const_int(i.ops[1]) is not None else const_int(i.ops[0])
                free = {("gt", 0): False, ("le", 0): True, ("eq", 0): True, ("ne", 0): False, ("ge", 1): False, ("lt", 1): True}.get((r, c))
                if free is not None:
                    preds[i] = ("free", free, False)
        finds = [i.res for i in f.insts() if i.op == "call" and i.res and i.x["callee"] in ("handlebars_map_find", "handlebars_map_str_find")]
        bad = {}

        def tr(i, t, env):
            s, d = t
            if i.op == "store":
                pl = place(f, i.ops[1])
                if pl and pl[:2] == own:
                    k = step(f, i)
                    if k is None or abs(d + k) > 2:
                        bad[i, "sets the number of templates in use"] = "released"
                        return None
                    return (frozenset(), d + k)
            if i.op == "call":
                c = i.x["callee"]
                free = c in FREEMOD or (c in ("_talloc_free", "handlebars_talloc_free", "talloc_free") and
                                        an.pointee(f, an.strip(f, i.ops[0])) == "handlebars_module")
                if free or (c.startswith("%") and freed(f, i) == "handlebars_module"):
                    rep.ok("recycled", i.where())
                    if ("free", True) not in s:
                        bad[i, "frees cached templates without knowing that none is in use"] = "recycled"
                if i.res in finds:
                    return [("@env", t, {i.res: 0}), ("@env", t, {i.res: "nn"})]
            return t
        rets = [b.term.ops[0] for b in f.order if b.term.op == "ret" and b.term.ops and isinstance(b.term.ops[0], str)]
        F = PredFlow(f, preds, 0, tr, cap=900, extra=finds + rets, keep=finds + rets)
        F.run()
        if F.widened:
            raise an.AnalysisError("C16: too many paths in " + f.name)
        for (i, m), k in bad.items():
            rep.bad(k, "%s|%s" % (f.name, m), i.where(), "%s %s" % (f.name, m))
        for r, (s, d), env in F.exits:
            want = {"find": 1, "release": -1}.get(name, 0)
            if name == "find" and F.val(r.ops[0], env) == 0:
                want = 0
            rep.check(d == want, "released", "%s|%d|%d" % (f.name, want, d), r.where(),
                      "%s changes the number of templates in use by %d instead of %d" % (f.name, d, want))
    # keys and templates outlive the caller
    f = H["add"]
    cache, key, mod = [p[1] for p in f.params[:3]]
    for i in f.insts():
        if i.op == "call" and i.x["callee"] in ("handlebars_map_add", "handlebars_map_update"):
            ls = an.leaves(f, i.ops[1])
            ok = all(under(f, l, cache) for l in ls)
            rep.check(ok, "owned", f.name + "|key", i.where(), "%s keeps a key that belongs to its caller" % f.name)
            ok = any(j.op == "call" and j.x["callee"] in ("_talloc_steal_loc", "talloc_steal", "_talloc_move") and
                     path(f, j.ops[0]).base == cache and path(f, j.ops[1]).base == mod and an.inst_dominates(j, i) for j in f.insts()) or \
                any(j.op == "call" and is_copy(j.x["callee"]) and path(f, j.ops[1]).base == mod and an.inst_dominates(j, i) for j in f.insts())
            rep.check(ok, "owned", f.name + "|template", i.where(), "%s keeps a template that belongs to its caller" % f.name)


def step(f, i):
    """constant change a store makes to the member it stores to"""
    d = f.defs.get(i.ops[0])
    if d is None or d.op not in ("add", "sub"):
        return None
    l, k = f.defs.get(d.ops[0]), const_int(d.ops[1])
    if l is None or l.op != "load" or k is None or path(f, l.ops[0]).key() != path(f, i.ops[1]).key():
        return None
    return k if d.op == "add" else -k


def freed(f, i):
    """structure freed by a call through the free hook"""
    d = f.defs.get(i.x["callee"])
    if d is not None and d.op == "load" and "free" in path(f, d.ops[0]).base and i.ops:
        return an.pointee(f, an.strip(f, i.ops[0]))
    return None


def under(f, v, cache):
    """v is a new string allocated under the cache"""
    d = f.defs.get(v)
    if d is None or d.op != "call":
        return False
    c = d.x["callee"]
    return ("_ctor" in c or "copy" in c) and bool(d.ops) and path(f, d.ops[0]).base == cache


# --- database ---------------------------------------------------------------------------------------------

def lmdb(P, H, rep):
    from .c17 import derive
    f = H["find"]
    recs = {path(f, o).base for i in f.insts() if i.op == "call" and i.x["callee"] in ("mdb_get", "mdb_cursor_get") for o in i.ops[2:4]}
    der = derive(f, recs)
    for b in f.order:
        t = b.term
        if t.op == "ret" and t.ops:
            for l in an.leaves(f, t.ops[0]):
                if l == "null":
                    continue
                ok = l not in der
                rep.check(ok, "owned", f.name + "|return", t.where(), "%s returns memory of the database, which goes with the transaction" % f.name)
    f = H["release"]
    m = f.params[2][1]
    fr = [i for i in f.insts() if i.op == "call" and any(path(f, o).base == m for o in i.ops if isinstance(o, str))]
    ok = all(any(i.block is b or an.dominates(f, i.block, b) for i in fr) for b in f.order if b.term.op == "ret")
    rep.check(ok, "owned", f.name + "|free", f.order[0].insts[0].where(), "%s does not free the copy made by looking up" % f.name)
