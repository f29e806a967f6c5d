"""C17: transactions on the database cache."""
from .. import an, cachemod
from ..an import const_int, path
from ..cachemod import PredFlow

RULE = ("Typestate of database transactions over every function of the LMDB cache: each transaction begun is ended exactly once before "
        "every return and before every call that can throw; changes end in a commit or in an error; every failure of the database "
        "other than 'not found' is thrown or retried, never dropped; records, handles and cursors are not touched after the "
        "transaction they belong to ended; writers begin a writable transaction and readers change nothing.")
ASSUME = ["LMDB behaves as documented: commit and abort both end a transaction, whatever they return",
          "functions reached through talloc hooks do not throw"]
NOTFOUND = -30798
RDONLY = 0x20000
WRITES = {"mdb_put", "mdb_del", "mdb_drop", "mdb_cursor_put", "mdb_cursor_del"}
UNCHECKED = {"mdb_del", "mdb_cursor_del"}          # a failed removal leaves the entry to the next collection
MAYMISS = {"mdb_get", "mdb_cursor_get", "mdb_del", "mdb_cursor_del"}
PURE = {"mdb_strerror", "mdb_env_get_maxkeysize", "mdb_env_close", "mdb_cursor_close", "mdb_txn_abort", "mdb_cursor_txn",
        "mdb_cursor_dbi", "mdb_txn_env", "mdb_txn_id", "mdb_version", "mdb_env_get_userctx", "mdb_txn_reset"}


def run(ctx, rep):
    P = ctx.inl
    units = {f.mod.unit for f in P.functions.values() for i in f.insts()
             if i.op == "call" and i.x["callee"] == "mdb_txn_begin" and not f.mod.unit.startswith("bin")}
    if not units:
        raise an.AnalysisError("C17: no database transactions found")
    T = thrower(P)
    for f in P.functions.values():
        if f.mod.unit in units and not f.avail and any(i.op == "call" and i.x["callee"].startswith("mdb_") for i in f.insts()):
            check(P, f, T, rep)
    rep.floor("ended", 8, "returns of functions using transactions")
    rep.floor("written", 3, "writing operations")
    rep.floor("noticed", 15, "operations that can fail")


def thrower(P):
    th = P.callers_closure({"handlebars_throw", "handlebars_throw_ex", "longjmp"},
                           {n for n in P.functions if n.endswith(("_dtor", "_delref"))}) | {"?"}

    def may(i):
        c = i.x["callee"]
        if c.startswith(("llvm.", "@llvm.")):
            return False
        if c.startswith("%"):
            return hookless(i)
        ts = P.targets(i)
        hit = ts & th
        if not hit:
            return False
        # throws only with a context to throw to
        for n in hit:
            g = P.functions.get(n)
            if g is None:
                return True
            for j in g.insts():
                if j.op == "call" and (P.targets(j) & th or j.x["callee"] in th):
                    ok = False
                    for fa in an.dom_facts(j):
                        for k, p in enumerate(g.params):
                            if fa[0] == "ne" and fa[1] == p[1] and fa[2] == "null" and k < len(i.ops) and i.ops[k] == "null":
                                ok = True
                    if not ok:
                        return True
        return False

    def hookless(i):
        d = i.fn.defs.get(i.x["callee"]) if hasattr(i, "fn") else None
        if d is not None and d.op == "load" and path(i.fn, d.ops[0]).base.startswith("@"):
            return False
        return True
    return may


def check(P, f, may, rep):
    slots = {path(f, i.ops[3]).key() for i in f.insts() if i.op == "call" and i.x["callee"] == "mdb_txn_begin"}
    cslots = {path(f, i.ops[2]).key() for i in f.insts() if i.op == "call" and i.x["callee"] == "mdb_cursor_open"}
    recs = {path(f, o).base for i in f.insts() if i.op == "call" and i.x["callee"] in ("mdb_get", "mdb_cursor_get")
            for o in i.ops[2 if i.x["callee"] == "mdb_get" else 1:][:2]}
    inputs = {path(f, i.ops[2]).base for i in f.insts() if i.op == "call" and i.x["callee"] == "mdb_get"}
    recs -= inputs
    derived = derive(f, recs)
    bad, seen = {}, set()

    def note(i, m):
        bad.setdefault((i, m), None)

    def is_txn(v):
        d = f.defs.get(v)
        return d is not None and d.op == "load" and path(f, d.ops[0]).key() in slots

    def is_cur(v):
        d = f.defs.get(v)
        return d is not None and d.op == "load" and path(f, d.ops[0]).key() in cslots

    # own state: (open?, writable?, dirty?, lost?, cursor open?, failed operations)
    def tr(i, t, env):
        s, (op, rw, dirty, lost, cur, fail) = t
        if i.op in ("load", "store"):
            a = i.ops[0] if i.op == "load" else i.ops[1]
            p = path(f, a)
            if p.base in derived and not op and not (f.defs.get(p.base) is not None and f.defs[p.base].op == "alloca"):
                note(i, "touches a record after the transaction it was read in has ended")
            return t
        if i.op != "call":
            return t
        c = i.x["callee"]

        def out(o, w, d, l, u, fl):
            return (s, (o, w, d, l, u, fl))
        if not c.startswith("mdb_"):
            for a in i.ops:
                if isinstance(a, str) and a in derived and not op and not c.startswith("llvm.lifetime"):
                    note(i, "hands on a record after the transaction it was read in has ended")
            if c in ("handlebars_throw", "handlebars_throw_ex"):
                if op:
                    note(i, "throws with the transaction still open")
                if not rw and cur:
                    note(i, "throws with a cursor still open")
                return None
            if op and may(i):
                note(i, "calls %s, which can throw, with the transaction still open" % c)
            return t
        if c == "mdb_txn_begin":
            if op:
                note(i, "begins a transaction while one is open")
            fl = const_int(i.ops[2])
            if fl is None:
                raise an.AnalysisError("C17: transaction flags at %s are not constant" % i.where())
            seen.add((i, "noticed"))
            sp = path(f, i.ops[3])
            return [("@env", out(True, not fl & RDONLY, False, lost, False, fail - {i.res}), {i.res: 0, (sp.base, sp.off): "nn"}),
                    ("@env", out(op, rw, dirty, lost, cur, fail | {i.res}), {i.res: 1})]
        if c in ("mdb_txn_abort", "mdb_txn_commit"):
            if not op:
                note(i, "ends a transaction that is not open")
                return None
            if not is_txn(i.ops[0]):
                note(i, "ends another transaction than the one it began")
            if cur and not rw:
                note(i, "ends a reading transaction with its cursor still open")
            if c == "mdb_txn_abort":
                return out(False, rw, False, lost or dirty, False, fail)
            seen.add((i, "noticed"))
            return [("@env", out(False, rw, False, lost, False, fail - {i.res}), {i.res: 0}),
                    ("@env", out(False, rw, False, lost or dirty, False, fail | {i.res}), {i.res: 1})]
        if c == "mdb_cursor_close":
            if not cur:
                note(i, "closes a cursor that is not open")
            return out(op, rw, dirty, lost, False, fail)
        if any(is_txn(a) for a in i.ops) and not op:
            note(i, "%s uses a transaction that is not open" % c)
            return None
        if any(is_cur(a) for a in i.ops) and not cur:
            note(i, "%s uses a cursor that is not open" % c)
            return None
        if c in WRITES:
            seen.add((i, "written"))
            if not rw:
                note(i, "%s in a transaction begun for reading" % c)
        if c in PURE or i.ty == "void" or not i.res:
            return t
        if c in UNCHECKED:
            return out(op, rw, True, lost, cur, fail)
        seen.add((i, "noticed"))
        d2 = dirty or c in WRITES
        c2 = cur or c == "mdb_cursor_open"
        r = [("@env", out(op, rw, d2, lost, c2, fail - {i.res}), {i.res: 0}),
             ("@env", out(op, rw, dirty, lost, cur, (fail - {i.res}) | {i.res}), {i.res: 1})]
        if c in MAYMISS:
            r[1:] = [("@env", out(op, rw, dirty, lost, cur, fail - {i.res}), {i.res: NOTFOUND}),
                     ("@env", out(op, rw, dirty, lost, cur, fail | {i.res}), {i.res: 1})]
        return r
    res = [i.res for i in f.insts() if i.op == "call" and i.res and i.x["callee"].startswith("mdb_") and i.x["callee"] not in PURE]
    phis = [i.res for i in f.insts() if i.op == "phi" and any(l in res for l in an.leaves(f, i.res))]
    F = PredFlow(f, {}, (False, False, False, False, False, frozenset()), tr, cap=600, extra=res + phis, keep=res + phis)
    F.run()
    if F.widened:
        raise an.AnalysisError("C17: too many paths in " + f.name)
    for r, (s, (op, rw, dirty, lost, cur, fail)), env in F.exits:
        m = None
        if op:
            m = "returns with the transaction still open"
        elif cur and not rw:
            m = "returns with a cursor still open"
        elif lost:
            m = "returns normally although its changes were rolled back"
        rep.check(m is None, "ended", f.name + "|end", r.where(), "%s %s" % (f.name, m))
        for q in fail:
            v = F.val(q, env)
            if v not in (0, NOTFOUND):
                c = f.defs[q]
                note(c, "the failure of %s is dropped" % c.x["callee"])
    for (i, m) in bad:
        rep.bad("noticed" if "dropped" in m else "ended", "%s|%s" % (f.name, m), i.where(), "%s: %s" % (f.name, m))
    for i, k in seen:
        if not any(b[0] is i for b in bad):
            rep.ok(k, i.where())


def derive(f, recs):
    """values pointing into records of the database"""
    der = set()
    ch = True
    while ch:
        ch = False
        for i in f.insts():
            if not i.res or i.res in der:
                continue
            if i.op == "load":
                p = path(f, i.ops[0])
                # the address held by a record, not the values stored there
                if p.base in recs and p.off == 8 and not p.sym:
                    der.add(i.res)
                    ch = True
            elif i.op in ("gep", "bitcast", "phi", "select"):
                ops = [o for o, _ in i.ops] if i.op == "phi" else i.ops
                if any(o in der for o in ops if isinstance(o, str)):
                    der.add(i.res)
                    ch = True
    return der
