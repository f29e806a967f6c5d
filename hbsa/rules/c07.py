"""C07: shared containers and strings are copied before they are changed."""
from .. import an
from ..an import cname, path
from ..flow import Flow

RULE = ("For every public operation on a string, array or map: data flow with the reference count of the argument fixed at 2 "
        "(shared) and no iteration in progress. On no path to a normal return may the content of the argument be written, "
        "reallocated or handed to something that writes it; only the object obtained by separating may. Operations an operation "
        "delegates to are judged themselves and summarised by whether what they return can still be the shared object. Writes "
        "to a string's characters outside the string module must go to a string created there.")
ASSUME = ["handlebars_string_append_unsafe, *_init, *_dtor, *_delref, *_addref, handlebars_string_immortalize, "
          "handlebars_stack_protect and handlebars_map_sparse_array_compact (which keeps the content) are excluded by their contract",
          "a map that is being iterated is not separated (documented by the iteration lock)"]
S = ("handlebars_string", "handlebars_stack", "handlebars_map")
INTERNAL = {"rc", "refcount", "hash", "ctx", "flags", "protect", "is_in_iteration"}
EXEMPT = ("_unsafe", "_init", "_dtor", "_delref", "_addref", "_delref_ex", "_addref_ex", "_immortalize", "_protect", "_compact", "_save", "_restore")
WRITES = {"memcpy": 0, "memmove": 0, "memset": 0, "vsnprintf": 0, "snprintf": 0, "qsort_r": 0, "qsort": 0, "strcpy": 0, "strncpy": 0,
          "__vsnprintf_chk": 0, "__snprintf_chk": 0, "fread": 0, "read": 1}


def exempt(n):
    return any(n.endswith(e) for e in EXEMPT) and n != "handlebars_string_compact"


class Cow:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.memo = {}
        self.mut = {}

    def params(self, f):
        _, ps = an.fn_sig(f.mod, f)
        if len(ps) != len(f.params):
            return []
        return [n for n, t in enumerate(ps) if an.ptr_struct(f.mod, t) in S]

    def writes(self, g, n):
        """g may write through its n-th parameter (shared or not)"""
        k = (g, n)
        if k in self.mut:
            return self.mut[k]
        self.mut[k] = False
        f = self.P.functions.get(g)
        r = False
        if f is None:
            b = g.split(".")[1] if g.startswith("llvm.") else g
            r = WRITES.get(b) == n or "realloc" in g and n == 1
        elif n < len(f.params):
            p = f.params[n][1]
            roots = {p}
            ch = True
            while ch:
                ch = False
                for i in f.insts():
                    if i.res in roots or i.res is None:
                        continue
                    if i.op in ("phi", "select") and any(path(f, o).base in roots for o in
                                                         ([x for x, _ in i.ops] if i.op == "phi" else i.ops[1:])):
                        roots.add(i.res)
                        ch = True
            for i in f.insts():
                if i.op == "store" and path(f, i.ops[1]).base in roots and not self.internal(f, i.ops[1]):
                    r = True
                elif i.op == "call":
                    for m, o in enumerate(i.ops):
                        if isinstance(o, str) and path(f, o).base in roots:
                            for t in self.callee(i):
                                if not exempt(t) and self.writes(t, m):
                                    r = True
                if r:
                    break
        self.mut[k] = r
        return r

    def callee(self, i):
        if i.x["callee"].startswith("%"):
            n = cname(i)
            return {n} if n != "?" else self.P.targets(i)
        return {self.P.uname(i.fn.mod, i.x["callee"])}

    def internal(self, f, addr):
        pl = an.place(f, addr)
        p = path(f, addr)
        names = {x for _, x in p.steps}
        return bool(pl and pl[1] in INTERNAL or names & {"rc"})

    def judge(self, f, n):
        """(violations [(inst, text)], may the result be the shared object)"""
        k = (f.uname, n)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = ([], True)
        par = f.params[n][1]
        bad, pins = {}, set()
        for i in f.insts():
            if i.op == "load" and i.ty.startswith("i"):
                pl = an.place(f, i.ops[0])
                if pl and pl[1] in ("rc", "refcount", "is_in_iteration") or any(x == "rc" for _, x in path(f, i.ops[0]).steps):
                    pins.add(i.res)
            elif i.op == "call" and i.x["callee"].endswith("rc_refcount"):
                pins.add(i.res)

        def sh(v, t):
            return isinstance(v, str) and path(f, v).base in t

        def tr(i, t, env):
            if i.res in t:
                t = t - {i.res}
            if i.op == "load":
                if sh(i.ops[0], t):
                    if i.res in pins:
                        pl = an.place(f, i.ops[0])
                        return [("@env", t, {i.res: 0 if pl and pl[1] == "is_in_iteration" else 2})]
                    if i.ty == "ptr" and an.pointee(f, i.res) in (None, "handlebars_map_entry", "handlebars_value"):
                        return t | {i.res}
            elif i.op == "select":
                if sh(i.ops[1], t) or sh(i.ops[2], t):
                    c = F.val(i.ops[0], env)
                    arms = [i.ops[1], i.ops[2]] if c is None else [i.ops[1 if c else 2]]
                    if any(sh(a, t) for a in arms):
                        return t | {i.res}
            elif i.op == "store":
                if sh(i.ops[1], t) and not self.internal(f, i.ops[1]):
                    bad.setdefault(id(i), (i, "writes to it"))
            elif i.op == "call":
                if i.res in pins and i.ops and sh(i.ops[0], t):
                    return [("@env", t, {i.res: 2})]
                res = False
                for m, o in enumerate(i.ops):
                    if not sh(o, t):
                        continue
                    for c in self.callee(i):
                        if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime"):
                            continue
                        g = self.P.functions.get(c)
                        if g is not None and g.name == "hbs_str_val":
                            res = True
                            continue
                        direct = path(f, o).off == 0 and not path(f, o).sym
                        if g is not None and not exempt(g.name) and m in self.params(g) and direct and g.mod.unit in UNITS:
                            b, r = self.judge(g, m)
                            res = res or r and an.ret_struct(f, i) in S + ("handlebars_value",)
                            if g.internal and b:
                                bad.setdefault(id(i), (i, "hands it to %s, which changes it" % g.name))
                            continue
                        if exempt(c) and not c.endswith("_unsafe"):
                            continue
                        if self.writes(c, m):
                            bad.setdefault(id(i), (i, "hands it to %s, which changes it" % c))
                if res and i.res:
                    return t | {i.res}
            return t

        def edge(b, s, t, env):
            add, rem = set(), set()
            for i in s.insts:
                if i.op != "phi":
                    break
                for v, lab in i.ops:
                    if lab == b.name:
                        (add if sh(v, t) else rem).add(i.res)
            return (t | add) - rem if add or rem else t
        F = Flow(f, frozenset({par}), tr, edge, extra=tuple(pins), keep=pins)
        F.run()
        # only what can still return normally counts
        alive = {r.block for r, _, _ in F.exits}
        ok = set()
        for b in f.order:
            if an.reach_blocks(f, b) & alive:
                ok.add(b)
        ret = any(r.ops and sh(r.ops[0], t) for r, t, _ in F.exits)
        self.memo[k] = ([x for x in bad.values() if x[0].block in ok], ret)
        return self.memo[k]


UNITS = ("handlebars_string.c", "handlebars_stack.c", "handlebars_map.c")


def run(ctx, rep):
    P = ctx.inl
    C = Cow(P, rep)
    for f in sorted(P.functions.values(), key=lambda f: f.uname):
        if f.mod.unit not in UNITS or f.internal or f.avail or exempt(f.name):
            continue
        for n in C.params(f):
            bad, _ = C.judge(f, n)
            w = bad[0][0].where() if bad else f.name
            rep.check(not bad, "separate", f.name, w, "%s: the object passed as argument %d may be shared, but %s" % (
                f.name, n + 1, bad[0][1] if bad else ""))
    rep.floor("separate", 40, "operations")
    # whoever else writes characters of a string
    for f in P.functions.values():
        if f.mod.unit in UNITS or f.mod.unit.startswith("bin"):
            continue
        for i in f.insts():
            tgt = None
            if i.op == "store":
                tgt = i.ops[1]
            elif i.op == "call":
                for c in C.callee(i):
                    b = c.split(".")[1] if c.startswith("llvm.") else c
                    if b in WRITES and len(i.ops) > WRITES[b]:
                        tgt = i.ops[WRITES[b]]
            if tgt is None:
                continue
            base = path(f, tgt).base
            for l in an.leaves(f, base):
                l = path(f, l).base
                d = f.defs.get(l)
                s = None
                if d is not None and d.op == "call" and d.x["callee"] == "hbs_str_val":
                    s = d.ops[0]
                elif an.pointee(f, l) == "handlebars_string" and not C.internal(f, tgt):
                    s = l
                if s is None:
                    continue
                src = an.leaves(f, s)
                fresh = all((lambda q: q is not None and q.op == "call" and (q.x["callee"].startswith("handlebars_string_") or
                                                                            "talloc" in cname(q)))(f.defs.get(x)) for x in src)
                rep.check(fresh, "outside", "%s|%s" % (f.name, an.strip(f, s)), i.where(),
                          "%s writes to the characters of a string it did not create" % f.name)
    rep.info["operations"] = len(C.memo)
