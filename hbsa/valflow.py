"""Abstract interpretation of the tagged union struct handlebars_value.

For every function that touches the fields of a handlebars_value directly, all paths are followed with the kind tag
case-split over all enumerators.  The abstract record of each value (identified by its base pointer) is
    tag    : the tag now held
    origin : 'e' unchanged since entry | 'set' stored here | ('copy', base)
    flags  : 'e' | '0' | ('copy', base) | 'x'
    pay    : 'e' | '0' | ('v', ssa) | ('copy', base) | 'x'
    rel    : the previous content was released (tag reached null through a releasing call)
plus the reference operations seen on each payload symbol.
"""
from . import an
from .an import AnalysisError, path
from .flow import Flow

RC = {"STRING": "string", "MAP": "map", "ARRAY": "stack", "USER": "user", "PTR": "ptr", "CLOSURE": "closure"}
STRUCT = {k: "handlebars_" + v for k, v in RC.items()}
TYPE_OFF, FLAG_OFF, PAY_OFF, SIZE = 0, 4, 8, 16


class Rec:
    __slots__ = ("tag", "origin", "flags", "pay", "rel", "tag0")

    def __init__(self, tag=None, origin="e", flags="e", pay="e", rel=None, tag0=None):
        self.tag, self.origin, self.flags, self.pay, self.rel, self.tag0 = tag, origin, flags, pay, rel, tag0

    def key(self):
        return (self.tag, self.origin, self.flags, self.pay, self.rel, self.tag0)

    def but(self, **kw):
        r = Rec(*self.key())
        for k, v in kw.items():
            setattr(r, k, v)
        return r


class VF:
    def __init__(self, P):
        self.P = P
        e = P.enum_type("handlebars_value_type")
        pre = "HANDLEBARS_VALUE_TYPE_"
        self.tags = {k[len(pre):]: v for k, v in e.items() if k.startswith(pre)}
        self.name = {v: k for k, v in self.tags.items()}
        for k in list(RC) + ["NULL", "TRUE", "FALSE", "INTEGER", "FLOAT", "HELPER"]:
            if k not in self.tags:
                raise AnalysisError("value kind %s not found" % k)
        self.fns = [f for f in P.functions.values() if not f.mod.unit.startswith("bin") and self.touches(f)]
        self.typefns = {"handlebars_value_get_type", "handlebars_value_get_real_type"}
        if not self.fns:
            raise AnalysisError("no function touches a handlebars_value")
        # summaries: callee -> {param index: effect}; effect 'null' | tag number
        self.sum = {}
        self.rel = set()          # (function, parameter): the old content is always released
        self.res = {}
        self.reads = {}
        for _ in range(8):
            old = (dict(self.sum), set(self.rel))
            for f in self.fns:
                self.analyse(f)
            # functions that pass a value parameter on to a summarised one (the null setter, say)
            more = []
            for f in P.functions.values():
                if f in self.fns or f.mod.unit.startswith("bin") or len(f.order) > 8:
                    continue
                ps = {p[1] for p in f.params if an.pointee(f, p[1]) == "handlebars_value"}
                if ps and any(i.op == "call" and any(n < len(i.ops) and i.ops[n] in ps for n in
                                                     self.sum.get(P.uname(f.mod, i.x["callee"]), {})) for i in f.insts()):
                    more.append(f)
            self.fns += more
            if old == (self.sum, self.rel) and not more:
                break

    # -- addresses --------------------------------------------------------------------------
    def slot(self, f, a):
        """(base key, field offset) when address a is a field of a handlebars_value"""
        p = path(f, a)
        M = f.mod
        # embedded: find the step that enters a handlebars_value
        if p.steps and p.steps[-1][0] == "handlebars_value":
            return ((p.base, p.off // SIZE if an.pointee(f, p.base) == "handlebars_value" else
                     p.off - {"type": 0, "flags": 4, "v": 8}.get(p.steps[-1][1], 0), p.sym),
                    {"type": 0, "flags": 4, "v": 8}.get(p.steps[-1][1]))
        s = an.pointee(f, p.base)
        if s == "handlebars_value":
            return ((p.base, p.off // SIZE, p.sym), p.off % SIZE)
        return None

    def basekey(self, f, v):
        p = path(f, v)
        s = an.pointee(f, p.base)
        if s == "handlebars_value":
            return (p.base, p.off // SIZE, p.sym)
        return (p.base, p.off, p.sym)

    def touches(self, f):
        for i in f.insts():
            if i.op in ("load", "store"):
                s = self.slot(f, i.ops[1] if i.op == "store" else i.ops[0])
                if s and (s[1] == PAY_OFF or i.op == "store" and s[1] in (TYPE_OFF, FLAG_OFF)):
                    return True
            if i.op == "call" and i.x["callee"].startswith(("llvm.memset", "llvm.memcpy", "memset", "memcpy")):
                if an.pointee(f, i.ops[0]) == "handlebars_value" and any(path(f, i.ops[0]).base == q[1] for q in f.params):
                    return True
        return False

    def released(self, r, k, t):
        """what value k held on entry has been released (or was nothing that needs releasing)"""
        if r.rel or r.tag0 == self.tags["NULL"]:
            return True
        if r.tag0 is None:
            return False
        n = self.name[r.tag0]
        return n not in RC or (("pay", k), (RC[n], "delref")) in t[1]

    # -- one function -------------------------------------------------------------------------
    def kinds(self, f, v, seen=None, depth=0):
        """C struct names / scalar kinds the value is used as"""
        out = set()
        seen = set() if seen is None else seen
        if v in seen or depth > 6:
            return out
        seen.add(v)
        for u in f.users.get(v, []):
            if u.op == "call":
                if u.x["callee"] == v:
                    out.add(("helper", u))
                for k, a in enumerate(u.ops):
                    if a == v:
                        s = self.param_struct(f, u, k)
                        if s:
                            out.add((s, u))
            elif u.op == "gep" and u.ops[0] == v:
                if u.x.startswith("%struct"):
                    out.add((an.short(u.x), u))
            elif u.op == "load" and u.ops[0] == v:
                # a field at offset zero: the struct is unknown
                out.add(("?", u))
            elif u.op in ("phi", "select"):
                out |= {(k, f.defs[v]) for k, w in self.kinds(f, u.res, seen, depth + 1)}
            elif u.op == "ret":
                s = an.ptr_struct(f.mod, an.fn_sig(f.mod, f)[0])
                if s:
                    out.add((s, u))
        return out

    def param_struct(self, f, call, k):
        c = call.x["callee"]
        g = self.P.functions.get(self.P.uname(f.mod, c)) or f.mod.decls.get(c)
        if g is None:
            return None
        ps = an.fn_sig(g.mod, g)[1]
        off = len(g.params) - len(ps)
        if 0 <= k - off < len(ps):
            return an.ptr_struct(g.mod, ps[k - off])
        return None

    def analyse(self, f):
        P, T = self.P, self.tags
        NT = len(self.name)
        typeloads = {}
        payloads = {}
        for i in f.insts():
            if i.op == "load":
                s = self.slot(f, i.ops[0])
                if s and s[1] == TYPE_OFF and i.ty == "i32":
                    typeloads[i.res] = s[0]
                elif s and s[1] == PAY_OFF:
                    payloads[i.res] = s[0]
                elif s and s[1] == FLAG_OFF:
                    payloads[i.res] = None
        gettype = {i.res: i for i in f.insts() if i.op == "call" and i.res and
                   i.x["callee"] in ("handlebars_value_get_type", "handlebars_value_get_real_type")}
        params = [p[1] for p in f.params]
        self.reads[f.uname] = reads = []
        self._cur = f

        def get(t, k):
            for kk, v in t[0]:
                if kk == k:
                    return Rec(*v)
            return Rec()

        def put(t, k, r):
            return (tuple(sorted([(kk, v) for kk, v in t[0] if kk != k] + [(k, r.key())], key=repr)), t[1], t[2])

        def sym(t, v):
            v = an.leaves(f, v)
            v = v.pop() if len(v) == 1 else None
            for kk, s in t[2]:
                if kk == v:
                    return s
            return ("v", v)

        def symset(t, v, s):
            return (t[0], t[1], tuple(sorted([(a, b) for a, b in t[2] if a != v] + [(v, s)], key=repr)))

        def event(t, s, e):
            if t[1] == ("over",):
                return t
            n = [x for x in t[1]]
            n.append((s, e))
            if len(n) > 12:
                return (t[0], ("over",), t[2])
            return (t[0], tuple(n), t[2])

        def paysym(t, k):
            r = get(t, k)
            if r.pay == "e":
                return ("pay", k)
            if isinstance(r.pay, tuple) and r.pay[0] == "copy":
                return ("pay", r.pay[1])
            if isinstance(r.pay, tuple):
                return r.pay
            return ("zero",)

        def effect(t, k, eff, releases):
            r = get(t, k)
            if releases:
                t = event(t, ("rel", k), "release")
            return put(t, k, Rec(tag=eff, origin="set", flags="0", pay="0" if eff == T["NULL"] else "x",
                                 rel=releases or r.rel, tag0=r.tag0))

        def transfer(i, t, env):
            if i.op == "load":
                if i.res in typeloads:
                    k = typeloads[i.res]
                    r = get(t, k)
                    if r.tag is not None:
                        return [("@env", t, {i.res: r.tag})]
                    return [("@env", put(t, k, r.but(tag=n, tag0=n)), {i.res: n}) for n in self.name]
                if i.res in payloads:
                    k = payloads[i.res]
                    s = self.slot(f, i.ops[0])
                    if s[1] == PAY_OFF:
                        return symset(t, i.res, paysym(t, k))
                    r = get(t, s[0])
                    return symset(t, i.res, ("flags", s[0]) if r.flags == "e" else ("fl", r.flags))
                return t
            if i.op == "store":
                s = self.slot(f, i.ops[1])
                if not s:
                    return t
                k, off = s
                r = get(t, k)
                v = i.ops[0]
                if off == TYPE_OFF:
                    d = an.strip(f, v)
                    if d in typeloads and typeloads[d] != k:
                        src = typeloads[d]
                        return put(t, k, r.but(tag=get(t, src).tag, origin=("copy", src), rel=r.tag == T["NULL"] or r.rel))
                    out = []
                    for x, e in F.split(v, env):
                        if not isinstance(x, int):
                            out.append(("@env", put(t, k, r.but(tag=None, origin="x")), e))
                        else:
                            out.append(("@env", put(t, k, r.but(tag=x, origin="set", rel=r.tag == T["NULL"] or r.rel)), e))
                    return out
                if off == FLAG_OFF:
                    c = an.const_int(v)
                    if c == 0:
                        return put(t, k, r.but(flags="0"))
                    s2 = sym(t, v)
                    if s2[0] == "flags":
                        return put(t, k, r.but(flags=("copy", s2[1])))
                    return put(t, k, r.but(flags="or" if r.origin == "e" else "x"))
                if off == PAY_OFF:
                    c = an.const_int(v)
                    if c == 0 and i.ty == "ptr":
                        return put(t, k, r.but(pay="0"))
                    s2 = sym(t, v)
                    if s2[0] == "pay":
                        return put(t, k, r.but(pay=("copy", s2[1])))
                    ty = i.ty
                    return put(t, k, r.but(pay=("v", v, ty)))
                return t
            if i.op == "call":
                c = i.x["callee"]
                if c.startswith(("llvm.memset", "memset")) and an.const_int(i.ops[1]) == 0:
                    s = self.slot(f, i.ops[0])
                    p = path(f, i.ops[0])
                    if s:
                        n = an.const_int(i.ops[2])
                        r = get(t, s[0])
                        kw = {}
                        if n is None or n >= SIZE and s[1] == 0:
                            return put(t, s[0], Rec(T["NULL"], "set", "0", "0", r.rel, r.tag0))
                        if s[1] == PAY_OFF:
                            kw["pay"] = "0"
                        return put(t, s[0], r.but(**kw))
                    if an.pointee(f, i.ops[0]) == "handlebars_value":
                        k = self.basekey(f, i.ops[0])
                        return put(t, k, Rec(T["NULL"], "set", "0", "0", None, T["NULL"]))
                    return t
                if c.startswith(("llvm.memcpy", "memcpy", "llvm.memmove")):
                    if an.pointee(f, i.ops[0]) == "handlebars_value" and an.pointee(f, i.ops[1]) == "handlebars_value":
                        k, k2 = self.basekey(f, i.ops[0]), self.basekey(f, i.ops[1])
                        r, r2 = get(t, k), get(t, k2)
                        return put(t, k, Rec(r2.tag, ("copy", k2), ("copy", k2), ("copy", k2), r.tag == T["NULL"] or r.rel, r.tag0))
                    return t
                m = rcop(c)
                if m and i.ops:
                    t = event(t, sym(t, i.ops[0]), m)
                if i.res in gettype:
                    k = self.basekey(f, i.ops[0])
                    r = get(t, k)
                    outs = []
                    for n in ([r.tag] if r.tag is not None else list(self.name)):
                        t2 = put(t, k, r.but(tag=n, tag0=r.tag0 if r.tag is not None else n))
                        if n == T["USER"] and c == "handlebars_value_get_type":
                            for rep in (T["NULL"], T["MAP"], T["ARRAY"]):
                                outs.append(("@env", t2, {i.res: rep}))
                        else:
                            outs.append(("@env", t2, {i.res: n}))
                    return outs
                g = self.P.uname(f.mod, c)
                for n, eff in self.sum.get(g, {}).items():
                    if n < len(i.ops):
                        t = effect(t, self.basekey(f, i.ops[n]), eff, (g, n) in self.rel)
                # reads: payload handed to something
                return t
            return t

        keep = set(typeloads) | set(gettype)
        F = Flow(f, ((), (), ()), transfer, extra=tuple(keep), keep=keep, cap=4000)
        # consumer checks need the state at each use, so wrap transfer
        inner = F.transfer
        cons = {}
        for v, k in payloads.items():
            s = self.slot(f, f.defs[v].ops[0])
            if s[1] != PAY_OFF:
                continue
            d = f.defs[v]
            if d.ty in ("double", "i64"):
                for u in f.users.get(v, []):
                    if u.op == "store" and self.slot(f, u.ops[1]):
                        continue
                    if u.op in ("phi", "select"):
                        u = d
                    cons.setdefault(id(u), []).append((u, v, k, d.ty))
            else:
                for knd, u in self.kinds(f, v):
                    cons.setdefault(id(u), []).append((u, v, k, knd))
        seenr = {}

        def tr2(i, t, env):
            for u, v, k, knd in cons.get(id(i), []):
                r = get(t, k)
                # the symbol must still stand for the payload of k on entry
                seenr.setdefault((v, knd, id(u)), (u, v, k, knd, set()))[4].add(
                    (r.tag if r.pay == "e" or r.origin == "set" else r.tag, r.pay))
            return inner(i, t, env)
        F.transfer = tr2
        F.run()
        self.reads[f.uname] = list(seenr.values())
        self.res[f.uname] = F
        # summary on parameters
        sm = {}
        for n, p in enumerate(f.params):
            if an.pointee(f, p[1]) != "handlebars_value" or not F.exits:
                continue
            k = (p[1], 0, ())
            tags = set()
            for ret, t, env in F.exits:
                r = get(t, k)
                ok = r.tag is not None and (r.origin in ("set",) and r.flags == "0" or
                                            r.origin == "e" and r.tag == T["NULL"] and r.flags in ("e", "0"))
                tags.add(r.tag if ok else None)
            if len(tags) == 1 and None not in tags:
                sm[n] = tags.pop()
                if all(self.released(get(t, k), k, t) for _, t, _ in F.exits):
                    self.rel.add((f.uname, n))
                else:
                    self.rel.discard((f.uname, n))
        if sm:
            self.sum[f.uname] = sm
        else:
            self.sum.pop(f.uname, None)
        self.get = get
        return F


def rcop(c):
    import re
    m = re.match(r"handlebars_(string|map|stack|user|ptr|closure)_(addref|delref)(_ex)?$", c)
    return (m[1], m[2]) if m else None
