"""The cache back ends: their handler tables, and predicates recognised in their code."""
from . import an
from .an import const_int, path
from .flow import Flow, norm

FLIP = {"eq": "eq", "ne": "ne", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}


def backends(P):
    """{unit: {handler name: function}}"""
    out = {}
    for M in P.mods.values():
        for g, (flags, ty, init) in M.globals.items():
            if ty != "%struct.handlebars_cache_handlers" or not init:
                continue
            names = [n for n, _, _, _ in P.struct("handlebars_cache_handlers")]
            vals = [v for _, v in an.parse_aggregate(init)]
            d = {}
            for n, v in zip(names, vals):
                f = P.find(v[1:], M.unit) if isinstance(v, str) and v.startswith("@") else None
                if f is None:
                    raise an.AnalysisError("cache handler %s of %s not found" % (n, M.unit))
                d[n] = f
            out[M.unit] = d
    if len(out) < 3:
        raise an.AnalysisError("cache back ends: found %d handler tables" % len(out))
    return out


def backend(P, word):
    for u, d in backends(P).items():
        if word in u:
            return d
    raise an.AnalysisError("cache back end %s not found" % word)


def size_of(P, s):
    for M in P.mods.values():
        if "%struct." + s in M.types:
            return an.sizealign(M, "%struct." + s)[0]
    raise an.AnalysisError("structure %s not found" % s)


def cmp_of(i):
    """(relation, a, b) of a comparison, sign and orderedness dropped"""
    if i.op == "icmp":
        pr = i.x
        return (pr if pr in ("eq", "ne") else pr[1:]), i.ops[0], i.ops[1]
    if i.op == "fcmp":
        pr = i.x.split()[-1] if isinstance(i.x, str) else i.x
        return pr[1:], i.ops[0], i.ops[1]
    return None, None, None


def rel(i, isa, isb):
    """relation of a to b if i compares a value satisfying isa with one satisfying isb, else None"""
    r, a, b = cmp_of(i)
    if r is None:
        return None
    if isa(a) and isb(b):
        return r
    if isa(b) and isb(a):
        return FLIP.get(r)
    return None


def field_load(f, v, s, member):
    """is v a load of member of a structure s; returns the base value"""
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    if d is None or d.op != "load":
        return None
    pl = an.place(f, d.ops[0])
    if pl and pl[0] == s and pl[1] == member:
        return pl[2]
    return None


class PredFlow(Flow):
    """Flow whose state is (frozenset of (predicate, truth), own state); recognised comparisons are decided both ways"""

    def __init__(self, fn, preds, own, transfer, **kw):
        self.preds, self.own = preds, transfer
        kw.setdefault("extra", ())
        kw["extra"] = tuple(kw["extra"]) + tuple(i.res for i in preds)
        super().__init__(fn, (frozenset(), own), self._tr, **kw)

    def _tr(self, i, t, env):
        pr = self.preds.get(i)
        outs = [(t, env, None)]
        if pr:
            name, truth, integral = pr
            outs = []
            for k in (True, False):
                v = (1 if k else 0) if not integral else (0 if k else "nn")
                known = self.val(i.res, env) if not integral and i.op == "icmp" else None
                if known is not None and known != v:
                    continue
                ty = k if truth else not k
                s = frozenset(x for x in t[0] if x[0] != name) | {(name, ty)}
                outs.append(((s, t[1]), env, {i.res: v}))
        res = []
        for t, e, upd in outs:
            r = self.own(i, t, e)
            if r is None:
                continue
            for q in (r if isinstance(r, list) else [r]):
                if isinstance(q, tuple) and len(q) == 3 and q[0] == "@env":
                    u = dict(upd or {})
                    u.update(q[2])
                    res.append(("@env", q[1], u))
                elif upd:
                    res.append(("@env", q, upd))
                else:
                    res.append(q)
        return res
