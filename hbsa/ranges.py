"""Integer ranges of SSA values, with field invariants, and linear proofs over them.

A value's range comes from how it is made, from comparisons that hold where it is used, and - for a member of a struct - from
every store to that member in the program.  Sums are taken not to wrap around.
"""
import re
from . import an, linear
from .an import const_int, path, place

INF = 1 << 70


def width(ty):
    m = re.match(r"i(\d+)$", ty or "")
    return int(m[1]) if m else 64


def meet(a, b):
    return max(a[0], b[0]), min(a[1], b[1])


def join(a, b):
    return min(a[0], b[0]), max(a[1], b[1])


class Ranges:
    def __init__(self, P):
        self.P = P
        self.mods = self._mods()
        self.callers = {}
        for f in P.functions.values():
            for i in f.insts():
                if i.op == "call":
                    for t in P.targets(i):
                        self.callers.setdefault(t, []).append((f, i))
        self._fields = {}
        self._stores = None
        self._busy = set()
        self._memo = {}

    # --- what functions change
    def _mods(self):
        P = self.P
        own = {}
        for u, f in P.functions.items():
            s = own[u] = set()
            for i in f.insts():
                if i.op == "store":
                    pl = member(f, i.ops[1])
                    if pl:
                        s.add(pl[:2])
                    else:
                        p = path(f, i.ops[1])
                        d = f.defs.get(p.base)
                        if not (d is not None and d.op == "alloca") and not p.base.startswith("@"):
                            s.add((None, i.ty))
                elif i.op == "call" and i.x["callee"].startswith(("llvm.mem", "memcpy", "memmove", "memset")) and i.ops:
                    s.add((an.pointee(f, i.ops[0]), None))
        out = {u: set(s) for u, s in own.items()}
        ch = True
        while ch:
            ch = False
            for u in out:
                n = len(out[u])
                for t in P.cg[u]:
                    out[u] |= out.get(t, {("?", None)} if t == "?" else set())
                ch |= len(out[u]) != n
        return out

    def may_write(self, f, i, s, fld, ty):
        if i.op == "store":
            pl = member(f, i.ops[1])
            if pl:
                return pl[:2] == (s, fld)
            p = path(f, i.ops[1])
            d = f.defs.get(p.base)
            if d is not None and d.op == "alloca" or p.base.startswith("@"):
                return False
            return i.ty == ty
        if i.op == "call":
            c = i.x["callee"]
            if c.startswith(("llvm.mem", "memcpy", "memmove", "memset")) and i.ops:
                q = an.pointee(f, i.ops[0])
                return q == s
            for t in self.P.targets(i):
                for w in self.mods.get(t, {("?", None)} if t == "?" else ()):
                    if w == (s, fld) or w == (s, None) or w[0] == "?" or w[0] is None and w[1] == ty:
                        return True
        return False

    # --- equal loads
    def rep(self, f, v, depth=0):
        """an earlier value that v is equal to"""
        c = f.__dict__.setdefault("_reps", {})
        if v in c:
            return c[v]
        c[v] = v
        d = f.defs.get(v) if isinstance(v, str) else None
        if d is None:
            return v
        if d.op in ("zext", "sext", "freeze", "bitcast") and depth < 8:
            return v
        if d.op != "load" or depth > 8:
            return v
        k = self.addr(f, d.ops[0], depth)
        pl = member(f, d.ops[0])
        if k is None or pl is None:
            return v
        best = v
        for j in f.insts():
            if j.op == "load" and j is not d and j.ty == d.ty and an.inst_dominates(j, d) and self.addr(f, j.ops[0], depth + 1) == k:
                if self.clean(f, j, d, pl, d.ty):
                    best = j.res
                    break
            if j.op == "store" and j.ty == d.ty and isinstance(j.ops[0], str) and an.inst_dominates(j, d) and self.addr(f, j.ops[1], depth + 1) == k:
                if self.clean(f, j, d, pl, d.ty):
                    best = j.ops[0]
                    break
        c[v] = best if best == v else self.rep(f, best, depth + 1) if f.defs.get(best) is not None else best
        return c[v]

    def addr(self, f, p, depth=0):
        q = path(f, p)
        return (self.rep(f, q.base, depth + 1), q.off, tuple((self.rep(f, x, depth + 1), k) for x, k in q.sym))

    def clean(self, f, a, b, pl, ty):
        """nothing on a path from a to b writes the place"""
        if a.block is b.block and a.idx < b.idx:
            return not any(self.may_write(f, i, pl[0], pl[1], ty) for i in a.block.insts[a.idx + 1:b.idx])
        fw = set()
        work = list(a.block.succs)
        while work:
            x = work.pop()
            if x in fw:
                continue
            fw.add(x)
            if x is not b.block and x is not a.block:
                work += x.succs
        ok = not any(self.may_write(f, i, pl[0], pl[1], ty) for i in a.block.insts[a.idx + 1:])
        ok = ok and not any(self.may_write(f, i, pl[0], pl[1], ty) for i in b.block.insts[:b.idx])
        bw = set()
        work = list(b.block.preds)
        while work:
            x = work.pop()
            if x in bw or x is a.block:
                continue
            bw.add(x)
            work += x.preds
        loop = b.block in bw
        for x in fw & bw:
            if x is b.block and not loop:
                continue
            if any(self.may_write(f, i, pl[0], pl[1], ty) for i in x.insts):
                return False
        return ok

    # --- ranges
    def typ(self, f, v):
        d = f.defs.get(v)
        w = width(d.ty) if d is not None else next((width(p[0]) for p in f.params if p[1] == v), 64)
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def rng(self, f, v, b, depth=0):
        c = const_int(v)
        if c is not None:
            return c, c
        if not isinstance(v, str):
            return -INF, INF
        key = (f.uname, v, b.name)
        if key in self._memo:
            return self._memo[key]
        if key in self._busy or depth > 14:
            return self.facts(f, v, b, self.typ(f, v), depth)
        self._busy.add(key)
        r = self.facts(f, v, b, self.base(f, v, b, depth), depth)
        self._busy.discard(key)
        if depth == 0:
            self._memo[key] = r
        return r

    def facts(self, f, v, b, r, depth):
        """narrow by comparisons that hold in b"""
        if depth > 12:
            return r
        me = {v, self.rep(f, v)}
        for fact in an.dom_facts(b):
            r = self.narrow(f, me, fact, r, b, depth)
        return r

    def narrow(self, f, me, fact, r, b, depth):
        pr, x, y = fact[:3]
        if pr == "in":
            if isinstance(x, str) and self.same(f, x, me) == 0:
                ks = [const_int(str(k)) for k in y]
                if ks and all(k is not None for k in ks):
                    return meet(r, (min(ks), max(ks)))
            return r
        if not isinstance(y, str):
            return r
        for x, y, pr in ((x, y, pr), (y, x, SWAP.get(pr, pr))):
            if not isinstance(x, str):
                continue
            off = self.same(f, x, me)
            if off is None:
                continue
            q = self.rng(f, y, b, depth + 3)
            if pr == "eq":
                r = meet(r, (q[0] - off, q[1] - off))
            elif pr in ("slt", "ult") and q[1] < INF:
                r = meet(r, (-INF, q[1] - 1 - off))
            elif pr in ("sle", "ule"):
                r = meet(r, (-INF, q[1] - off))
            elif pr in ("sgt", "ugt") and q[0] > -INF and (pr == "sgt" or q[0] >= 0):
                r = meet(r, (q[0] + 1 - off, INF))
            elif pr in ("sge", "uge") and (pr == "sge" or q[0] >= 0):
                r = meet(r, (q[0] - off, INF))
            elif pr == "ne" and q[0] == q[1]:
                if r[0] == q[0] - off:
                    r = r[0] + 1, r[1]
                if r[1] == q[0] - off:
                    r = r[0], r[1] - 1
            if pr in ("ult", "ule") and 0 <= q[1] < (1 << 62) and off == 0:
                r = meet(r, (0, INF))
        return r

    def same(self, f, x, me):
        """x = v + off -> off"""
        off = 0
        for _ in range(5):
            if x in me or self.rep(f, x) in me:
                return off
            d = f.defs.get(x)
            if d is None:
                return None
            if d.op in ("zext", "sext", "freeze"):
                x = d.ops[0]
            elif d.op in ("add", "sub") and const_int(d.ops[1]) is not None:
                off += const_int(d.ops[1]) * (1 if d.op == "add" else -1)
                x = d.ops[0]
            else:
                return None
        return None

    def base(self, f, v, b, depth):
        d = f.defs.get(v)
        T = self.typ(f, v)
        if d is None:
            return meet(T, self.param(f, v, depth))
        o = d.ops
        R = lambda x: self.rng(f, x, d.block, depth + 1)
        if d.op == "zext":
            if d.x == "i1":
                return 0, 1
            r = self.rng(f, o[0], b, depth + 1)
            w = width(d.x) if isinstance(d.x, str) else 32
            return r if r[0] >= 0 else (0, (1 << w) - 1)
        if d.op in ("sext", "freeze"):
            return self.rng(f, o[0], b, depth + 1)
        if d.op == "trunc":
            r = self.rng(f, o[0], b, depth + 1)
            return r if r[0] >= T[0] and r[1] <= T[1] else T
        if d.op == "and":
            c = [const_int(x) for x in o]
            for k in c:
                if k is not None and k >= 0:
                    return 0, k
            q = [R(x) for x in o]
            pos = [x[1] for x in q if x[0] >= 0]
            return (0, min(pos)) if pos else T
        if d.op == "urem" or d.op == "srem":
            q = R(o[1])
            a = R(o[0])
            if q[0] > 0:
                return (0 if a[0] >= 0 or d.op == "urem" else -(q[1] - 1)), q[1] - 1
            return T
        if d.op in ("lshr", "udiv", "ashr", "sdiv"):
            a, k = R(o[0]), const_int(o[1])
            if k is not None and a[0] >= 0:
                n = (1 << k) if d.op.endswith("shr") else k
                return (a[0] // n, a[1] // n) if n > 0 else T
            if d.op == "lshr" and k:
                return 0, (1 << (width(d.ty) - k)) - 1
            return T
        if d.op in ("add", "sub"):
            x, y = self.rng(f, o[0], b, depth + 1), self.rng(f, o[1], b, depth + 1)
            r = (x[0] + y[0], x[1] + y[1]) if d.op == "add" else (x[0] - y[1], x[1] - y[0])
            return r if r[0] >= T[0] and r[1] <= T[1] else T
        if d.op in ("mul", "shl"):
            x, k = self.rng(f, o[0], b, depth + 1), const_int(o[1])
            if k is not None and k >= 0:
                k = k if d.op == "mul" else 1 << k
                r = (x[0] * k, x[1] * k)
                return r if r[0] >= T[0] and r[1] <= T[1] else T
            return T
        if d.op == "or":
            x, y = R(o[0]), R(o[1])
            if x[0] >= 0 and y[0] >= 0:
                return 0, (1 << max(x[1].bit_length(), y[1].bit_length())) - 1
            return T
        if d.op == "select":
            out = None
            for k, (x, t) in enumerate(((o[1], True), (o[2], False))):
                r = self.rng(f, x, d.block, depth + 1)
                for fact in an.facts(f, o[0], t):
                    r = self.narrow(f, {x, self.rep(f, x)}, fact, r, d.block, depth + 2)
                out = r if out is None else join(out, r)
            return out
        if d.op == "phi":
            out = None
            for x, lab in o:
                p = f.blocks[lab]
                if x == v:
                    continue
                r = self.rng(f, x, p, depth + 1)
                for fact in an.edge_facts(p, d.block):
                    r = self.narrow(f, {x, self.rep(f, x)}, fact, r, p, depth + 2)
                r = self.sumfacts(f, x, p, d.block, r, depth)
                out = r if out is None else join(out, r)
            lo = self.nonneg(f, v)
            out = out or T
            return (max(out[0], lo), out[1]) if lo is not None else out
        if d.op == "load":
            return self.load(f, d, b, depth, T)
        if d.op == "call":
            g = [self.P.functions[t] for t in self.P.targets(d) if t in self.P.functions]
            if len(g) == 1 and len(self.P.targets(d)) == 1 and depth < 8:
                rs = [x.term for x in g[0].order if x.term.op == "ret" and x.term.ops]
                out = None
                for t in rs:
                    r = self.rng(g[0], t.ops[0], t.block, depth + 2)
                    out = r if out is None else join(out, r)
                return meet(T, out) if out else T
            if d.x["callee"] in ("strlen", "handlebars_map_count", "handlebars_stack_count"):
                return 0, T[1]
            if d.x["callee"] in ("fread", "strnlen"):
                # at most the number asked for
                q = self.rng(f, d.ops[2 if d.x["callee"] == "fread" else 1], d.block, depth + 1)
                return meet(T, (0, q[1]))
        return T

    def sumfacts(self, f, x, p, succ, r, depth):
        """x = y + k where a fact bounds y on this edge"""
        d = f.defs.get(x)
        if d is not None and d.op in ("add", "sub") and const_int(d.ops[1]) is not None:
            k = const_int(d.ops[1]) * (1 if d.op == "add" else -1)
            q = self.rng(f, d.ops[0], d.block, depth + 1)
            r = meet(r, (q[0] + k, q[1] + k))
        return r

    def nonneg(self, f, v):
        for e, k in linear.nonneg_atoms(f, [v]):
            return -k
        return None

    def param(self, f, v, depth):
        T = (-INF, INF)
        k = next((n for n, p in enumerate(f.params) if p[1] == v), None)
        if k is None:
            return T
        e = self.enum_param(f, k)
        if e:
            T = (max(0, e[0]), e[1]) if e[1] > 0 else e
        if not f.internal or f.uname in self.P.addr_taken or depth > 6:
            return T
        cs = self.callers.get(f.uname, [])
        out = None
        for g, i in cs:
            if k >= len(i.ops):
                return T
            r = self.rng(g, i.ops[k], i.block, depth + 2)
            out = r if out is None else join(out, r)
        return meet(T, out) if out else T

    def enum_param(self, f, k):
        M = f.mod
        _, ps = an.fn_sig(M, f)
        off = len(f.params) - len(ps)
        if off in (0, 1) and 0 <= k - off < len(ps) and ps[k - off]:
            return self.enum_of(M, ps[k - off])
        return None

    def enum_of(self, M, ty):
        for _ in range(5):
            t = M.md.get(ty, "") if ty else ""
            if "DW_TAG_enumeration_type" in t:
                e = M.enums.get(M.mdfield(ty, "name"))
                return (min(e.values()), max(e.values())) if e else None
            if "DW_TAG_typedef" in t or "DW_TAG_const_type" in t:
                ty = M.mdfield(ty, "baseType")
                continue
            return None
        return None

    def load(self, f, d, b, depth, T):
        r = self.rep(f, d.res)
        if r != d.res and depth < 10:
            return meet(T, self.rng(f, r, b, depth + 1))
        p = path(f, d.ops[0])
        if p.base.startswith("@"):
            g = f.mod.globals.get(p.base[1:])
            if g and "constant" in g[0] and g[2]:
                vs = consts(g[1], g[2])
                if vs:
                    return meet(T, (min(vs), max(vs)))
        pl = member(f, d.ops[0])
        if pl and depth < 10:
            return meet(T, self.field(pl[0], pl[1], depth))
        return T

    # --- invariants of members
    def stores(self, s, fld):
        if self._stores is None:
            self._stores = {}
            for f in self.P.functions.values():
                for i in f.insts():
                    if i.op == "store":
                        pl = member(f, i.ops[1])
                        if pl:
                            self._stores.setdefault(pl[:2], []).append((f, i))
        return self._stores.get((s, fld), [])

    def cap(self, s):
        """length of the one fixed array in a struct"""
        for M in self.P.mods.values():
            for t in ("%struct." + s, '%"struct.' + s + '"'):
                if M.types.get(t):
                    ns = [int(m[1]) for m in (re.match(r"\[(\d+) x ", x) for x in M.types[t]) if m and int(m[1]) > 8]
                    return ns[0] if len(ns) == 1 else None
        return None

    def field(self, s, fld, depth=0):
        if (s, fld) in self._fields:
            return self._fields[s, fld]
        self._fields[s, fld] = (-INF, INF)
        busy, self._busy = self._busy, set()
        try:
            return self._field(s, fld)
        finally:
            self._busy = busy

    def _field(self, s, fld):
        # constant tables
        vs = []
        for M in self.P.mods.values():
            for g, (fl, t, init) in M.globals.items():
                if init and "struct." + s in t:
                    vs += table(M, t, init, s, fld)
        st = self.stores(s, fld)
        e = self.enum_field(s, fld)
        if vs and not st and not any(v is None for v in vs):
            r = min(vs), max(vs)
        elif e:
            # "none of them" is not among what is stored
            r = e
            if e[0] < 0 and st:
                self._fields[s, fld] = (0, e[1])
                self._memo.clear()
                if all(0 <= self.rng(f, i.ops[0], i.block)[0] for f, i in st):
                    r = (0, e[1])
                self._memo.clear()
        else:
            r = -INF, INF
            n = self.cap(s)
            if n and st:
                cand = (0, n)
                self._fields[s, fld] = cand
                self._memo.clear()
                if all(self.preserves(f, i, cand) for f, i in st):
                    r = cand
                self._memo.clear()
        self._fields[s, fld] = r
        return r

    def enum_field(self, s, fld):
        for M in self.P.mods.values():
            for mem in M.struct_fields.get(s, []):
                if mem[0] == fld:
                    return self.enum_of(M, mem[2])
        return None

    def preserves(self, f, i, cand):
        r = self.rng(f, i.ops[0], i.block)
        if r[0] >= cand[0] and r[1] <= cand[1]:
            return True
        return r[1] <= cand[1] and self.undoes(f, i)

    def undoes(self, f, s):
        """a decrement, of a member that is never decremented more often than it was incremented before"""
        pl = member(f, s.ops[1])
        return self.step(f, s, pl) == -1 and self.balanced(pl)

    def step(self, f, s, pl):
        d = f.defs.get(s.ops[0])
        if d is None or d.op not in ("add", "sub") or const_int(d.ops[1]) is None:
            return 0 if const_int(s.ops[0]) == 0 else None
        q = f.defs.get(an.strip(f, d.ops[0]))
        if q is None or q.op != "load" or member(f, q.ops[0]) != pl:
            return None
        return const_int(d.ops[1]) * (1 if d.op == "add" else -1)

    def balanced(self, pl):
        """no function takes away more than it, or those it is called by, have added"""
        key = ("bal", pl)
        if key in self._fields:
            return self._fields[key]
        touch = {f.uname for f, i in self.stores(*pl)}
        touch = self.P.callers_closure(touch)
        net = {u: 0 for u in touch}
        need = {u: 0 for u in touch}
        for _ in range(8):
            ch = False
            for u in touch:
                f = self.P.functions.get(u)
                if f is None:
                    continue
                r = self.deltas(f, pl, net, need)
                if r is None:
                    self._fields[key] = False
                    return False
                if (net[u], need[u]) != r:
                    net[u], need[u] = r
                    ch = True
            if not ch:
                break
        else:
            self._fields[key] = False
            return False
        ok = all(need[u] == 0 for u in touch if u in self.P.functions and
                 (not self.P.functions[u].internal or u in self.P.addr_taken or not self.callers.get(u)))
        self._fields[key] = ok
        return ok

    def deltas(self, f, pl, net, need):
        """(least change when the function returns, deepest point below its start)"""
        at = {f.order[0]: 0}
        work = [f.order[0]]
        low, out, n = 0, None, 0
        while work:
            b = work.pop()
            n += 1
            if n > 4000:
                return None
            k = at[b]
            for i in b.insts:
                if i.op == "store" and member(f, i.ops[1]) == pl:
                    z = self.step(f, i, pl)
                    if z is None:
                        return None
                    k = k + z if const_int(i.ops[0]) is None else max(k, 0)
                elif i.op == "call":
                    ts = [t for t in self.P.targets(i) if t in net]
                    if ts:
                        low = min(low, k - max(need[t] for t in ts))
                        k += min(net[t] for t in ts)
                low = min(low, k)
            if low < -50:
                return None
            if b.term.op == "ret":
                out = k if out is None else min(out, k)
            for s in b.succs:
                if s not in at or k < at[s]:
                    at[s] = k
                    work.append(s)
        return min(out or 0, 0) if f.uname in self._recursive() else (out or 0), -low

    def _recursive(self):
        if not hasattr(self, "_rec"):
            self._rec = {u for u in self.P.functions if any(u in self.P.reachable([t]) for t in self.P.cg[u])}
        return self._rec

    # --- proofs
    def within(self, f, v, lo, hi, b):
        """lo <= v <= hi where v is used in block b"""
        r = self.rng(f, v, b)
        okl, okh = r[0] >= lo, r[1] <= hi
        if okl and okh:
            return True, r
        return self.prove(f, linear.lin(f, v), lo, hi, b, okl, okh), r

    def within_sum(self, f, terms, hi, b):
        e = ({}, 0)
        for v, k in terms:
            q = linear.lin(f, v)
            e = linear.comb(e, q, k)
        return self.prove(f, e, 0, hi, b, True, False)

    def prove(self, f, e, lo, hi, b, okl=False, okh=False):
        fs = []
        for x in an.dom_facts(b):
            if isinstance(x[2], str) and not any(boolean(f, y) for y in x[1:3]):
                fs.append(x)
        e = self.canon(f, e)
        cons = [(self.canon(f, c)) for c in linear.constraints(f, fs)]
        atoms = set(e[0])
        for c in cons:
            atoms |= set(c[0])
        for a in atoms:
            if boolean(f, a):
                continue
            if a in f.defs or any(a == p[1] for p in f.params):
                q = self.rng(f, a, b)
                if q[0] > -INF:
                    cons.append(({a: 1}, -q[0]))
                if q[1] < INF:
                    cons.append(({a: -1}, q[1]))
        okl = okl or linear.prove(f, (e[0], e[1] - lo), [], cons)
        okh = okh or linear.prove(f, ({x: -k for x, k in e[0].items()}, hi - e[1]), [], cons)
        return okl and okh

    def canon(self, f, e):
        out = {}
        for a, k in e[0].items():
            x = a
            if a.startswith("mem@") or a.startswith("count("):
                x = a
            else:
                x = self.rep(f, a)
            if const_int(x) is not None:
                e = (e[0], e[1] + k * const_int(x))
                continue
            q = linear.lin(f, x) if x != a else ({x: 1}, 0)
            for y, z in q[0].items():
                out[y] = out.get(y, 0) + k * z
            e = (e[0], e[1] + k * q[1])
        return {x: k for x, k in out.items() if k}, e[1]


SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def boolean(f, v):
    d = f.defs.get(v) if isinstance(v, str) else None
    return v in ("true", "false") or d is not None and (d.ty == "i1" or d.op in ("icmp", "fcmp"))


def member(f, ptr):
    """(struct, member) an address lies in"""
    pl = place(f, ptr)
    if pl:
        return pl[:2]
    p = path(f, ptr)
    s = an.pointee(f, p.base)
    mem = f.mod.struct_fields.get(s) if s else None
    if mem:
        z = an.struct_size(f.mod, s)
        o = p.off % z if z else p.off
        for m in mem:
            if m[1] <= o * 8 < m[1] + max(m[3], 8):
                return s, m[0]
    return None


def consts(t, init):
    """all integers in a constant"""
    if init.startswith('c"'):
        out, k = [], 2
        while k < len(init) - 1:
            if init[k] == "\\":
                out.append(int(init[k + 1:k + 3], 16))
                k += 3
            else:
                out.append(ord(init[k]))
                k += 1
        return [x - 256 if x > 127 else x for x in out]
    if init == "zeroinitializer":
        return [0]
    if init and init[0] in "[{<":
        out = []
        for et, ev in an.parse_aggregate(init):
            out += consts(et, ev) or []
        return out
    c = const_int(init)
    return [c] if c is not None else []


def table(M, t, init, s, fld):
    out = []
    if init == "zeroinitializer":
        return [0] if "struct." + s in t else []
    if not init or init[0] not in "[{<":
        return []
    for k, (et, ev) in enumerate(an.parse_aggregate(init)):
        if re.match(r'%"?struct\.' + re.escape(s) + r'(\.\d+)?"?$', t):
            if M.field(t, k) == fld:
                out.append(const_int(ev) if ev != "zeroinitializer" else 0)
        elif ev and (ev[0] in "[{<" or ev == "zeroinitializer"):
            out += table(M, et, ev, s, fld)
    return out
