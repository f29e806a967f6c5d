"""Path-sensitive forward dataflow over one function (property simulation).

A state is (t, env): t is the rule's own finite abstract state (any hashable), env a set of facts about values that
later branches test ('0', an integer, 'null', 'nn' = not null / not zero).  At each branch contradicting edges are
pruned and the facts of the taken edge are added, so correlated tests (a flag set on the error path and tested at the
common exit, say) are followed.  Facts are kept only while a later branch may depend on them.
"""
from . import an
from .an import const_int, path, facts

CAP = 160


def norm(v):
    c = const_int(v)
    return c if v != "null" else 0


class Flow:
    """run(): propagate; self.at[inst] (if watch) and self.exits: list of (ret inst, t, env)

    transfer(inst, t, env) -> t, or an iterable of t (list) ; may also return None to drop the path
    edge(block, succ, t, env) -> t or None
    """

    def __init__(self, fn, init, transfer, edge=None, cap=CAP, extra=(), keep=(), start=None, env0=()):
        self.start, self.env0 = start, dict(env0)
        self.fn, self.transfer, self.edgef, self.cap = fn, transfer, edge, cap
        self.extra, self.keep = tuple(extra), set(keep)
        self.init = init
        self.seen = {}
        self.exits = []
        self.widened = False
        self._relevant()

    # -- which values matter for later branches ------------------------------------------------
    def _relevant(self):
        fn = self.fn
        ck = fn.__dict__.setdefault("_flow_rel", {})
        key = (self.extra, frozenset(self.keep))
        if key in ck:
            self.rel, self.cells, self.live, self.esc = ck[key]
            return
        rel, cells, work = set(), set(), list(self.extra) + [k for k in self.keep if isinstance(k, str)]
        for b in fn.order:
            t = b.term
            if t.op in ("br", "switch") and t.ops:
                work.append(t.ops[0])
        # a comparison tested by the flow is relevant, and so is everything it is computed from
        while work:
            v = work.pop()
            if not isinstance(v, str):
                continue
            if v.startswith("mem:"):
                continue
            d = fn.defs.get(v)
            if v in rel or (d is None and not any(v == p[1] for p in fn.params)):
                continue
            rel.add(v)
            if d is None:
                continue
            if d.op in ("icmp", "and", "or", "xor", "zext", "sext", "trunc", "freeze"):
                work += d.ops
            elif d.op == "phi":
                work += [o for o, _ in d.ops]
            elif d.op == "select":
                work += d.ops
            elif d.op == "load":
                p = path(fn, d.ops[0])
                b = fn.defs.get(p.base)
                if b is not None and b.op == "alloca" and not p.sym:
                    c = (p.base, p.off)
                    if c not in cells:
                        cells.add(c)
                        for i in fn.insts():
                            if i.op == "store":
                                q = path(fn, i.ops[1])
                                if (q.base, q.off) == c:
                                    work.append(i.ops[0])
        esc = set()
        for i in fn.insts():
            if i.op == "call":
                for a in i.ops:
                    p = path(fn, a)
                    d = fn.defs.get(p.base)
                    if d is not None and d.op == "alloca" and not i.x["callee"].startswith(("@llvm.", "llvm.")):
                        esc.add(p.base)
            elif i.op == "store":
                p = path(fn, i.ops[0])
                d = fn.defs.get(p.base)
                if d is not None and d.op == "alloca":
                    esc.add(p.base)
        # liveness of relevant values (block level)
        use, dfn = {}, {}
        for b in fn.order:
            u, k = set(), set()
            for i in b.insts:
                if i.op == "phi":
                    continue
                if i.op in ("icmp", "and", "or", "xor", "zext", "sext", "trunc", "freeze", "select", "br", "switch"):
                    if i.res is None or i.res in rel:
                        u |= {o for o in i.ops if isinstance(o, str) and o in rel and o not in k}
                elif i.op == "call" and self.extra:
                    u |= {o for o in i.ops if isinstance(o, str) and o in rel and o not in k}
                elif i.op == "store":
                    p = path(fn, i.ops[1])
                    if (p.base, p.off) in cells and i.ops[0] in rel and i.ops[0] not in k:
                        u.add(i.ops[0])
                elif i.op == "load":
                    p = path(fn, i.ops[0])
                    if (p.base, p.off) in cells and not p.sym:
                        u.add((p.base, p.off))
                if i.res:
                    k.add(i.res)
            use[b], dfn[b] = u, k
        live = {b: set(use[b]) for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                n = set(use[b])
                for s in b.succs:
                    n |= live[s] - dfn[b]
                    for i in s.insts:
                        if i.op != "phi":
                            break
                        if i.res in rel:
                            n |= {v for v, lab in i.ops if lab == b.name and isinstance(v, str) and v in rel and v not in dfn[b]}
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.rel, self.cells, self.live, self.esc = ck[key] = (rel, cells, live, esc)

    # -- values --------------------------------------------------------------------------------
    def val(self, v, env):
        """known value: int, 'nn' or None"""
        c = norm(v)
        if c is not None:
            return c
        if not isinstance(v, str):
            return None
        if v in env:
            return env[v]
        if v.startswith("@") or v.startswith("getelementptr"):
            return "nn"
        d = self.fn.defs.get(v)
        if d is None:
            return None
        if d.op == "alloca":
            return "nn"
        if d.op in ("zext", "sext", "freeze", "trunc", "bitcast"):
            x = self.val(d.ops[0], env)
            if d.op == "trunc" and x == "nn":
                return None
            if d.op == "sext" and x == 1 and d.x == "i1":
                return -1
            return x
        if d.op == "icmp":
            return self.cmp(d.x, self.val(d.ops[0], env), self.val(d.ops[1], env))
        if d.op in ("and", "or", "xor") and d.ty == "i1":
            a, b = self.val(d.ops[0], env), self.val(d.ops[1], env)
            a, b = (abs(x) if isinstance(x, int) else x for x in (a, b))
            if d.op == "and":
                if a == 0 or b == 0:
                    return 0
                return 1 if a == 1 and b == 1 else None
            if d.op == "or":
                if a == 1 or b == 1:
                    return 1
                return 0 if a == 0 and b == 0 else None
            if a in (0, 1) and b in (0, 1):
                return a ^ b
            return None
        if d.op in ("and", "or", "xor"):
            a, b = self.val(d.ops[0], env), self.val(d.ops[1], env)
            if isinstance(a, int) and isinstance(b, int):
                return a & b if d.op == "and" else a | b if d.op == "or" else a ^ b
            if d.op == "and" and 0 in (a, b):
                return 0
            if d.op == "or" and any(x == "nn" or isinstance(x, int) and x for x in (a, b)):
                return "nn"
            return None
        if d.op == "select":
            c = self.val(d.ops[0], env)
            if c is not None:
                return self.val(d.ops[1 if c else 2], env)
            a, b = self.val(d.ops[1], env), self.val(d.ops[2], env)
            return a if a == b else None
        return None

    @staticmethod
    def cmp(pred, a, b):
        if a == "nn" and b == 0 or a == 0 and b == "nn":
            return {"eq": 0, "ne": 1}.get(pred)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "u":
                a &= (1 << 64) - 1
                b &= (1 << 64) - 1
            return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b,
                        "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred])
        return None

    def assume(self, cond, truth, env, depth=0):
        """env extended with what cond == truth implies, None if contradictory"""
        env = dict(env)
        for f in facts(self.fn, cond, truth):
            if f[0] in ("eq", "ne") and isinstance(f[2], str):
                al = env.get(("=", an.strip(self.fn, f[1])))
                if al is not None and depth < 6:
                    c = norm(f[2])
                    d = self.fn.defs.get(al)
                    if d is not None and d.ty == "i1" and c in (0, 1) or d is not None and d.op == "icmp":
                        env = self.assume(al, (c != 0) == (f[0] == "eq"), env, depth + 1)
                        if env is None:
                            return None
                    elif c is not None:
                        x = self.val(al, env)
                        if self.cmp(f[0], x, c) == 0:
                            return None
                        if x is None and (f[0] == "eq" or c == 0) or x == "nn" and f[0] == "eq":
                            env[al] = c if f[0] == "eq" else "nn"
                            z = an.strip(self.fn, al)
                            if z != al and self.val(z, env) is None and (c == 0 or f[0] == "eq"):
                                env[z] = env[al]
                            dz = self.fn.defs.get(z)
                            if dz is not None and (dz.ty == "i1" or dz.op == "icmp") and (c == 0 or c == 1 and f[0] == "eq"):
                                env = self.assume(z, (c == 1) == (f[0] == "eq"), env, depth + 1)
                                if env is None:
                                    return None
        for f in facts(self.fn, cond, truth):
            pr, a, b = f[:3]
            if pr not in ("eq", "ne"):
                v = self.cmp(pr, self.val(a, env), self.val(b, env)) if isinstance(b, str) else None
                if v == 0:
                    return None
                continue
            va, vb = self.val(a, env), self.val(b, env)
            r = self.cmp(pr, va, vb)
            if r == 0:
                return None
            for x, y in ((a, vb), (b, va)):
                if norm(x) is None and isinstance(x, str):
                    if pr == "eq" and y is not None:
                        if y != "nn" or x not in env:
                            env[x] = y
                    elif pr == "ne" and y == 0 and env.get(x) is None:
                        env[x] = "nn"
        # second pass: a contradiction found late
        for f in facts(self.fn, cond, truth):
            pr, a, b = f[:3]
            if pr in ("eq", "ne") and self.cmp(pr, self.val(a, env), self.val(b, env)) == 0:
                return None
        return env

    def assume_all(self, cond, truth, env, depth=0):
        """as assume, following both arms of selects the condition depends on"""
        v = cond
        for _ in range(12):
            d = self.fn.defs.get(v)
            if d is None:
                break
            if d.op == "select":
                c = self.val(d.ops[0], env)
                arms = [(1, True), (2, False)] if c is None else [(1, True)] if c else [(2, False)]
                out = []
                for k, tr in arms:
                    e = env if c is not None else self.assume(d.ops[0], tr, env)
                    if e is None:
                        continue
                    e = dict(e)
                    x = self.val(d.ops[k], e)
                    e.pop(d.res, None)
                    if x is not None:
                        e[d.res] = x
                    else:
                        e[("=", d.res)] = d.ops[k]
                    if depth < 3:
                        if x is None:
                            # the chosen operand decides
                            out += [q for q in ([self.assume(cond, truth, e)]) if q is not None]
                        else:
                            q = self.assume(cond, truth, e)
                            if q is not None:
                                out.append(q)
                for q in out:
                    q.pop(("=", d.res), None)
                return out
            if d.op in ("zext", "sext", "trunc", "freeze"):
                v = d.ops[0]
            elif d.op == "icmp" and norm(d.ops[1]) is not None:
                v = d.ops[0]
            elif d.op == "xor" and norm(d.ops[1]) in (1, -1):
                v = d.ops[0]
            else:
                break
        e = self.assume(cond, truth, env)
        return [] if e is None else [e]

    def split(self, v, env):
        """[(known value or None, env)] with selects resolved both ways"""
        x = self.val(v, env)
        d = self.fn.defs.get(an.strip(self.fn, v)) if isinstance(v, str) else None
        if x is None and d is not None and d.op == "select":
            out = []
            for k, tr in ((1, True), (2, False)):
                for e in self.assume_all(d.ops[0], tr, env):
                    out += self.split(d.ops[k], e)
            return out
        return [(x, env)]

    # -- propagation ---------------------------------------------------------------------------
    def trim(self, b, env, phis=()):
        lv = self.live[b]
        return {k: v for k, v in env.items() if v is not None and
                (k in lv or k in phis or k in self.keep or
                 isinstance(k, tuple) and k[0] == "=" and (k[1] in lv or k[1] in phis or k[1] in self.keep))}

    def run(self):
        fn = self.fn
        inits = self.init if isinstance(self.init, list) else [self.init]
        work = []
        for t in inits:
            work.append((self.start or fn.entry, t, dict(self.env0)))
        n = 0
        while work:
            b, t, env = work.pop()
            key = (t, frozenset(env.items()))
            s = self.seen.setdefault(b, {})
            known = s.setdefault(t, set())
            if key[1] in known:
                continue
            if frozenset() in known:
                continue
            if len(known) >= self.cap:
                self.widened = True
                env = {}
                key = (t, frozenset())
                if key[1] in known:
                    continue
            known.add(key[1])
            n += 1
            if n > 400000:
                raise an.AnalysisError("flow explosion in " + fn.name)
            for t2, env2 in self.block(b, t, dict(env)):
                self.succ(b, t2, env2, work)
        return self

    def block(self, b, t, env):
        states = [(t, env)]
        for i in b.insts:
            if i.op == "phi":
                continue
            out = []
            for t, env in states:
                if i.res:
                    env.pop(i.res, None)
                    for q in [q for q in env if isinstance(q, tuple) and q[0] == "=" and env[q] == i.res]:
                        env.pop(q)
                r = self.transfer(i, t, env)
                if r is None:
                    continue
                for t2 in (r if isinstance(r, list) else [r]):
                    if isinstance(t2, tuple) and len(t2) == 3 and t2[0] == "@env":
                        out.append((t2[1], dict(env), t2[2]))
                    else:
                        out.append((t2, dict(env) if len(states) > 1 or isinstance(r, list) else env, None))
            for t, env, upd in out:
                self.mem(i, env)
                if upd:
                    env.update(upd)
            states = [(t, env) for t, env, _ in out]
            if not states:
                return []
        for t, env in states:
            if b.term.op == "ret":
                self.exits.append((b.term, t, env))
        return states

    def mem(self, i, env):
        if i.op == "store":
            p = path(self.fn, i.ops[1])
            if (p.base, p.off) in self.cells:
                v = self.val(i.ops[0], env)
                if v is None or p.sym:
                    env.pop((p.base, p.off), None)
                else:
                    env[(p.base, p.off)] = v
        elif i.op == "load":
            p = path(self.fn, i.ops[0])
            if i.res in self.rel:
                v = env.get((p.base, p.off))
                if v is not None and not p.sym:
                    env[i.res] = v
        elif i.op == "call":
            for a in i.ops:
                p = path(self.fn, a)
                if p.base in self.esc:
                    for k in [k for k in env if isinstance(k, tuple) and k[0] == p.base]:
                        env.pop(k)

    def succ(self, b, t, env, work):
        tm = b.term
        for s in b.succs:
            if tm.op == "br" and len(tm.x) == 2 and tm.x[0] != tm.x[1]:
                for e in self.assume_all(tm.ops[0], tm.x[0] == s.name, env):
                    self.enter(b, s, t, e, work)
                continue
            if tm.op == "switch":
                for e in self.cases(tm, s, env):
                    self.enter(b, s, t, e, work)
                continue
            e = env
            self.enter(b, s, t, e, work)

    def cases(self, tm, s, env):
        """environments in which a switch goes to s"""
        op = tm.ops[0]
        v = self.val(op, env)
        allc = [int(c) for c, _ in tm.x["cases"]]
        al = env.get(("=", an.strip(self.fn, op))) if isinstance(op, str) else None
        mine = [int(c) for c, l in tm.x["cases"] if l == s.name]
        out = []
        if al is None and len(mine) > 1 and v is None:
            out.append(env)
        else:
            for c in mine:
                if self.cmp("eq", v, c) == 0:
                    continue
                e = dict(env)
                if isinstance(op, str):
                    e[op] = c
                if al is not None and self.cmp("eq", self.val(al, env), c) != 0:
                    e[al] = c
                out.append(e)
        if tm.x["default"] == s.name and not (isinstance(v, int) and v in allc):
            e = dict(env)
            if v is None and 0 in allc and isinstance(op, str):
                e[op] = "nn"
                if al is not None and self.val(al, env) is None:
                    e[al] = "nn"
            out.append(e)
        return out

    def enter(self, b, s, t, e, work):
        e = dict(e)
        new = {}
        phis = set()
        for i in s.insts:
            if i.op != "phi":
                break
            if i.res in self.rel:
                phis.add(i.res)
                for v, lab in i.ops:
                    if lab == b.name:
                        new[i.res] = self.val(v, e)
                        if (new[i.res] is None or new[i.res] == "nn" and i.res in self.keep) and isinstance(v, str) and v.startswith("%"):
                            new[("=", i.res)] = v if v not in phis else None
                        elif isinstance(v, str) and v.startswith("@") and i.res in self.keep:
                            new[("=", i.res)] = v
        for k in phis:
            e.pop(k, None)
            e.pop(("=", k), None)
            for q in [q for q in e if isinstance(q, tuple) and q[0] == "=" and e[q] == k]:
                e.pop(q)
        e.update({k: v for k, v in new.items() if v is not None})
        t2 = t
        if self.edgef:
            t2 = self.edgef(b, s, t, e)
            if t2 is None:
                return
        work.append((s, t2, self.trim(s, e, phis)))
