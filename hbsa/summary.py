"""Effects of a group of functions with their loops and guards, expanded through calls, in names independent of local variables.

An event is (instruction, frames, data): frames is the call path as instructions.  Names of places: a pointer to a structure given in
`tokens` is the token, members are token+offset, memory read is *(place), an element chosen by a loop is place[i].
"""
from . import an, loops
from .an import const_int, path


class Loop(Exception):
    pass


class Summary:
    def __init__(self, P, tokens, expand):
        self._ret = {}
        self.P, self.tokens, self.expand = P, tokens, expand

    # --- names
    def token(self, f, v):
        s = an.pointee(f, v) if isinstance(v, str) else None
        return self.tokens.get(s)

    def place(self, f, v, env, depth=0):
        p = path(f, v)
        b, off = p.base, p.off
        sym = []
        for x, z in p.sym:
            sym.append((x, z))
        t = self.token(f, b)
        if t is None:
            t = env.get(b)
            if t is None:
                d = f.defs.get(b)
                if d is not None and d.op == "load" and depth < 12:
                    t = "*(%s)" % self.place(f, d.ops[0], env, depth + 1)
                elif d is not None and d.op == "phi":
                    z = self.walker(f, d)
                    if z is not None and depth < 12:
                        return self.place(f, z, env, depth + 1) + "[i]" + ("+%d" % off if off else "")
                    t = "%s:%s" % (f.name, b)
                elif d is not None and d.op == "call":
                    t = "%s()" % d.x["callee"]
                else:
                    t = b if b.startswith("@") else "%s:%s" % (f.name, b)
            if "+" in t and off and not sym and t.rsplit("+", 1)[1].isdigit():
                h, o = t.rsplit("+", 1)
                t, off = h, off + int(o)
        else:
            # an element of an array of these is another of these
            z = an.struct_size(f.mod, an.pointee(f, b))
            sym = [(x, k) for x, k in sym if not z or k % z]
        r = t
        for x, z in sym:
            r += "[i]" if loops.header_phi(f, x) else "[%s]" % self.expr(f, x, env)
        return r + ("+%d" % off if off else "")

    def walker(self, f, phi):
        """start of a pointer stepping through an array"""
        start = None
        for o, l in phi.ops:
            q = f.defs.get(o)
            if q is not None and q.op == "gep" and q.ops[0] == phi.res:
                continue
            if start is not None and start != o:
                return None
            start = o
        return start

    def lin(self, f, v, env, depth=0):
        c = const_int(v)
        if c is not None:
            return {}, c
        d = f.defs.get(v) if isinstance(v, str) else None
        if d is not None and depth < 20:
            if d.op in ("zext", "sext", "trunc", "freeze"):
                return self.lin(f, d.ops[0], env, depth + 1)
            if d.op in ("add", "sub"):
                a, b = (self.lin(f, o, env, depth + 1) for o in d.ops)
                k = 1 if d.op == "add" else -1
                r = dict(a[0])
                for x, y in b[0].items():
                    r[x] = r.get(x, 0) + k * y
                return {x: y for x, y in r.items() if y}, a[1] + k * b[1]
            if d.op in ("mul", "shl"):
                for x, y in (d.ops, d.ops[::-1]):
                    k = const_int(y)
                    if k is not None and (d.op == "mul" or y == d.ops[1]):
                        k = k if d.op == "mul" else 1 << k
                        a = self.lin(f, x, env, depth + 1)
                        return {p: q * k for p, q in a[0].items()}, a[1] * k
        if isinstance(v, str) and isinstance(env.get(v), tuple):
            return dict(env[v][0]), env[v][1]
        return {self.atom(f, v, env, depth): 1}, 0

    def atom(self, f, v, env, depth=0):
        if isinstance(v, str) and isinstance(env.get(v), str):
            return env[v]
        d = f.defs.get(v) if isinstance(v, str) else None
        t = self.token(f, v)
        if t:
            return t
        if d is None or depth > 20:
            return str(v) if d is None and str(v).startswith("@") else "%s:%s" % (f.name, v)
        if d.op == "load":
            return "*(%s)" % self.place(f, d.ops[0], env, depth + 1)
        if d.op == "call":
            return "%s(%s)" % (d.x["callee"].split("@")[0], ",".join(self.expr(f, o, env, depth + 1) for o in d.ops))
        if d.op == "gep":
            return self.place(f, v, env, depth + 1)
        if d.op == "phi":
            if loops.header_phi(f, v):
                return "i"
            return "phi(%s)" % ",".join(sorted({self.expr(f, o, env, depth + 4) for o, _ in d.ops}))
        return "%s %s(%s)" % (d.op, d.x if d.op == "icmp" else "", ",".join(self.expr(f, o, env, depth + 1) for o in d.ops if isinstance(o, str)))

    def expr(self, f, v, env, depth=0):
        a, c = self.lin(f, v, env, depth)
        return show(a, c)

    # --- context
    def guards(self, f, b, env):
        """facts about memory that hold in block b, leaving out the conditions of loops"""
        out, n = [], 0
        idom = an.dominators(f)
        while b in idom and n < 400:
            n += 1
            ps = [p for p in b.preds if not an.dominates(f, b, p)]
            if len(ps) == 1 and any(self.returns(f, s) for s in ps[0].succs if s is not b):
                for fact in an.edge_facts(ps[0], b):
                    pr, a, c = fact[:3]
                    if self.steps(f, a) or self.steps(f, c):
                        continue
                    if not isinstance(a, str) or f.defs.get(a) is not None and f.defs[a].op == "icmp" or f.defs.get(a) is None and a not in env:
                        continue
                    x = self.expr(f, a, env)
                    y = ",".join(sorted(map(str, c))) if isinstance(c, tuple) else self.expr(f, c, env) if isinstance(c, str) else str(c)
                    if "*(" in x:
                        out.append((pr, x, y))
            m = idom[b]
            if m is b:
                break
            b = m
        eq = {x for pr, x, y in out if pr == "eq"}
        return frozenset((pr, x, y) for pr, x, y in out if not (pr == "ne" and x in eq))

    def loops_of(self, f, b, env):
        out = []
        for h in f.order:
            if not an.dominates(f, h, b):
                continue
            back = [p for p in h.preds if an.dominates(f, h, p)]
            if not back:
                continue
            if not any(b is p or p in an.reach_blocks(f, b, lambda x: x is h) for p in back):
                continue
            out.append(self.bound(f, h, env))
        return tuple(out)

    def returns(self, f, b):
        """can the function go on from here, rather than throw"""
        key = (f, b)
        if key not in self._ret:
            self._ret[key] = any(x.term.op == "ret" for x in [b] + list(an.reach_blocks(f, b)))
        return self._ret[key]

    def steps(self, f, v):
        """a counter, or a pointer stepping through an array"""
        if not isinstance(v, str):
            return False
        if loops.header_phi(f, v):
            return True
        d = f.defs.get(path(f, v).base)
        return d is not None and d.op == "phi" and any(an.dominates(f, d.block, p) for p in d.block.preds) and \
            any(isinstance(o, str) and o != d.res and path(f, o).base == d.res for o, _ in d.ops)

    def bound(self, f, h, env):
        """how often the loop of a header is run"""
        cands = []
        for i in h.insts:
            if i.op != "phi":
                break
            z = loops.header_phi(f, i.res)
            if not z:
                n = self.pbound(f, h, i, env)
                if n:
                    cands.append(n)
                continue
            _, start, step, _ = z
            for pr, y, off in loops.bounds(f, i):
                s, e = self.lin(f, start, env), self.lin(f, y, env)
                if step == 1 and pr in ("ult", "slt", "ne", "ule", "sle"):
                    cands.append(diff(e, s, -off + (pr in ("ule", "sle"))))
                elif step == -1 and pr in ("ne", "ugt", "sgt", "sge", "uge"):
                    cands.append(diff(s, e, off + (pr in ("sge", "uge"))))
        cands = sorted(set(cands), key=lambda x: (len(x), x))
        if not cands:
            raise Loop("%s: loop at %s is not a plain count" % (f.name, where(f, h)))
        return cands[0]

    def pbound(self, f, h, phi, env):
        """the same for a pointer stepping through an array"""
        start = self.walker(f, phi)
        steps = {path(f, o).off for o, _ in phi.ops if o != start and path(f, o).base == phi.res}
        if start is None or len(steps) != 1:
            return None
        k = steps.pop()
        for b in [x for x in f.order if an.dominates(f, h, x) and h in an.reach_blocks(f, x)]:
            if b.term.op != "br" or len(b.term.x) != 2:
                continue
            for s in b.succs:
                if h in an.reach_blocks(f, s) and any(h not in an.reach_blocks(f, o) for o in b.succs if o is not s):
                    for pr, x, y in [q[:3] for q in an.edge_facts(b, s)]:
                        for x, y, pr in ((x, y, pr), (y, x, loops.SWAP.get(pr, pr))):
                            if not isinstance(x, str) or not isinstance(y, str) or path(f, x).base != phi.res or path(f, x).sym:
                                continue
                            if pr in ("ult", "ne") and k > 0:
                                a, c = self.ptrlin(f, y, env)
                                a0, c0 = self.ptrlin(f, start, env)
                                a = {v: a.get(v, 0) - a0.get(v, 0) for v in set(a) | set(a0)}
                                c -= c0
                                if c % k == 0 and all(v % k == 0 for v in a.values()):
                                    return show({u: v // k for u, v in a.items() if v}, c // k)
        return None

    # --- walking
    def walk(self, f, env, visit, frames=(), loops_=(), guards=frozenset(), stack=()):
        """visit(f, i, env, frames, loops, guards) for every instruction, calls to functions of the group expanded"""
        for b in f.order:
            lp = gd = None
            for i in b.insts:
                if i.op not in ("store", "call", "ret", "load"):
                    continue
                if lp is None:
                    lp = loops_ + self.loops_of(f, b, env)
                    gd = guards | self.guards(f, b, env)
                g = self.callee(f, i)
                if g is not None and g in stack + (f,):
                    visit(f, i, env, frames, lp, gd, True)
                elif g is not None:
                    visit(f, i, env, frames, lp, gd, False)
                    self.walk(g, self.bind(f, i, g, env), visit, frames + (i,), lp, gd, stack + (f,))
                else:
                    visit(f, i, env, frames, lp, gd, False)

    def ptrlin(self, f, v, env, depth=0):
        """a pointer or difference of pointers as a sum of named addresses"""
        d = f.defs.get(v) if isinstance(v, str) else None
        if const_int(v) is not None or v == "null":
            return {}, const_int(v) or 0
        if d is not None and depth < 20:
            if d.op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
                return self.ptrlin(f, d.ops[0], env, depth + 1)
            if d.op in ("add", "sub"):
                a, b = (self.ptrlin(f, o, env, depth + 1) for o in d.ops)
                k = 1 if d.op == "add" else -1
                r = dict(a[0])
                for x, y in b[0].items():
                    r[x] = r.get(x, 0) + k * y
                return {x: y for x, y in r.items() if y}, a[1] + k * b[1]
            if d.op in ("mul", "shl", "zext", "sext", "trunc"):
                return self.lin(f, v, env, depth)
            if d.op == "gep":
                p = path(f, v)
                r, c = self.ptrlin(f, p.base, env, depth + 1)
                r, c = dict(r), c + p.off
                for x, k in p.sym:
                    a = self.ptrlin(f, x, env, depth + 1)
                    for y, z in a[0].items():
                        r[y] = r.get(y, 0) + k * z
                    c += k * a[1]
                return {x: y for x, y in r.items() if y}, c
            if d.op == "load":
                return {"*(%s)" % self.place(f, d.ops[0], env): 1}, 0
        if isinstance(v, str) and isinstance(env.get(v), str):
            return {env[v]: 1}, 0
        if isinstance(v, str) and isinstance(env.get(v), tuple):
            return dict(env[v][0]), env[v][1]
        return {self.token(f, v) or "%s:%s" % (f.name, v): 1}, 0

    def callee(self, f, i):
        if i.op != "call":
            return None
        g = self.P.find(i.x["callee"], f.mod.unit)
        return g if g is not None and g in self.expand else None

    def bind(self, f, i, g, env):
        e = {}
        for (ty, p, _), o in zip(g.params, i.ops):
            t = self.token(g, p)
            if t:
                continue
            if ty == "ptr":
                e[p] = self.place(f, o, env)
            else:
                e[p] = self.lin(f, o, env)
        return e

    # --- sums: what makes up the value a function returns
    def terms(self, f, env, loops_=(), guards=frozenset(), stack=()):
        out = []
        for b in f.order:
            if b.term.op == "ret" and b.term.ops:
                self._terms(f, b.term.ops[0], b, env, loops_, guards, stack, out, set())
        return out

    def _terms(self, f, v, b, env, lp, gd, stack, out, seen):
        def ctx():
            return lp + self.loops_of(f, b, env), gd | self.guards(f, b, env)
        c = const_int(v)
        if c is not None:
            if c:
                out.append((("const", c),) + ctx())
            return
        if v in seen:
            return
        d = f.defs.get(v)
        if d is not None and d.op == "phi":
            seen.add(v)
            for o, l in d.ops:
                self._terms(f, o, f.blocks[l], env, lp, gd, stack, out, seen)
            return
        if d is not None and d.op == "add":
            seen.add(v)
            for o in d.ops:
                self._terms(f, o, d.block, env, lp, gd, stack, out, seen)
            return
        g = self.callee(f, d) if d is not None else None
        if g is not None:
            b = d.block
            l2, g2 = ctx()
            if g in stack + (f,):
                out.append((("rec", g.name), l2, g2))
            else:
                out += self.terms(g, self.bind(f, d, g, env), l2, g2, stack + (f,))
            return
        out.append((("expr", self.expr(f, v, env)),) + ctx())


def show(a, c):
    r = "+".join(("%d*" % k if k != 1 else "") + x for x, k in sorted(a.items()))
    return (r + ("+%d" % c if c else "")) if r else str(c)


def diff(a, b, k=0):
    r = dict(a[0])
    for x, y in b[0].items():
        r[x] = r.get(x, 0) - y
    return show({x: y for x, y in r.items() if y}, a[1] - b[1] + k)


def where(f, h):
    for i in h.insts + [h.term]:
        if i.op != "phi":
            return i.where()
    return h.term.where()


def before(x, y):
    """x happens before y: both call paths (tuples of instructions, the last being the instruction itself)"""
    for a, b in zip(x, y):
        if a is not b:
            return ibefore(a, b)
    return False


def ibefore(a, b):
    f = a.block.fn
    if a.block is b.block:
        return a.block.insts.index(a) < a.block.insts.index(b)
    if an.inst_dominates(a, b):
        return True
    if an.inst_dominates(b, a):
        return False
    return b.block in an.reach_blocks(f, a.block) and a.block not in an.reach_blocks(f, b.block)
