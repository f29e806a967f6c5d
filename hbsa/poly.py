"""Relational size analysis: abstract interpretation of functions over linear constraints.

A program point is described by linear inequalities over integer values, offsets of pointers into their objects, and the
current contents of the counting members (length, capacity, ...) of strings, stacks and maps, plus the size of each object.
At joins the constraints that hold on all sides are kept; at loop heads candidate relations between what changes in the
loop are assumed and dropped until those left are preserved by every way round (so they are invariants).  Calls of small
functions are entered.  Integers are read as mathematical; conversions and unsigned comparisons are only used as far as
they are shown not to wrap.
"""
import time

from . import an
from .an import const_int, cname
from .build import AnalysisError

ZERO = ({}, 0)


def add(a, b, k=1):
    r = dict(a[0])
    for x, y in b[0].items():
        r[x] = r.get(x, 0) + k * y
        if not r[x]:
            del r[x]
    return r, a[1] + k * b[1]


def scale(a, k):
    return {x: y * k for x, y in a[0].items()} if k else {}, a[1] * k


def C(n):
    return {}, n


def A(a):
    return {a: 1}, 0


def key(e):
    return tuple(sorted(e[0].items())), e[1]


def unkey(k):
    return dict(k[0]), k[1]


def subst(e, m):
    r = ({}, e[1])
    for a, k in e[0].items():
        r = add(r, m.get(a, ({a: 1}, 0)), k)
    return r


def show(e):
    s = " + ".join(("%d*%s" % (k, a) if k != 1 else a) for a, k in sorted(e[0].items()))
    return "%s%s" % (s or "", (" %+d" % e[1]) if e[1] or not s else "")


class Ptr:
    __slots__ = ("root", "off")

    def __init__(self, root, off):
        self.root, self.off = root, off


def eliminate(cons, keep, cap=400):
    """project a set of constraints on the atoms in keep; None when it grows too much, False when unsatisfiable"""
    lin = {}
    for c in cons:
        e, k = key(c) if isinstance(c[0], dict) else c
        if not e:
            if k < 0:
                return False
            continue
        g = 0
        for _, y in e:
            g = gcd(g, abs(y))
            if g == 1:
                break
        if g > 1:
            e, k = tuple([(x, y // g) for x, y in e]), k // g
        if e not in lin or k < lin[e]:
            lin[e] = k
    # equalities first
    while True:
        eq = None
        for e, k in lin.items():
            o = lin.get(tuple([(x, -y) for x, y in e]))
            if o is not None:
                if o + k < 0:
                    return False
                if o + k == 0 and (eq is None or len(e) < len(eq[0])):
                    a = next((x for x, y in e if abs(y) == 1 and x not in keep), None)
                    if a is not None:
                        eq = (e, k, a)
        if eq is None:
            break
        e, k, a = eq
        s = next(y for x, y in e if x == a)
        new = {}
        for t, c in lin.items():
            q = next((y for x, y in t if x == a), 0)
            if q:
                d = dict(t)
                for x, y in e:
                    d[x] = d.get(x, 0) - y * q * s
                c = c - k * q * s
                t = tuple(sorted([(x, y) for x, y in d.items() if y]))
                if not t:
                    if c < 0:
                        return False
                    continue
                g = 0
                for _, y in t:
                    g = gcd(g, abs(y))
                    if g == 1:
                        break
                if g > 1:
                    t = tuple([(x, y // g) for x, y in t])
                    c = c // g
            if t not in new or c < new[t]:
                new[t] = c
        lin = new
    work = {e: (k, 1 << n) for n, (e, k) in enumerate(lin.items())}
    done = 0
    while True:
        cnt = {}
        for e in work:
            for a, c in e:
                if a not in keep:
                    p, n = cnt.get(a, (0, 0))
                    cnt[a] = (p + 1, n) if c > 0 else (p, n + 1)
        if not cnt:
            return {(e, k) for e, (k, h) in work.items()}
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x))
        pos, neg, rest = [], [], {}
        for e, (k, h) in work.items():
            c = 0
            for x, y in e:
                if x == a:
                    c = y
                    break
            if c > 0:
                pos.append((e, k, c, h))
            elif c < 0:
                neg.append((e, k, c, h))
            else:
                rest[e] = (k, h)
        done += 1
        for pe, pk, pc, ph in pos:
            for ne, nk, nc, nh in neg:
                hist = ph | nh
                if hist.bit_count() > done + 1:
                    continue
                d = {}
                for x, y in pe:
                    d[x] = -y * nc
                for x, y in ne:
                    d[x] = d.get(x, 0) + y * pc
                k = -pk * nc + nk * pc
                t = tuple(sorted([(x, y) for x, y in d.items() if y]))
                if not t:
                    if k < 0:
                        return False
                    continue
                g = 0
                for _, y in t:
                    g = gcd(g, abs(y))
                    if g == 1:
                        break
                if g > 1:
                    t = tuple([(x, y // g) for x, y in t])
                    k = k // g          # integers
                o = rest.get(t)
                if o is None or k < o[0]:
                    rest[t] = (k, hist)
            if len(rest) > cap:
                return None
        work = rest


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def tightest(cons):
    """one constraint for each linear part"""
    best = {}
    for t, k in cons:
        if t and (t not in best or k < best[t]):
            best[t] = k
    return set(best.items())


class State:
    __slots__ = ("cons", "cells", "cond", "dead", "dirty", "memo")

    def __init__(self, cons=(), cells=None, cond=None):
        self.cons = set(cons)
        self.cells = dict(cells or {})
        self.cond = dict(cond or {})
        self.dead = False
        self.dirty = set()
        self.memo = {}

    def copy(self):
        s = State(self.cons, self.cells, self.cond)
        s.memo = dict(self.memo)
        s.dirty = set(self.dirty)
        return s

    def add(self, e):
        if e[0]:
            self.cons.add(key(e))
        elif e[1] < 0:
            self.dead = True

    def relevant(self, atoms):
        """constraints connected to the atoms"""
        atoms = set(atoms)
        left = list(self.cons)
        out = []
        while True:
            more = [c for c in left if any(a in atoms for a, _ in c[0])]
            if not more:
                return out
            out += more
            m = set(more)
            left = [c for c in left if c not in m]
            for c in more:
                atoms |= {a for a, _ in c[0]}

    def near(self, atoms, hops):
        atoms = set(atoms)
        out, left = [], list(self.cons)
        for _ in range(hops):
            more = [c for c in left if any(a in atoms for a, _ in c[0])]
            m = set(more)
            left = [c for c in left if c not in m]
            out += more
            for c in more:
                atoms |= {a for a, _ in c[0]}
        return out

    def proves(self, e):
        if not e[0]:
            return e[1] >= 0
        if key(e) in self.cons:
            return True
        neg = key(add(({}, -1), e, -1))
        for hops in (1, 2, 4):
            r = eliminate(self.near(e[0], hops) + [neg], ())
            if r is False:
                return True
        return False

    def infeasible(self):
        return eliminate(self.cons, ()) is False

    def low(self, e):
        """greatest known constant c with e >= c, or None"""
        if not e[0]:
            return e[1]
        z = "$z"
        cons = self.near(e[0], 4) + [key(add(e, A(z), -1)), key(add(A(z), e, -1))]
        r = eliminate(cons, (z,))
        if r is False:
            return "dead"
        for hops in (2, 1):
            if r is None:
                r = eliminate(self.near(e[0], hops) + cons[-2:], (z,))
        best = None
        for t, k in r or ():
            if len(t) == 1 and t[0][1] > 0:
                v = -(k // t[0][1])
                best = v if best is None else max(best, v)
        return best

    def high(self, e):
        v = self.low(scale(e, -1))
        return v if v in (None, "dead") else -v


class Undecided(Exception):
    """the analysis of one function takes too long or does not settle"""


class Null:
    def __repr__(self):
        return "null"


NULL = Null()


class Frame:
    def __init__(self, fn, prefix, depth):
        self.fn, self.prefix, self.depth, self.vals = fn, prefix, depth, {}


class Head:
    def __init__(self, hk, dom, cells, mods):
        self.stride = {}
        self.hk, self.dom, self.cells, self.mods = hk, dom, cells, mods
        self.back, self.entries, self.names = [], [], {}

    def name(self, k):
        return self.names.get(k, "?")

    def initially(self, e):
        return all(all(a in get or a in self.dom for a in e[0]) and st.proves(subst(e, get)) for st, get in self.entries)


def bits(ty):
    return int(ty[1:]) if ty and ty[0] == "i" and ty[1:].isdigit() else 0


def const_bool(v):
    return {"true": True, "false": False}.get(v)


class Summary:
    """what a call of a function does: members of the object returned in terms of the arguments, parameters changed"""

    def __init__(self):
        self.ok, self.returns, self.cls, self.alias, self.posts, self.mods = True, True, None, set(), [], set()


class Class:
    """a counted object: members by offset, the invariants that tie them to its size, and what holds of its elements"""

    def __init__(self, name, size, fields, inv, val=None, elem=None):
        self.name, self.size, self.fields, self.inv, self.val = name, size, fields, inv, val
        self.elem = elem or {}
        # fields: {field: offset}; inv: fn(dict of expr by field + 'size') -> [expr >= 0]; val: (offset, length member)


PURE = {"strlen", "memcmp", "strncmp", "strcmp", "strtol", "strtoul", "strtod", "talloc_get_size", "talloc_parent",
        "talloc_set_name_const", "talloc_set_name", "getenv", "isxdigit", "abort", "fprintf", "__ctype_b_loc", "talloc_steal",
        "talloc_free", "strchr", "memchr", "strtoll", "strtoull", "free", "talloc_get_name", "__assert_fail", "talloc_total_size",
        "_talloc_get_type_abort", "_talloc_steal_loc", "XXH3_64bits", "XXH64", "isdigit", "isspace", "tolower", "toupper",
        "strcasecmp", "strnlen", "strstr", "strpbrk", "strspn", "strcspn"}
TALLOC_LIMIT = 1 << 28
BIG = 1 << 62


class Interp:
    MAXINST, MAXLOOPS, DEPTH = 160, 2, 4
    limit = 240

    def __init__(self, P, classes, element=(), warn=None, trust=None):
        self.trust = trust or {}
        self.P = P
        self.classes = classes
        self.element = dict(element)      # (struct, field) -> (class, member): value < member
        self.writers = self._writers()
        self._loops = {}
        self._reach = {}
        self.sums = {}

    # ---- which functions may change counted members -----------------------------------------------------
    def _writers(self):
        w = {}
        for f in self.P.functions.values():
            for i in f.insts():
                if i.op == "store":
                    pl = an.place(f, i.ops[1])
                    if pl and pl[0] in self.classes and pl[1] in self.classes[pl[0]].fields:
                        w.setdefault(f.uname, set()).add(pl[0])
        return w

    def may_write(self, f, i):
        t = self.P.targets(i)
        out = set()
        for g in t or ():
            g = getattr(g, "uname", g)
            if g not in self._reach:
                r = set()
                for h in self.P.reachable([g]):
                    r |= self.writers.get(getattr(h, "uname", h), set())
                self._reach[g] = r
            out |= self._reach[g]
        if not t and cname(i) == "?":
            return set(self.classes)
        return out

    def relevant(self, f):
        """the function deals with counted objects"""
        for i in f.insts():
            if i.op == "gep" and an.short(i.x) in self.classes:
                return True
            if i.op == "call" and (an.pointee(f, i.res) in self.classes if i.res else False):
                return True
        return any(p[0] == "ptr" and an.pointee(f, p[1]) in self.classes for p in f.params)

    def order(self, fns):
        """callees before callers"""
        names = {f.uname: f for f in fns}
        out, seen = [], set()

        def visit(u):
            if u in seen:
                return
            seen.add(u)
            for t in sorted(self.P.cg.get(u, ())):
                if t in names:
                    visit(t)
            out.append(names[u])
        for u in sorted(names):
            visit(u)
        return out

    def loops(self, f):
        if f not in self._loops:
            order = an.rpo(f)
            num = {b: k for k, b in enumerate(order)}
            hd = {}
            for b in order:
                for s in b.succs:
                    if s in num and an.dominates(f, s, b):
                        hd.setdefault(s, []).append(b)
            self._loops[f] = (order, hd)
        return self._loops[f]

    def body(self, f, h):
        seen, work = {h}, list(self.loops(f)[1][h])
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            work += b.preds
        return seen

    # ---- one function, to a fixed point -------------------------------------------------------------------
    def analyse(self, f, args=None):
        """{(unique name, inst, kind): (holds, text)} of every write and every invariant of f, callees entered"""
        self.cands, self.mod, self.newroot, self.pool, self.guards, self.rels = {}, {}, set(), {}, {}, {}
        self.relround, self.relgrew = {}, False
        self.top = f
        self.until = time.time() + self.limit
        for n in range(80):
            self.obl, self.born, self.fresh, self.cls = {}, set(), set(), {}
            self.minof, self.signed, self.heads, self.zeroed = {}, set(), {}, set()
            self.escaped, self.byte, self.again, self.stack, self.raw32 = set(), {}, False, [], set()
            self.src, self.modified = {}, set()
            st = State()
            fr = Frame(f, "", 0)
            if args is None:
                vals = []
                for p in f.params:
                    vals.append(self.unknown(fr, p[1], p[0], st))
                    self.classify(f, p[1], vals[-1])
            else:
                vals = args(self, st)
            r = self.result = self.enter(f, vals, st, "", 0)
            if r is not None:
                self.settle(fr, f.order[-1].term, r[1], "returns")
            if not self.refine():
                self.passes = n + 1
                if args is None:
                    self.sums[f.uname] = self.summarise(f, vals, r)
                return self.obl
        raise Undecided("does not settle")

    def sources(self, root):
        """the objects a name may stand for: {parameter index}, plus None for any other that is not new"""
        seen, work, out = set(), [root], set()
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            if r in self.src:
                work += self.src[r]
            elif r in self.fresh:
                pass
            else:
                k = [n for n, p in enumerate(self.top.params) if "*" + p[1] == r]
                out.add(k[0] if k else None)
        return out

    def summarise(self, f, vals, r):
        S = Summary()
        S.ok = all(o[0] for o in self.obl.values())
        S.mods = set()
        for root in self.modified:
            S.mods |= self.sources(root) if isinstance(root, str) and not root.startswith("!") else {root}
        if r is None:
            S.returns = False
            return S
        v, st = r
        if not isinstance(v, Ptr) or v.off[0] or v.off[1] or v.root not in self.cls:
            return S
        cl = self.cls[v.root]
        S.cls, S.alias = cl, self.sources(v.root)
        tok = []
        for n, p in enumerate(f.params):
            x = vals[n]
            if isinstance(x, tuple) and bits(p[0]) >= 32:
                tok.append((("p", n), x))
            elif isinstance(x, Ptr) and self.cls.get(x.root):
                for fl in self.cls[x.root].fields:
                    a = "%s.%s" % (x.root, fl)
                    if a in self.born:
                        tok.append((("f", n, fl), A(a)))
        tok = tok[:5]
        for fl in list(cl.fields) + ["size"]:
            e = self.cell(st, v.root, fl)
            if e is None:
                continue
            for m in range(1 << len(tok)):
                pick = [tok[k] for k in range(len(tok)) if m >> k & 1]
                if len(pick) > 3:
                    continue
                c = ZERO
                for t, x in pick:
                    c = add(c, x)
                lo = st.low(add(e, c, -1))
                if lo in (None, "dead") or abs(lo) > 1 << 20:
                    continue
                hi = st.high(add(e, c, -1))
                if hi == lo:
                    S.posts.append((fl, "eq", [t for t, _ in pick], lo))
                elif pick or lo:
                    S.posts.append((fl, "ge", [t for t, _ in pick], lo))
        return S

    def use(self, fr, i, g, S, st):
        """the effect of a call by its summary"""
        def tokval(t):
            v = self.val(fr, i.ops[t[1]], i.x["tys"][t[1]])
            if t[0] == "p":
                return v if isinstance(v, tuple) else None
            if isinstance(v, Ptr) and not v.off[0] and not v.off[1]:
                return pre.get((v.root, t[2]))
            return None
        pre = {}
        args = []
        for o, t in zip(i.ops, i.x["tys"]):
            v = self.val(fr, o, t)
            args.append(v)
            if t == "ptr" and isinstance(v, Ptr) and v.root in self.cls:
                for fl in self.cls[v.root].fields:
                    pre[(v.root, fl)] = self.cell(st, v.root, fl)
        posts = [(fl, k, [tokval(t) for t in ts], c) for fl, k, ts, c in S.posts]
        self.apply_mods(fr, i, st, S.mods, args)
        if not S.returns:
            return None
        if not i.res:
            return st
        if S.cls is None:
            v = self.unknown(fr, i.res, i.ty, st) if bits(i.ty) or i.ty == "ptr" else None
            fr.vals[i.res] = v
            self.classify(fr.fn, i.res, v)
            return st
        r = "ret:" + fr.prefix + i.res
        for ck in [k for k in st.cells if k[0] == r]:
            del st.cells[ck]
        self.cls[r] = S.cls
        fr.vals[i.res] = Ptr(r, ZERO)
        src = set()
        fresh = True
        for a in S.alias:
            x = args[a] if a is not None and a < len(args) else None
            if isinstance(x, Ptr):
                src.add(x.root)
                fresh = fresh and x.root in self.fresh
            else:
                fresh = False
        self.fresh.discard(r)
        if fresh:
            self.fresh.add(r)
        self.src[r] = src if None not in S.alias else src | {"?"}
        self.assume_inv(st, r, S.cls, r)
        for fl, k, ts, c in posts:
            if any(t is None for t in ts) or (r, fl) not in st.cells:
                continue
            e = C(c)
            for t in ts:
                e = add(e, t)
            d = add(st.cells[(r, fl)], e, -1)
            st.add(d)
            if k == "eq":
                st.add(scale(d, -1))
        return st

    def apply_mods(self, fr, i, st, mods, args):
        nm = "%scall%s.%d" % (fr.prefix, i.block.name, i.idx)
        for m in mods:
            if isinstance(m, int) and m < len(args):
                x = args[m]
                if isinstance(x, Ptr) and x.root in self.cls:
                    self.modified.add(x.root)
                    self.havoc(st, x.root, "%s:%s" % (nm, x.root))
                    self.others(fr, i, st, x.root)
                    continue
            # any object of the class
            cl = m[1:] if isinstance(m, str) else None
            self.modified.add("!" + cl if cl else "?")
            for r in {k[0] for k in st.cells}:
                k = self.cls.get(r)
                if k is not None and (cl is None or k.name == cl) and (r not in self.fresh or r in self.escaped):
                    self.havoc(st, r, "%s:%s" % (nm, r))

    def unknown(self, fr, name, ty, st):
        if ty == "ptr":
            return Ptr("*" + fr.prefix + name, ZERO)
        a = self.atom(fr.prefix + name)
        st.add(A(a))
        b = bits(ty)
        if b and b <= 32:
            st.add(({a: -1}, (1 << b) - 1))
            self.raw32.add(a)
        return A(a)

    def atom(self, n):
        self.born.add(n)
        return n

    def classify(self, f, v, val):
        if isinstance(val, Ptr) and val.root not in self.cls and not val.off[0] and not val.off[1]:
            s = an.pointee(f, v)
            if s in self.classes:
                self.cls[val.root] = self.classes[s]

    def refine(self):
        """drop candidates a way round a loop does not preserve; True when another pass is needed"""
        if self.again:
            return True
        changed = False
        for hk, H in self.heads.items():
            mods = self.mod.setdefault(hk, set())
            for st, get in H.back:
                for ck, e in H.cells.items():
                    if ck not in mods and (ck not in st.cells or key(st.cells[ck]) != key(e)):
                        mods.add(ck)
                        changed = True
        if changed:
            return True
        for hk, H in self.heads.items():
            cand = self.cands[hk][1]
            for st, get in H.back:
                for c in sorted(cand):
                    if not st.proves(subst(unkey(c), get)):
                        cand.discard(c)
                        changed = True
        if changed:
            return True
        grew = False
        for hk, H in self.heads.items():
            # once more when what is known of an inner loop has grown since
            if H.back and self.relround.get(hk, 0) < 3 and (hk not in self.rels or self.relgrew):
                self.relround[hk] = self.relround.get(hk, 0) + 1
                r = self.relations(H) - self.rels.get(hk, set())
                self.rels[hk] = self.rels.get(hk, set()) | r
                grew = grew or bool(r)
        self.relgrew = grew
        changed = grew
        if changed:
            return True
        for hk, H in self.heads.items():
            pool, cand = self.pool.setdefault(hk, set()), self.cands[hk][1]
            for st, get in H.back:
                for p, e in get.items():
                    if len(e[0]) != 1:
                        continue
                    (a, k), = e[0].items()
                    if k != 1 or a in get or a in H.dom:
                        continue
                    for c in st.near([a], 1):
                        u = subst(unkey(c), {a: add(A(p), C(-e[1]))})
                        if len(pool) < 60 and all(x in H.dom or x in get for x in u[0]) and key(u) not in pool:
                            pool.add(key(u))
                            if key(u) not in cand and H.initially(u):
                                cand.add(key(u))
                                changed = True
        return changed

    def relations(self, H):
        """how what changes in the loop is tied together: by what each way round adds to it"""
        out = set()
        w = [(at, e) for at, e in H.w if all(at in get for _, get in H.back)][:6]
        d = {at: add(A(at), e, -1) for at, e in w}
        delta = {at: [add(get[at], A(at), -1) for _, get in H.back] for at, _ in w}

        def holds(terms):
            for n, (st, get) in enumerate(H.back):
                e = ZERO
                for at, k in terms:
                    e = add(e, delta[at][n], k)
                if not st.proves(e):
                    return False
            return True
        names = [at for at, _ in w]
        for x in names:
            for y in names:
                if x == y:
                    continue
                # x's gain is at most k times y's gain (or loss)
                for s in (1, -1):
                    for t in (1, -1):
                        for k in (1, 2, 3, 4, 5, 6, 8):
                            if holds([(x, s), (y, t * k)]):
                                out.add(key(add(scale(d[x], s), d[y], t * k)))
                                break
        for a in range(len(names)):
            for b in range(a + 1, len(names)):
                for c in range(b + 1, len(names)):
                    for s in (1, -1):
                        for t in (1, -1):
                            q = [(names[a], 1), (names[b], s), (names[c], t)]
                            if holds(q) and holds([(n, -k) for n, k in q]):
                                e = add(add(d[names[a]], d[names[b]], s), d[names[c]], t)
                                out |= {key(e), key(scale(e, -1))}
        return {c for c in out if c[0]}

    # ---- control flow ---------------------------------------------------------------------------------------
    def enter(self, f, vals, st, prefix, depth):
        fr = Frame(f, prefix, depth)
        for p, v in zip(f.params, vals):
            fr.vals[p[1]] = v
            self.classify(f, p[1], v)
        order, hd = self.loops(f)
        into = {order[0]: [(st, None)]}
        out = []
        self.stack.append(f.uname)
        for b in order:
            edges = into.get(b, [])
            if not edges:
                continue
            if b is order[0] and b not in hd:
                s = edges[0][0].copy()
            else:
                s = self.join(fr, b, edges, b in hd)
            dead = False
            for i in b.insts:
                if i.op == "phi":
                    continue
                if i is b.term:
                    break
                s = self.step(fr, i, s)
                if s is None or s.dead:
                    dead = True
                    break
            if dead:
                continue
            t = b.term
            if t.op == "ret":
                out.append((self.val(fr, t.ops[0], t.ty) if t.ops else None, s, t))
                if t.ops:
                    self.handout(fr, t, t.ops[0], s, None)
                continue
            for n in b.succs:
                e = s.copy()
                if t.op == "br" and len(t.x) == 2 and t.x[0] != t.x[1]:
                    self.assume(fr, t.ops[0], t.x[0] == n.name, e)
                elif t.op == "switch":
                    cs = [c for c, l in t.x["cases"] if l == n.name]
                    v = self.val(fr, t.ops[0], t.ty)
                    if isinstance(v, tuple) and n.name != t.x["default"] and cs:
                        if len(cs) == 1:
                            e.add(add(v, C(cs[0]), -1))
                            e.add(add(C(cs[0]), v, -1))
                        elif min(cs) >= 0:
                            e.add(add(v, C(min(cs)), -1))
                            e.add(add(C(max(cs)), v, -1))
                if e.dead or (len(b.succs) > 1 and e.infeasible()):
                    continue
                if n in hd and b in hd[n]:
                    self.goback(fr, n, b, e)
                else:
                    into.setdefault(n, []).append((e, b.name))
        self.stack.pop()
        if not out:
            return None
        if len(out) == 1:
            return out[0][0], out[0][1]
        vals = [o[0] for o in out]
        s, m = self.merge([(o[1], None) for o in out], [("ret", prefix + "ret", vals)], prefix + "ret", False)
        return m.get("ret"), s

    def goback(self, fr, h, b, e):
        hk = (fr.prefix, fr.fn.uname, h.name)
        H = self.heads.get(hk)
        if H is None:
            return
        get = {}
        for i in h.insts:
            if i.op != "phi":
                break
            v = self.val(fr, next(o for o, l in i.ops if l == b.name), i.ty)
            cur = fr.vals.get(i.res)
            if isinstance(cur, Ptr):
                if isinstance(v, Ptr) and cur.root != "*" + fr.prefix + i.res:
                    if v.root != cur.root:
                        self.newroot.add((fr.prefix, fr.fn.uname, i.res))
                        self.again = True
                    elif i.res in H.stride:
                        self.rounds(H, i.res, v.off, get)
                    else:
                        get[H.name(i.res)] = v.off
                elif isinstance(v, Ptr):
                    # another object each time round: its members are the loop's members
                    for ck in list(H.cells):
                        if ck[0] == cur.root:
                            x = self.cell(e, v.root, ck[1]) if not v.off[0] and not v.off[1] or ck[1] == "size" else None
                            if ck[1] == "size" and x is not None:
                                x = add(x, v.off, -1)
                            if x is None:
                                e.cells.pop(ck, None)
                            else:
                                e.cells[ck] = x
                elif cur.root != "*" + fr.prefix + i.res:
                    self.newroot.add((fr.prefix, fr.fn.uname, i.res))
                    self.again = True
            elif isinstance(cur, tuple) and isinstance(v, tuple):
                if i.res in H.stride:
                    self.rounds(H, i.res, v, get)
                else:
                    get[H.name(i.res)] = v
        for ck in H.mods:
            if ck in e.cells:
                get[H.name(ck)] = e.cells[ck]
        H.back.append((e, get))

    @staticmethod
    def rounds(H, res, off, get):
        """a value that grows by a fixed step is counted in steps"""
        base, s = H.stride[res]
        d = add(off, base, -1)
        if d[1] % s == 0 and all(c % s == 0 for c in d[0].values()):
            get[H.name(res)] = ({a: c // s for a, c in d[0].items()}, d[1] // s)

    def step_of(self, f, i, backs):
        """the fixed step, other than one, by which a loop moves a pointer"""
        steps = set()
        for o, l in i.ops:
            if f.blocks[l] in backs:
                q = an.path(f, o)
                if q.base != i.res or q.sym:
                    return None
                steps.add(q.off)
        s = steps.pop() if len(steps) == 1 else 0
        return s if abs(s) > 1 else None

    def join(self, fr, b, edges, head):
        """state at the start of b; the values of its phis are set"""
        items, f, stride = [], fr.fn, {}
        states = [(s.copy(), p) for s, p in edges]
        hk = (fr.prefix, f.uname, b.name)
        nm = fr.prefix + b.name
        for i in b.insts:
            if i.op != "phi":
                break
            vals = [self.val(fr, next(o for o, l in i.ops if l == p), i.ty) for _, p in states]
            ptrs = [v for v in vals if isinstance(v, Ptr)]
            if head and i.ty == "ptr" and len(ptrs) == len(vals) and len({(v.root, key(v.off)) for v in ptrs}) == 1 and \
                    (fr.prefix, f.uname, i.res) not in self.newroot:
                k = self.step_of(f, i, self.loops(f)[1][b])
                if k:
                    items.append((i.res, nm + ":" + i.res, [ZERO for _ in vals]))
                    stride[i.res] = (ptrs[0], k)
                    continue
            if i.ty == "ptr":
                roots = {v.root for v in ptrs}
                forced = (fr.prefix, f.uname, i.res) in self.newroot
                if len(roots) == 1 and not forced and all(v is NULL or isinstance(v, Ptr) for v in vals):
                    items.append((i.res, nm + ":" + i.res, vals))
                    continue
                self.onename(fr, i.res, vals, [t for t, _ in states])
            else:
                items.append((i.res, nm + ":" + i.res, vals))
        st, m = self.merge(states, items, nm, head, hk if head else None)
        for k, v in m.items():
            fr.vals[k] = v
        if stride:
            self.heads[hk].stride = {r: (p.off, k) for r, (p, k) in stride.items()}
            for r, (p, k) in stride.items():
                fr.vals[r] = Ptr(p.root, add(p.off, m[r], k))
        return st

    def onename(self, fr, res, vals, states):
        """a pointer to different objects: one name for them"""
        ptrs = [v for v in vals if isinstance(v, Ptr)]
        r = "*" + fr.prefix + res
        fr.vals[res] = Ptr(r, ZERO)
        if not ptrs or any(not isinstance(v, Ptr) and v is not NULL for v in vals):
            return
        cl = {self.cls.get(v.root) for v in ptrs}
        cl.discard(None)
        if len(cl) == 1:
            self.cls[r] = cl.pop()
        self.src[r] = {v.root for v in ptrs}
        if all(v.root in self.fresh for v in ptrs):
            self.fresh.add(r)
        flds = ["size"] + (list(self.cls[r].fields) + ["term"] if r in self.cls else [])
        for n, s in enumerate(states):
            v = vals[n]
            if v is NULL:
                continue
            for fl in flds:
                if fl != "size" and (v.off[0] or v.off[1]):
                    continue
                x = self.cell(s, v.root, fl)
                if x is not None:
                    s.cells[(r, fl)] = add(x, v.off, -1) if fl == "size" else x
            if v.root in s.dirty:
                s.dirty.add(r)
                s.dirty.discard(v.root)
        if NULL in vals:
            live = [n for n, v in enumerate(vals) if v is not NULL]
            for n, s in enumerate(states):
                if vals[n] is NULL:
                    for fl in flds:
                        if live and (r, fl) in states[live[0]].cells:
                            s.cells[(r, fl)] = NULL

    def merge(self, states, items, nm, head, hk=None):
        """one state for several; items are (name, atom, value on each side)"""
        n = len(states)
        S = [s for s, _ in states]
        out = State()
        for s in S:
            out.dirty |= s.dirty
        if not head and S:
            out.memo = {k: v for k, v in S[0].memo.items() if all(k in s.memo and key(s.memo[k]) == key(v) for s in S[1:])}
        # members known on some side
        keys = set().union(*[set(s.cells) for s in S])
        for ck in sorted(keys, key=str):
            for s in S:
                if ck not in s.cells and ck[0] in self.cls and ck[1] != "term":
                    self.cell(s, *ck)
        mods = self.mod.setdefault(hk, set()) if head else ()
        work = []          # (name, atom, [expr or None per side])
        res = {}
        snap = set(self.born)
        for name, at, vals in items:
            if all(isinstance(v, Ptr) or v is NULL for v in vals) and any(isinstance(v, Ptr) for v in vals):
                root = next(v.root for v in vals if isinstance(v, Ptr))
                if len({v.root for v in vals if isinstance(v, Ptr)}) > 1:
                    res[name] = Ptr("*" + at, ZERO)
                    continue
                ex = [v.off if isinstance(v, Ptr) else None for v in vals]
                kx = {key(e) for e in ex if e is not None}
                if len(kx) == 1 and not head and None not in ex:
                    res[name] = Ptr(root, next(e for e in ex if e is not None))
                else:
                    res[name] = Ptr(root, A(at))
                    work.append((name, at, ex))
            elif all(isinstance(v, tuple) for v in vals) and vals:
                if len({key(v) for v in vals}) == 1 and not head:
                    res[name] = vals[0]
                else:
                    res[name] = A(at)
                    work.append((name, at, list(vals)))
            elif all(v is NULL for v in vals) and vals and not head:
                res[name] = NULL
            elif vals and any(isinstance(v, Ptr) or v is NULL for v in vals):
                res[name] = Ptr("*" + at, ZERO)
            else:
                res[name] = None
        for ck in sorted(keys, key=str):
            ex = [s.cells.get(ck) for s in S]
            if any(e is None for e in ex):
                continue
            ex = [None if e is NULL else e for e in ex]
            kx = {key(e) for e in ex if e is not None}
            if len(kx) == 1 and ck not in mods:
                out.cells[ck] = next(e for e in ex if e is not None)
            elif kx:
                at = "%s:%s.%s" % (nm, ck[0], ck[1])
                out.cells[ck] = A(at)
                work.append((ck, at, ex))
        common = set.intersection(*[s.cons for s in S])
        out.cons |= common
        ats = [set(a for t, _ in s.cons for a, _ in t) for s in S]
        if n > 1:
            for c in sorted(set().union(*[s.cons for s in S]) - common):
                if all(c in s.cons or (all(a in ats[k] for a, _ in c[0]) and s.proves(unkey(c))) for k, s in enumerate(S)):
                    out.cons.add(c)
        for a in set.intersection(*[set(s.cond) for s in S]) if S else ():
            out.cond[a] = set.intersection(*[s.cond[a] for s in S])
        for name, at, ex in work:
            self.atom(at)
        if head:
            self.headcands(out, S, work, hk, snap, n)
        else:
            self.hull(out, S, work)
            self.keep(out, S, {w[1] for w in work})
        out.cons = tightest(out.cons)
        return out, res

    def keep(self, out, S, new):
        """what holds of an object on every side still holds of it"""
        for root in sorted({r for r, _ in out.cells if r in self.cls}):
            cl = self.cls[root]
            fl = list(cl.fields) + ["size"]
            if any((root, x) not in out.cells or out.cells[(root, x)] is NULL for x in fl):
                continue
            ce = {x: out.cells[(root, x)] for x in fl}
            fresh = all(set(e[0]) & new for e in ce.values())
            sides = []
            for s in S:
                v = {x: s.cells.get((root, x)) for x in fl + ["term"]}
                if any(v[x] is None for x in fl) or any(v[x] is NULL for x in fl):
                    if fresh and all(v[x] is NULL for x in fl):
                        continue
                    sides = None
                    break
                sides.append((s, v))
            if not sides:
                continue
            for n, e in enumerate(cl.inv(ce)):
                if key(e) not in out.cons and e[0] and all(s.proves(cl.inv(v)[n]) for s, v in sides):
                    out.cons.add(key(e))
            if cl.val and (root, "term") in out.cells:
                ln = cl.val[1]
                if all(v["term"] not in (None, NULL) and s.proves(add(v["term"], v[ln], -1)) and s.proves(add(v[ln], v["term"], -1))
                       for s, v in sides):
                    out.cells[(root, "term")] = ce[ln]

    def hull(self, out, S, work):
        n = len(S)
        for name, at, ex in work:
            live = [k for k in range(n) if ex[k] is not None]
            cons = set()
            bases = {}
            for k in live:
                bases[key((ex[k][0], 0))] = (ex[k][0], 0)
                for a, c in ex[k][0].items():
                    if c == 1:
                        bases[key(A(a))] = A(a)
            bases[key(ZERO)] = ZERO
            if len(bases) > 12:
                bases = dict(list(sorted(bases.items()))[:12])
            for b in bases.values():
                for sgn in (1, -1):
                    lo = BIG
                    for k in live:
                        v = S[k].low(scale(add(ex[k], b, -1), sgn))
                        if v == "dead":
                            continue
                        if v is None:
                            lo = None
                            break
                        lo = min(lo, v)
                    if lo is not None and lo < BIG:
                        cons.add(key(add(scale(add(A(at), b, -1), sgn), C(-lo))))
            for k in live:
                for a, c in ex[k][0].items() if len(ex[k][0]) <= 3 else ():
                    if c != 1:
                        continue
                    for t in S[k].near([a], 1):
                        u = subst(unkey(t), {a: add(A(at), add(ex[k], A(a), -1), -1)})
                        if key(u) not in cons and all(S[j].proves(subst(u, {at: ex[j]})) for j in live):
                            cons.add(key(u))
            if len(live) < n:
                out.cond[at] = cons
            else:
                out.cons |= cons
        full = [w for w in work if all(e is not None for e in w[2])][:5]
        for x in range(len(full)):
            for y in range(x + 1, len(full)):
                for s in (1, -1):
                    self.relate(out, S, [(full[x], 1), (full[y], s)])
                for z in range(y + 1, len(full)):
                    for s in (1, -1):
                        for t in (1, -1):
                            self.relate(out, S, [(full[x], 1), (full[y], s), (full[z], t)])

    def relate(self, out, S, terms):
        e = ZERO
        base = ZERO
        for (name, at, ex), s in terms:
            e = add(e, A(at), s)
            base = add(base, ex[0], s)
        for sgn in (1, -1):
            lo = BIG
            for k, st in enumerate(S):
                v = ZERO
                for (name, at, ex), s in terms:
                    v = add(v, ex[k], s)
                d = scale(add(v, base, -1), sgn)
                if len(d[0]) > 4:
                    return
                w = st.low(d)
                if w is None:
                    return
                if w != "dead":
                    lo = min(lo, w)
            if lo < BIG:
                out.add(add(scale(add(e, base, -1), sgn), C(-lo)))

    def headcands(self, out, S, work, hk, dom, n):
        H = Head(hk, dom, dict(out.cells), self.mod.setdefault(hk, set()))
        H.entries = [(S[k], {at: ex[k] for _, at, ex in work if ex[k] is not None}) for k in range(n)]
        H.names = {name: at for name, at, ex in work}
        self.heads[hk] = H
        ids = frozenset(at for _, at, _ in work)
        old = self.cands.get(hk)
        if old is None or old[0] != ids:
            cand = set()
            w = [(at, ex[0]) for _, at, ex in work if all(e is not None and key(e) == key(ex[0]) for e in ex)]
            w = [(at, e) for at, e in w if all(a in dom for a in e[0])][:7]
            d = [add(A(at), e, -1) for at, e in w]
            for x in range(len(w)):
                cand |= {key(d[x]), key(scale(d[x], -1)), key(A(w[x][0]))}
            # comparisons made in the loop
            for e in self.guards.get(hk, {}).values():
                for q in (e, add(e, C(1)), scale(e, -1), add(scale(e, -1), C(1))):
                    cand.add(key(q))
            # invariants of the objects counted
            for root, cl in list(self.cls.items()):
                ce = {fl: out.cells.get((root, fl)) for fl in list(cl.fields) + ["size"]}
                if all(v is not None for v in ce.values()):
                    cand |= {key(e) for e in cl.inv(ce)}
                    if (root, "term") in out.cells and cl.val:
                        t = add(out.cells[(root, "term")], ce[cl.val[1]], -1)
                        cand |= {key(t), key(scale(t, -1))}
            # a place in a table lies in it
            for st, fl in set(self.element.values()):
                for (root, g), t in out.cells.items():
                    if g == fl and t is not NULL and self.cls.get(root) is not None and self.cls[root].name == st:
                        cand |= {key(add(add(t, C(-1)), A(at), -1)) for name, at, ex in work}
            # a pointer into a string passes neither its terminator nor its length
            for (root, fl), t in out.cells.items():
                if fl == "term" and t is not NULL and self.cls.get(root) is not None and self.cls[root].val:
                    for z in (t, out.cells.get((root, self.cls[root].val[1]))):
                        if isinstance(z, tuple):
                            v = add(z, C(self.cls[root].val[0]))
                            cand |= {key(add(v, A(at), -1)) for name, at, ex in work if not isinstance(name, tuple)}
            cand = {c for c in cand if c[0] and any(a in ids for a, _ in c[0])}
            cand = {c for c in cand if H.initially(unkey(c))}
            self.cands[hk] = (ids, cand, w)
            self.pool.pop(hk, None)
            H.w = w
            self.rels.pop(hk, None)
        else:
            H.w = old[2]
        self.cands[hk] = (ids, self.cands[hk][1], H.w)
        out.cons |= self.cands[hk][1]
        out.cons |= self.rels.get(hk, set())

    # ---- conditions -------------------------------------------------------------------------------------------
    def assume(self, fr, c, truth, st, depth=0):
        d = fr.fn.defs.get(c)
        if c in ("true", "false"):
            if (c == "true") != truth:
                st.dead = True
            return
        if d is None or depth > 12:
            return
        if d.op == "xor" and const_bool(d.ops[1]) is True:
            return self.assume(fr, d.ops[0], not truth, st, depth + 1)
        if d.op == "freeze":
            return self.assume(fr, d.ops[0], truth, st, depth + 1)
        if (d.op == "and" and truth) or (d.op == "or" and not truth):
            self.assume(fr, d.ops[0], truth, st, depth + 1)
            self.assume(fr, d.ops[1], truth, st, depth + 1)
            return
        if d.op == "select" and d.ty == "i1":
            if truth and d.ops[2] == "false":
                self.assume(fr, d.ops[0], True, st, depth + 1)
                self.assume(fr, d.ops[1], True, st, depth + 1)
            if not truth and d.ops[1] == "true":
                self.assume(fr, d.ops[0], False, st, depth + 1)
                self.assume(fr, d.ops[2], False, st, depth + 1)
            return
        if d.op == "phi" and d.ty == "i1":
            # what was decided where the phi got the value
            opts = [(o, l) for o, l in d.ops if const_bool(o) is None or const_bool(o) == truth]
            if len(opts) == 1 and const_bool(opts[0][0]) is None:
                self.assume(fr, opts[0][0], truth, st, depth + 1)
            return
        if d.op == "call" and str(cname(d)).startswith("llvm.expect"):
            return self.assume(fr, d.ops[0], truth, st, depth + 1)
        if d.op != "icmp":
            return
        p = d.x if truth else an._NEG[d.x]
        a, b = self.val(fr, d.ops[0], d.ty), self.val(fr, d.ops[1], d.ty)
        if d.ty == "ptr" or isinstance(a, Ptr) or isinstance(b, Ptr):
            if p == "ne" and (b is NULL or a is NULL):
                x = a if b is NULL else b
                if isinstance(x, Ptr):
                    for t in list(x.off[0]):
                        if t in st.cond:
                            st.cons |= st.cond[t]
                return
            if p == "eq" and (b is NULL or a is NULL):
                x = a if b is NULL else b
                if isinstance(x, Ptr) and not x.off[0]:
                    st.dirty.discard(x.root)
                return
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root):
                return
            a, b = a.off, b.off
            self.guard(fr, d, add(a, b, -1))
            signed_ok = True
        else:
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                return
            self.guard(fr, d, add(a, b, -1))
            signed_ok = False
        ab, ba = add(a, b, -1), add(b, a, -1)
        if p == "eq":
            st.add(ab)
            st.add(ba)
            return
        if p == "ne":
            if st.proves(ab):
                st.add(add(ab, C(-1)))
            elif st.proves(ba):
                st.add(add(ba, C(-1)))
            self.nonzero(st, a, b)
            return
        if p in ("ugt", "uge", "sgt", "sge"):
            a, b, ab, ba = b, a, ba, ab
        strict = p[1:] in ("gt", "lt")
        # a < b or a <= b, unsigned unless p[0] is s
        if not signed_ok:
            if p[0] == "u":
                if not st.proves(b):
                    return
                st.add(a)
            elif bits(d.ty) < 64:
                lim = (1 << (bits(d.ty) - 1)) - 1
                if not self.issigned(a) and not st.proves(a):
                    return
                if any(x in self.raw32 for x in a[0]) and not self.issigned(a) and not st.proves(add(C(lim), a, -1)):
                    return
        st.add(add(ba, C(-1)) if strict else ba)
        if p[0] == "u":
            self.nonzero(st, b, a)

    def issigned(self, e):
        return all(a in self.signed for a in e[0])

    def nonzero(self, st, a, b):
        """a byte of a string found not to be zero lies before the terminator"""
        if b[0] or b[1] or len(a[0]) != 1:
            return
        (at, k), = a[0].items()
        m = self.byte.get(at)
        if m and k == 1 and not a[1]:
            root, off, term = m
            cl = self.cls.get(root)
            t = st.cells.get((root, "term"))
            if t is not None and cl and cl.val and key(t) == term:
                e = add(add(t, C(cl.val[0])), off, -1)
                if st.proves(e):
                    st.add(add(e, C(-1)))

    def guard(self, fr, d, e):
        """remember comparisons for the loops they are made in"""
        for hk, H in self.heads.items():
            if hk[0] == fr.prefix and hk[1] == fr.fn.uname and d.block in self.bodyof(fr.fn, hk[2]):
                if all(a in H.dom or a in H.names.values() for a in e[0]) and any(a in H.names.values() for a in e[0]):
                    g = self.guards.setdefault(hk, {})
                    if key(e) not in g:
                        g[key(e)] = e
                        if len(g) < 20 and hk in self.cands:
                            for q in (e, add(e, C(1)), scale(e, -1), add(scale(e, -1), C(1))):
                                if key(q) not in self.cands[hk][1] and H.initially(q):
                                    self.cands[hk][1].add(key(q))
                                    self.again = True

    def bodyof(self, f, name):
        c = f.__dict__.setdefault("_polybody", {})
        if name not in c:
            c[name] = self.body(f, f.blocks[name])
        return c[name]

    # ---- values -----------------------------------------------------------------------------------------------
    def val(self, fr, v, ty=None):
        if v in ("null", "zeroinitializer") and ty in (None, "ptr"):
            return NULL
        if v == "true" or v == "false":
            return C(int(v == "true"))
        c = const_int(v)
        if c is not None:
            return C(c)
        if isinstance(v, str) and v.startswith("%"):
            return fr.vals.get(v)
        if isinstance(v, str) and ty in (None, "ptr"):
            p = an.path(fr.fn, v)
            if p.base.startswith("@") and not p.sym:
                return Ptr(p.base, C(p.off))
        return None

    def num(self, fr, i, v, ty, st):
        x = self.val(fr, v, ty)
        if isinstance(x, tuple):
            return x
        return self.unknown(fr, "?%s.%d" % (i.block.name, i.idx), "i64", st)

    def rng(self, fr, i, ty, st, *cons):
        """a new value with constraints; each is a function of the value"""
        v = self.unknown(fr, i.res, ty, st)
        for c in cons:
            st.add(c(v))
        return v

    def cell(self, st, root, fl):
        """current contents of a member (or the size) of an object"""
        if (root, fl) in st.cells:
            v = st.cells[(root, fl)]
            return None if v is NULL else v
        cl = self.cls.get(root)
        if root in self.fresh:
            if fl == "size" or fl == "term" or cl is None:
                return None
            v = C(0) if root in self.zeroed else A(self.atom("%s.%s?" % (root, fl)))
            st.cells[(root, fl)] = v
            return v
        if cl is None:
            return None
        self.assume_inv(st, root, cl, root)
        return st.cells.get((root, fl))

    def assume_inv(self, st, root, cl, nm, only=None):
        for fl in list(cl.fields) + ["size"]:
            if (root, fl) not in st.cells or st.cells[(root, fl)] is NULL:
                st.cells[(root, fl)] = A(self.atom("%s.%s" % (nm, fl)))
                st.add(st.cells[(root, fl)])
        ce = {fl: st.cells[(root, fl)] for fl in list(cl.fields) + ["size"]}
        for e in cl.inv(ce):
            st.add(e)
        for fl, (off, w) in cl.fields.items():
            if w < 8:
                st.add(add(C((1 << 8 * w) - 1), ce[fl], -1))
        if cl.val:
            st.cells[(root, "term")] = ce[cl.val[1]]

    def havoc(self, st, root, nm):
        cl = self.cls.get(root)
        for ck in [k for k in st.cells if k[0] == root and (k[1] != "size")]:
            del st.cells[ck]
        st.dirty.discard(root)
        if cl is not None:
            self.assume_inv(st, root, cl, nm)

    def counted(self, root, st):
        """the object has a known size"""
        if root in self.cls:
            return True
        return root in self.fresh and (root, "size") in st.cells and not root.startswith("alloca:")

    # ---- obligations ------------------------------------------------------------------------------------------
    def oblige(self, fr, i, ok, kind, text):
        k = (fr.fn.uname, i, kind)
        o = self.obl.get(k)
        self.obl[k] = (ok and (o is None or o[0]), text if not ok or o is None else o[1])

    def access(self, fr, i, st, p, n, kind, what):
        """n bytes at p lie in the object"""
        if not isinstance(p, Ptr) or not self.counted(p.root, st):
            return
        size = self.cell(st, p.root, "size")
        if size is None:
            return
        room = add(add(size, p.off, -1), n, -1)
        ok = st.proves(p.off) and st.proves(n) and st.proves(room)
        self.oblige(fr, i, ok, kind, "%s: %s bytes at offset %s of an object of %s bytes" % (what, show(n), show(p.off), show(size)))

    def settle(self, fr, i, st, what, only=None):
        """the objects changed satisfy their invariants again"""
        for root in sorted(st.dirty):
            if only is not None and root not in only:
                continue
            cl = self.cls.get(root)
            if cl is None:
                continue
            ce = {fl: self.cell(st, root, fl) for fl in list(cl.fields) + ["size"]}
            if any(v is None for v in ce.values()):
                self.oblige(fr, i, False, "state", "%s with a %s whose size is not known" % (what, cl.name))
                continue
            for n, e in enumerate(cl.inv(ce)):
                self.oblige(fr, i, st.proves(e), "state%d" % n, "%s with a %s that does not fit its memory: not shown that %s >= 0"
                            % (what, cl.name, show(e)))
            if cl.val:
                t = st.cells.get((root, "term"))
                l = ce[cl.val[1]]
                ok = t is not None and st.proves(add(t, l, -1)) and st.proves(add(l, t, -1))
                self.oblige(fr, i, ok, "term", "%s with a %s that is not terminated at its length %s (terminator %s)"
                            % (what, cl.name, show(l), show(t) if t is not None else "unknown"))
            st.dirty.discard(root)

    def handout(self, fr, i, v, st, sty):
        """a pointer into an object is given away: the element it points to lies in the object"""
        p = self.val(fr, v, "ptr")
        if not isinstance(p, Ptr) or not (p.off[0] or p.off[1]) or not self.counted(p.root, st):
            return
        sz = 0
        d = fr.fn.defs.get(v)
        if sty:
            sz = an.struct_size(fr.fn.mod, sty)
        elif d is not None and d.op == "gep" and p.off[0]:
            s = an.pointee(fr.fn, v)
            sz = an.struct_size(fr.fn.mod, s) if s else 0
        if sz:
            self.access(fr, i, st, p, C(sz), "element", "element given out")

    # ---- instructions -----------------------------------------------------------------------------------------
    def step(self, fr, i, st):
        if time.time() > self.until:
            raise Undecided("takes too long")
        m = getattr(self, "op_" + i.op, None)
        if m is not None:
            return m(fr, i, st)
        if i.res:
            fr.vals[i.res] = self.unknown(fr, i.res, i.ty or "", st) if bits(i.ty or "") or i.ty == "ptr" else None
        return st

    def op_unreachable(self, fr, i, st):
        return None

    def op_alloca(self, fr, i, st):
        r = "alloca:" + fr.prefix + i.res
        fr.vals[i.res] = Ptr(r, ZERO)
        self.fresh.add(r)
        s = an.sizealign(fr.fn.mod, i.x)[0]
        n = self.val(fr, i.ops[0]) if i.ops else C(1)
        if isinstance(n, tuple):
            st.cells[(r, "size")] = scale(n, s)
        self.classify(fr.fn, i.res, fr.vals[i.res]) if not i.ops else None
        return st

    def op_gep(self, fr, i, st):
        b = self.val(fr, i.ops[0], "ptr")
        if not isinstance(b, Ptr):
            fr.vals[i.res] = Ptr("*" + fr.prefix + i.res, ZERO)
            return st
        t = an.short(i.x)
        if t in self.classes and not b.off[0] and not b.off[1] and b.root not in self.cls:
            self.cls[b.root] = self.classes[t]
        steps, sym = [], []
        off = an._gep_step(fr.fn.mod, i.x, i.ops[1:], 0, steps, sym)
        e = add(b.off, C(off))
        for v, s in sym:
            x = self.val(fr, v)
            if not isinstance(x, tuple):
                x = self.unknown(fr, i.res + "#", "i64", st)
            e = add(e, x, s)
        fr.vals[i.res] = Ptr(b.root, e)
        return st

    def op_load(self, fr, i, st):
        p = self.val(fr, i.ops[0], "ptr")
        v = None
        if isinstance(p, Ptr) and not p.off[0]:
            fl = self.field(p, i.ty, fr.fn)
            if fl is not None:
                v = self.cell(st, p.root, fl)
            elif p.root.startswith("alloca:"):
                v = st.cells.get((p.root, p.off[1]))
                if v is None and bits(i.ty):
                    v = self.unknown(fr, i.res, i.ty, st)
                    st.cells[(p.root, p.off[1])] = v
                elif i.ty == "ptr":
                    v = None
        if v is None:
            v = self.unknown(fr, i.res, i.ty, st) if bits(i.ty) or i.ty == "ptr" else None
            if isinstance(v, Ptr):
                self.classify(fr.fn, i.res, v)
            if isinstance(v, tuple) and isinstance(p, Ptr):
                if i.ty == "i8":
                    t = st.cells.get((p.root, "term")) if p.root in self.cls else None
                    if t is None and p.root in self.cls and p.root not in self.fresh:
                        self.cell(st, p.root, "size")
                        t = st.cells.get((p.root, "term"))
                    if t is not None:
                        self.byte[fr.prefix + i.res] = (p.root, p.off, key(t))
                pl = an.place(fr.fn, i.ops[0])
                el = self.element.get(pl[:2]) if pl else None
                if el and p.root in self.cls and self.cls[p.root].name == el[0]:
                    st.add(add(add(self.cell(st, p.root, el[1]), v, -1), C(-1)))
                tr = self.trust.get(pl[:2]) if pl else None
                if tr and p.root in self.cls and self.cls[p.root].name == pl[0]:
                    st.add(add(self.cell(st, p.root, tr), v, -1))
                if p.root.startswith("@"):
                    r = table_range(fr.fn.mod, p.root[1:], i.ty)
                    if r:
                        st.add(add(v, C(-r[0])))
                        st.add(add(C(r[1]), v, -1))
        fr.vals[i.res] = v
        return st

    def field(self, p, ty, fn):
        cl = self.cls.get(p.root)
        if cl is None or p.off[0]:
            return None
        for fl, (off, sz) in cl.fields.items():
            if p.off[1] == off and sz * 8 == bits(ty):
                return fl
        return None

    def op_store(self, fr, i, st):
        p = self.val(fr, i.ops[1], "ptr")
        v = self.val(fr, i.ops[0], i.ty)
        if i.ty == "ptr":
            self.handout(fr, i, i.ops[0], st, None)
            if isinstance(v, Ptr) and not (isinstance(p, Ptr) and p.root.startswith("alloca:")):
                self.escaped.add(v.root)
        if not isinstance(p, Ptr):
            return st
        sz = an.sizealign(fr.fn.mod, i.ty)[0]
        self.access(fr, i, st, p, C(sz), "write", "write")
        cl = self.cls.get(p.root)
        fl = self.field(p, i.ty, fr.fn)
        if fl is not None:
            st.cells[(p.root, fl)] = v if isinstance(v, tuple) else self.unknown(fr, "st%s.%d" % (i.block.name, i.idx), i.ty, st)
            st.dirty.add(p.root)
            self.modified.add(p.root)
            self.others(fr, i, st, p.root)
        elif p.root.startswith("alloca:") and not p.off[0]:
            if isinstance(v, tuple):
                st.cells[(p.root, p.off[1])] = v
            else:
                st.cells.pop((p.root, p.off[1]), None)
        elif p.root.startswith("alloca:"):
            for ck in [k for k in st.cells if k[0] == p.root and isinstance(k[1], int)]:
                del st.cells[ck]
        else:
            pl = an.place(fr.fn, i.ops[1])
            el = self.element.get(pl[:2]) if pl else None
            if el and cl is not None and cl.name == el[0] and isinstance(v, tuple):
                c = self.cell(st, p.root, el[1])
                self.oblige(fr, i, c is not None and st.proves(v) and st.proves(add(add(c, v, -1), C(-1))), "element",
                            "%s.%s is %s, not below %s" % (pl[0], pl[1], show(v), show(c) if c else "?"))
            self.wrote(fr, i, st, p, C(sz), zero=isinstance(v, tuple) and not v[0] and v[1] == 0)
        return st

    def others(self, fr, i, st, root):
        """other names the object may have"""
        if root in self.fresh:
            return
        cl = self.cls.get(root)
        for r in {k[0] for k in st.cells}:
            if r != root and self.cls.get(r) is cl and r not in self.fresh:
                d = r in st.dirty
                self.havoc(st, r, "%salias%s.%d:%s" % (fr.prefix, i.block.name, i.idx, r))

    def wrote(self, fr, i, st, p, n, zero=False, term=None):
        """n bytes written at p: what becomes of the terminator of a string"""
        cl = self.cls.get(p.root)
        if cl is None or not cl.val:
            return
        vo = cl.val[0]
        if (p.root, "term") not in st.cells and p.root not in self.fresh:
            self.cell(st, p.root, "size")
        t = st.cells.get((p.root, "term"))
        end = add(p.off, n)
        if st.proves(add(C(vo), end, -1)):
            return
        if term is not None:
            st.cells[(p.root, "term")] = add(term, C(-vo))
            st.dirty.add(p.root)
        elif zero and not n[0] and n[1] >= 1 and st.proves(add(p.off, C(-vo))):
            st.cells[(p.root, "term")] = add(p.off, C(-vo))
            st.dirty.add(p.root)
        elif t is not None:
            at = add(t, C(vo))
            if st.proves(add(at, end, -1)) or st.proves(add(add(p.off, at, -1), C(-1))):
                return
            st.cells.pop((p.root, "term"), None)
            st.dirty.add(p.root)

    def arith(f):
        def g(self, fr, i, st):
            a, b = self.val(fr, i.ops[0], i.ty), self.val(fr, i.ops[1], i.ty)
            v = f(self, fr, i, st, a, b) if isinstance(a, tuple) and isinstance(b, tuple) else None
            if v is None:
                v = self.unknown(fr, i.res, i.ty, st)
            fr.vals[i.res] = v
            return st
        return g

    @arith
    def op_add(self, fr, i, st, a, b):
        return add(a, b)

    @arith
    def op_sub(self, fr, i, st, a, b):
        return add(a, b, -1)

    @arith
    def op_mul(self, fr, i, st, a, b):
        if not b[0]:
            return scale(a, b[1])
        if not a[0]:
            return scale(b, a[1])

    @arith
    def op_shl(self, fr, i, st, a, b):
        if not b[0] and 0 <= b[1] < 40:
            return scale(a, 1 << b[1])

    @arith
    def op_udiv(self, fr, i, st, a, b):
        if not b[0] and b[1] > 0 and st.proves(a):
            return self.rng(fr, i, i.ty, st, lambda v: add(a, v, -b[1]), lambda v: add(add(scale(v, b[1]), a, -1), C(b[1] - 1)))

    op_sdiv = op_udiv

    @arith
    def op_lshr(self, fr, i, st, a, b):
        if not b[0] and 0 <= b[1] < 40 and st.proves(a):
            k = 1 << b[1]
            return self.rng(fr, i, i.ty, st, lambda v: add(a, v, -k), lambda v: add(add(scale(v, k), a, -1), C(k - 1)))

    @arith
    def op_urem(self, fr, i, st, a, b):
        cons = []
        if st.proves(a):
            cons.append(lambda v: add(a, v, -1))
        if st.proves(add(b, C(-1))):
            cons.append(lambda v: add(add(b, v, -1), C(-1)))
        return self.rng(fr, i, i.ty, st, *cons)

    @arith
    def op_and(self, fr, i, st, a, b):
        cons = []
        for x in (a, b):
            if st.proves(x):
                cons.append(lambda v, x=x: add(x, v, -1))
        return self.rng(fr, i, i.ty, st, *cons)

    @arith
    def op_or(self, fr, i, st, a, b):
        if st.proves(a) and st.proves(b):
            return self.rng(fr, i, i.ty, st, lambda v: add(v, a, -1), lambda v: add(v, b, -1), lambda v: add(add(a, b), v, -1))

    def op_zext(self, fr, i, st):
        x = self.val(fr, i.ops[0], i.x)
        if i.x == "i1" and not isinstance(x, tuple):
            fr.vals[i.res] = self.rng(fr, i, i.ty, st, lambda v: add(C(1), v, -1))
            return st
        if isinstance(x, tuple) and (st.proves(x) or not (self.issigned(x) and x[0])):
            fr.vals[i.res] = x
            return st
        fr.vals[i.res] = self.unknown(fr, i.res, i.ty, st)
        return st

    def op_sext(self, fr, i, st):
        x = self.val(fr, i.ops[0], i.x)
        n = bits(i.x)
        if isinstance(x, tuple) and n:
            if self.issigned(x) or not any(a in self.raw32 for a in x[0]) or st.proves(add(C((1 << (n - 1)) - 1), x, -1)):
                fr.vals[i.res] = x
                return st
        v = self.unknown(fr, i.res, i.ty, st)
        if isinstance(x, tuple) and len(x[0]) == 1 and not x[1]:
            (a, k), = x[0].items()
            if k == 1 and a in self.byte:
                self.byte[fr.prefix + i.res] = self.byte[a]
        fr.vals[i.res] = v
        return st

    def op_trunc(self, fr, i, st):
        x = self.val(fr, i.ops[0], i.x)
        n = bits(i.ty)
        if isinstance(x, tuple) and n > 1:
            if st.proves(x) and st.proves(add(C((1 << n) - 1), x, -1)):
                fr.vals[i.res] = x
                return st
            v = self.unknown(fr, i.res, i.ty, st)
            if st.proves(x):
                st.add(add(x, v, -1))
            self.minof[next(iter(v[0]))] = ("trunc", x)
            fr.vals[i.res] = v
            return st
        fr.vals[i.res] = self.unknown(fr, i.res, i.ty, st) if n else None
        return st

    def op_freeze(self, fr, i, st):
        fr.vals[i.res] = self.val(fr, i.ops[0], i.ty)
        return st

    op_bitcast = op_freeze

    def op_ptrtoint(self, fr, i, st):
        p = self.val(fr, i.ops[0], "ptr")
        if isinstance(p, Ptr):
            fr.vals[i.res] = add(p.off, A(self.atom("&" + p.root)))
            return st
        fr.vals[i.res] = C(0) if p is NULL else self.unknown(fr, i.res, i.ty, st)
        return st

    def op_icmp(self, fr, i, st):
        fr.vals[i.res] = self.rng(fr, i, "i8", st, lambda v: add(C(1), v, -1))
        return st

    def op_select(self, fr, i, st):
        vals = [self.val(fr, i.ops[1], i.ty), self.val(fr, i.ops[2], i.ty)]
        if i.ty == "i1":
            return self.op_icmp(fr, i, st)
        nm = fr.prefix + i.res
        a, b = st.copy(), st.copy()
        self.assume(fr, i.ops[0], True, a)
        self.assume(fr, i.ops[0], False, b)
        sides = [(s, v) for s, v in ((a, vals[0]), (b, vals[1])) if not s.dead]
        if not sides:
            return None
        new = i.ty == "ptr" and len({v.root for _, v in sides if isinstance(v, Ptr)}) > 1
        if new:
            self.onename(fr, i.res, [v for _, v in sides], [s for s, _ in sides])
        out, m = self.merge([(s, None) for s, _ in sides], [] if new else [(i.res, nm, [v for _, v in sides])], nm, False)
        if new:
            return out
        v = m.get(i.res)
        if v is None:
            v = self.unknown(fr, i.res, i.ty, out) if bits(i.ty) or i.ty == "ptr" else None
        fr.vals[i.res] = v
        # a limit far above what can be allocated does not change a size
        if len(sides) == 2 and isinstance(v, tuple) and bits(i.ty):
            for k in (0, 1):
                x, y = vals[k], vals[1 - k]
                if isinstance(x, tuple) and not x[0] and isinstance(y, tuple):
                    lim = x[1] % (1 << bits(i.ty))
                    s = sides[1 - k][0]
                    z = y
                    if len(y[0]) == 1 and not y[1]:
                        t = self.minof.get(next(iter(y[0])))
                        if t and t[0] == "trunc":
                            z = t[1]
                    o = sides[k][0]
                    if lim >= TALLOC_LIMIT and s.proves(add(C((1 << bits(i.ty)) - 1), z, -1)) and o.proves(add(z, C(TALLOC_LIMIT), -1)) and v[0]:
                        self.minof[next(iter(v[0]))] = ("min", z)
        return out

    # ---- calls ------------------------------------------------------------------------------------------------
    def op_call(self, fr, i, st):
        n = cname(i)
        b = n.lstrip("_")
        if n.startswith("llvm."):
            h = n.split(".")[1]
            if h in ("dbg", "lifetime", "assume", "va_start", "va_end", "va_copy", "stacksave", "stackrestore"):
                if i.res:
                    fr.vals[i.res] = self.unknown(fr, i.res, i.ty, st)
                return st
            if h in ("memcpy", "memmove", "memset"):
                return self.block(fr, i, st, h)
            if h in ("umin", "umax", "smin", "smax"):
                x, y = self.num(fr, i, i.ops[0], i.ty, st), self.num(fr, i, i.ops[1], i.ty, st)
                s = 1 if h.endswith("max") else -1
                v = self.rng(fr, i, i.ty, st, lambda v: add(scale(v, s), x, -s), lambda v: add(scale(v, s), y, -s))
                fr.vals[i.res] = v
                return st
            if h == "expect":
                fr.vals[i.res] = self.val(fr, i.ops[0], i.ty)
                return st
            if i.res:
                fr.vals[i.res] = self.unknown(fr, i.res, i.ty, st)
            return st
        if b in ("memcpy", "memmove", "memset"):
            return self.block(fr, i, st, b)
        a = self.allocation(fr, i, st, b)
        if a is not None:
            return a
        if b in ("vsnprintf", "snprintf", "sprintf", "vsprintf", "strcpy", "strncpy", "strcat", "strncat", "fread", "read", "sort_r",
                 "qsort", "memccpy", "stpcpy", "gets", "fgets"):
            return self.writer(fr, i, st, b)
        if b == "talloc_get_size":
            p = self.val(fr, i.ops[0], "ptr")
            v = self.cell(st, p.root, "size") if isinstance(p, Ptr) and self.counted(p.root, st) else None
            fr.vals[i.res] = v if v is not None else self.unknown(fr, i.res, i.ty, st)
            return st
        g = self.P.functions.get(self.P.uname(fr.fn.mod, n)) if not i.x["callee"].startswith("%") else None
        S = self.sums.get(g.uname) if g is not None else None
        if g is not None and g.blocks and self.enters(g, fr, S):
            vals = [self.val(fr, o, t) for o, t in zip(i.ops, i.x["tys"])]
            for k, (v, t) in enumerate(zip(vals, i.x["tys"])):
                if v is None:
                    vals[k] = self.unknown(fr, "arg%s.%d.%d" % (i.block.name, i.idx, k), t, st) if bits(t) or t == "ptr" else None
            # the same question has the same answer
            mk = None
            if i.res and bits(i.ty) and all(isinstance(v, tuple) for v in vals) and self.pure(g):
                mk = (g.uname,) + tuple(key(v) for v in vals)
                if mk in st.memo:
                    fr.vals[i.res] = st.memo[mk]
                    return st
            r = self.enter(g, vals, st.copy(), "%s%s.%d/" % (fr.prefix, i.block.name, i.idx), fr.depth + 1)
            if r is None:
                return None
            if i.res:
                v = r[0]
                if v is None:
                    v = self.unknown(fr, i.res, i.ty, r[1]) if bits(i.ty) or i.ty == "ptr" else None
                fr.vals[i.res] = v
                self.classify(fr.fn, i.res, v)
                if mk is not None and isinstance(v, tuple):
                    r[1].memo[mk] = v
            return r[1]
        # not entered
        W = self.may_write(fr.fn, i) if b not in PURE else set()
        args = {}
        sig = None
        if g is not None:
            sig = an.fn_sig(g.mod, g)[1]
        for k, (o, t) in enumerate(zip(i.ops, i.x["tys"])):
            if t != "ptr":
                continue
            p = self.val(fr, o, "ptr")
            if isinstance(p, Ptr):
                args[p.root] = k
                if g is not None:
                    s = an.ptr_struct(g.mod, sig[k]) if sig and len(sig) == len(i.ops) else None
                    self.handout(fr, i, o, st, s)
                if p.root.startswith("alloca:") and b not in PURE:
                    for ck in [c for c in st.cells if c[0] == p.root and isinstance(c[1], int)]:
                        del st.cells[ck]
        if g is not None or n == "?":
            nr = self.noreturn(fr, i)
            if not nr:
                self.settle(fr, i, st, "calls %s" % n, None if W and S is None else set(args))
            if S is not None:
                return self.use(fr, i, g, S, st)
            self.escaped |= set(args)
            if not nr:
                self.apply_mods(fr, i, st, {"!" + w for w in W}, [])
        if i.res:
            v = self.unknown(fr, i.res, i.ty, st) if bits(i.ty) or i.ty == "ptr" else None
            fr.vals[i.res] = v
            self.classify(fr.fn, i.res, v)
        return st

    def pure(self, g):
        """the result depends on the arguments alone"""
        c = self.__dict__.setdefault("_pure", {})
        if g.uname in c:
            return c[g.uname]
        c[g.uname] = False
        ok = not any(p[0] == "ptr" for p in g.params)
        for i in g.insts():
            if not ok:
                break
            if i.op in ("store", "load"):
                base = an.path(g, i.ops[-1]).base
                d = g.defs.get(base)
                if d is not None and d.op == "alloca":
                    continue
                ok = i.op == "load" and base.startswith("@") and base not in self.changed(g.mod)
            elif i.op == "call":
                n = cname(i)
                h = self.P.functions.get(self.P.uname(g.mod, n))
                ok = n.startswith("llvm.") or i.block.term.op == "unreachable" or (h is not None and h.blocks and self.pure(h))
        c[g.uname] = ok
        return ok

    def changed(self, M):
        """globals of a module that are stored to, or whose address goes anywhere"""
        c = self.__dict__.setdefault("_chg", {})
        if M not in c:
            out = set()
            for f in self.P.functions.values():
                if f.mod is not M:
                    continue
                for i in f.insts():
                    for n, o in enumerate(i.ops):
                        o = o[0] if isinstance(o, tuple) else o
                        if isinstance(o, str) and (o.startswith("@") or i.op in ("store", "call", "phi", "select", "ret")):
                            b = an.path(f, o).base if o.startswith(("@", "%")) else o
                            if isinstance(b, str) and b.startswith("@") and i.op not in ("load", "gep", "icmp"):
                                out.add(b)
            c[M] = out
        return c[M]

    def noreturn(self, fr, i):
        return fr.fn.blocks[i.block.name].term.op == "unreachable"

    def enters(self, g, fr, S):
        if fr.depth >= self.DEPTH or g.uname in self.stack or g.varargs:
            return False
        n = sum(len(b.insts) for b in g.order)
        l = len(self.loops(g)[1])
        if S is not None and not S.ok:
            return n <= self.MAXINST and l == 0 and any(t != "ptr" or True for t in ())  or (n <= self.MAXINST and l <= self.MAXLOOPS)
        if g.internal:
            return n <= self.MAXINST and l <= self.MAXLOOPS
        if S is not None and S.cls is not None:
            return False
        return (bits(g.ret) > 0 or g.ret == "ptr") and n <= 60 and l <= 1

    def alloc(self, fr, i, st, size, zero, root=None):
        r = root or "new:" + fr.prefix + i.res
        # nothing may be left of an object made here the last time round
        for ck in [k for k in st.cells if k[0] == r]:
            del st.cells[ck]
        st.dirty.discard(r)
        self.fresh.add(r)
        self.zeroed.discard(r)
        if zero:
            self.zeroed.add(r)
        if len(size[0]) == 1 and not size[1]:
            (a, k), = size[0].items()
            m = self.minof.get(a)
            if k == 1 and m and m[0] == "min":
                size = m[1]
        st.cells[(r, "size")] = size
        fr.vals[i.res] = Ptr(r, ZERO)
        s = an.pointee(fr.fn, i.res)
        if s in self.classes and r not in self.cls:
            self.cls[r] = self.classes[s]
        return r

    def allocation(self, fr, i, st, b):
        def n(k):
            return self.num(fr, i, i.ops[k], i.x["tys"][k], st)

        def prod(x, y):
            return scale(x, y[1]) if not y[0] else scale(y, x[1]) if not x[0] else None
        if b in ("talloc_named_const", "talloc_size", "talloc_zero", "talloc_zero_size"):
            self.alloc(fr, i, st, n(1), "zero" in b)
        elif b in ("talloc_array", "talloc_zero_array"):
            s = prod(self.unmin(n(1)), self.unmin(n(2)))
            if s is None:
                return None
            self.alloc(fr, i, st, s, "zero" in b)
        elif b == "malloc" or b == "yy_alloc":
            if len(i.ops) != 1:
                return None
            self.alloc(fr, i, st, n(0), False)
        elif b == "calloc":
            s = prod(n(0), n(1))
            if s is None:
                return None
            self.alloc(fr, i, st, s, True)
        elif b in ("talloc_realloc_array", "talloc_realloc", "realloc"):
            k = {"talloc_realloc_array": 1, "talloc_realloc": 1, "realloc": 0}[b]
            old = self.val(fr, i.ops[k], "ptr")
            s = prod(self.unmin(n(2)), self.unmin(n(3))) if b == "talloc_realloc_array" else n(k + 1)
            if s is None:
                return None
            cells = {}
            if isinstance(old, Ptr) and not old.off[0] and not old.off[1]:
                cl = self.cls.get(old.root)
                if cl is not None:
                    for fl in list(cl.fields) + (["term"] if cl.val else []):
                        x = self.cell(st, old.root, fl) if fl != "term" else st.cells.get((old.root, fl))
                        if x is not None:
                            cells[fl] = x
                dirty = old.root in st.dirty
            else:
                cl, dirty = None, False
            r = self.alloc(fr, i, st, s, False)
            if cl is not None:
                self.cls[r] = cl
                for fl, x in cells.items():
                    st.cells[(r, fl)] = x
                st.dirty.discard(old.root)
                st.dirty.add(r)
        else:
            return None
        return st

    def unmin(self, e):
        if len(e[0]) == 1 and not e[1]:
            (a, k), = e[0].items()
            m = self.minof.get(a)
            if k == 1 and m and m[0] == "min":
                return m[1]
        return e

    def block(self, fr, i, st, b):
        d, s = self.val(fr, i.ops[0], "ptr"), self.val(fr, i.ops[1], "ptr") if b != "memset" else None
        n = self.num(fr, i, i.ops[2], i.x["tys"][2], st)
        self.access(fr, i, st, d, n, "write", b)
        if isinstance(s, Ptr):
            self.access(fr, i, st, s, n, "read", b + " from")
        if i.res:
            fr.vals[i.res] = d
        if not isinstance(d, Ptr):
            return st
        cl = self.cls.get(d.root)
        if d.root.startswith("alloca:") and cl is None:
            for ck in [k for k in st.cells if k[0] == d.root and isinstance(k[1], int)]:
                del st.cells[ck]
            if b == "memset" and const_int(i.ops[1]) == 0 and not n[0] and not d.off[0]:
                for o in range(d.off[1], d.off[1] + n[1], 1):
                    st.cells[(d.root, o)] = C(0)
            elif isinstance(s, Ptr) and s.root.startswith("alloca:") and not s.off[0] and not n[0] and not d.off[0]:
                for ck, v in list(st.cells.items()):
                    if ck[0] == s.root and isinstance(ck[1], int) and s.off[1] <= ck[1] < s.off[1] + n[1]:
                        st.cells[(d.root, ck[1] - s.off[1] + d.off[1])] = v
            return st
        if cl is None:
            return st
        if d.off[0] or d.off[1] < cl.size:
            self.modified.add(d.root)
        if not d.off[0] and d.off[1] < cl.size and b == "memset" and const_int(i.ops[1]) == 0:
            for fl, (o, sz) in cl.fields.items():
                if st.proves(add(add(d.off, n), C(-(o + sz)))) and d.off[1] <= o:
                    st.cells[(d.root, fl)] = C(0)
                    st.dirty.add(d.root)
                else:
                    st.cells[(d.root, fl)] = self.unknown(fr, "ms%s.%d.%s" % (i.block.name, i.idx, fl), "i%d" % (8 * sz), st)
                    st.dirty.add(d.root)
            if cl.val and st.proves(add(add(d.off, n), C(-(cl.val[0] + 1)))):
                st.cells[(d.root, "term")] = C(0)
            self.others(fr, i, st, d.root)
            return st
        if isinstance(s, Ptr) and not d.off[0] and not d.off[1] and not s.off[0] and not s.off[1] and self.cls.get(s.root) is cl \
                and st.proves(add(n, C(-cl.size))):
            for fl in cl.fields:
                st.cells[(d.root, fl)] = self.cell(st, s.root, fl)
            st.cells.pop((d.root, "term"), None)
            if cl.val:
                t = st.cells.get((s.root, "term"))
                if t is not None and st.proves(add(add(n, C(-(cl.val[0] + 1))), t, -1)):
                    st.cells[(d.root, "term")] = t
            st.dirty.add(d.root)
            self.others(fr, i, st, d.root)
            return st
        zero = b == "memset" and const_int(i.ops[1]) == 0
        if cl.val and isinstance(s, Ptr) and self.cls.get(s.root) is cl:
            # copying up to and including the terminator puts one at the end of the copy
            if s.root in self.cls and (s.root, "term") not in st.cells and s.root not in self.fresh:
                self.cell(st, s.root, "size")
            t = st.cells.get((s.root, "term"))
            if t is not None:
                at = add(t, C(cl.val[0]))
                if st.proves(add(at, s.off, -1)) and st.proves(add(add(add(s.off, n), at, -1), C(-1))):
                    self.wrote(fr, i, st, d, n, term=add(add(at, s.off, -1), d.off))
                    return st
        self.wrote(fr, i, st, d, n, zero=zero)
        if not d.off[0] and d.off[1] < cl.size and not (cl.val and d.off[1] >= cl.val[0]):
            for fl, (o, sz) in cl.fields.items():
                if d.off[1] < o + sz:
                    st.cells[(d.root, fl)] = self.unknown(fr, "bk%s.%d.%s" % (i.block.name, i.idx, fl), "i%d" % (8 * sz), st)
                    st.dirty.add(d.root)
        return st

    def writer(self, fr, i, st, b):
        d = self.val(fr, i.ops[0], "ptr")
        res = None
        if b in ("vsnprintf", "snprintf"):
            n = self.num(fr, i, i.ops[1], "i64", st)
            if isinstance(d, Ptr) and (n[0] or n[1]):
                self.access(fr, i, st, d, n, "write", b)
                if st.proves(add(n, C(-1))):
                    self.wrote(fr, i, st, d, n, term=add(add(d.off, n), C(-1)))
                else:
                    self.wrote(fr, i, st, d, n)
        elif b == "sprintf":
            lo, hi = self.formatted(fr, i, st)
            if isinstance(d, Ptr):
                if hi is None:
                    if self.counted(d.root, st):
                        self.oblige(fr, i, False, "write", "sprintf of unknown length")
                else:
                    self.access(fr, i, st, d, C(hi + 1), "write", b)
                    self.wrote(fr, i, st, d, C(hi + 1))
            if i.res:
                res = self.unknown(fr, i.res, "i64", st)
                st.add(add(res, C(-lo)))
                if hi is not None:
                    st.add(add(C(hi), res, -1))
        elif b in ("sort_r", "qsort"):
            n, s = self.num(fr, i, i.ops[1], "i64", st), self.num(fr, i, i.ops[2], "i64", st)
            t = scale(n, s[1]) if not s[0] else None
            if isinstance(d, Ptr) and self.counted(d.root, st):
                if t is None:
                    self.oblige(fr, i, False, "write", b + " of unknown length")
                else:
                    self.access(fr, i, st, d, t, "write", b)
        elif b in ("fread", "read", "strncpy", "fgets"):
            k = 1 if b == "read" else 0
            d = self.val(fr, i.ops[k], "ptr")
            n = self.num(fr, i, i.ops[2] if b != "fgets" else i.ops[1], "i64", st)
            if b == "fread":
                m = self.num(fr, i, i.ops[1], "i64", st)
                n = scale(n, m[1]) if not m[0] else scale(m, n[1]) if not n[0] else None
            if isinstance(d, Ptr) and self.counted(d.root, st):
                if n is None:
                    self.oblige(fr, i, False, "write", b + " of unknown length")
                else:
                    self.access(fr, i, st, d, n, "write", b)
                    self.wrote(fr, i, st, d, n)
        elif isinstance(d, Ptr) and self.counted(d.root, st):
            self.oblige(fr, i, False, "write", "%s has no limit" % b)
            self.wrote(fr, i, st, d, A(self.atom("?")))
        if i.res:
            if res is None:
                res = self.unknown(fr, i.res, i.ty, st) if i.ty != "ptr" else d
                if isinstance(res, tuple) and i.ty == "i32":
                    self.raw32.discard(fr.prefix + i.res)
            fr.vals[i.res] = res
        return st

    def formatted(self, fr, i, st):
        """least and greatest length of what sprintf produces"""
        import re
        f = fr.fn.mod.cstr(an.path(fr.fn, i.ops[1]).base[1:]) if isinstance(i.ops[1], str) and i.ops[1].startswith("@") else None
        if f is None:
            return 0, None
        if isinstance(f, bytes):
            f = f.decode("latin-1")
        f = f.rstrip("\0")
        lo = hi = 0
        k = 2
        for m in re.finditer(r"%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j)?([a-zA-Z%])|[^%]", f):
            if m[0][0] != "%" or m[5] == "%":
                lo += 1
                hi = hi + 1 if hi is not None else None
                continue
            w = int(m[2] or 0)
            x = self.val(fr, i.ops[k]) if k < len(i.ops) else None
            k += 1
            base = {"o": 8, "u": 10, "d": 10, "i": 10, "x": 16, "X": 16}.get(m[5])
            if m[5] == "c":
                a, z = 1, 1
            elif base and isinstance(x, tuple):
                l, h = st.low(x), st.high(x)
                if l in (None, "dead") or h in (None, "dead") or l < 0:
                    a, z = 1, 24
                else:
                    a, z = digits(l, base), digits(h, base)
                if "#" in m[1]:
                    z += 2
                if "+" in m[1] or " " in m[1]:
                    z += 1
            else:
                a, z = 0, None
            lo += max(a, w)
            hi = None if hi is None or z is None else hi + max(z, w)
        return lo, hi


def digits(n, b):
    k = 1
    while n >= b:
        n //= b
        k += 1
    return k


def table_range(M, g, ty):
    """least and greatest element of a constant table of integers"""
    import re
    c = M.__dict__.setdefault("_polytab", {})
    if g in c:
        return c[g]
    c[g] = None
    e = M.globals.get(g)
    if e and e[2] and re.match(r"\[\d+ x i\d+\]$", str(e[1]) or ""):
        if not any(i.op == "store" and an.path(f, i.ops[1]).base == "@" + g for f in M.functions.values() for i in f.insts()):
            xs = [int(x) for x in re.findall(r"i\d+ (-?\d+)", e[2])]
            if xs and min(xs) >= 0:
                c[g] = (min(xs), max(xs))
    return c[g]
