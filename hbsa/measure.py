"""Measure, then write: a loop that adds up what another loop writes into the room made for the sum.

For every element the first loop counts at least what the second writes for it, case by case (what the code tests of the element), and
the first loop sees at least the elements the second sees.  Amounts are linear in names of places, an element's address being E.
"""
from . import an
from .poly import A, C, ZERO, add, cname, key, scale, show, subst


class Shape(Exception):
    """the loops are not of a form this decides"""


class M:
    def __init__(self, f):
        self.f = f
        order = an.rpo(f)
        pos = {b: k for k, b in enumerate(order)}
        self.heads = {}
        for b in order:
            for s in b.succs:
                if s in pos and pos[s] <= pos[b]:
                    self.heads.setdefault(s, set()).add(b)
        self.bodies = {}
        for h, ls in self.heads.items():
            body, work = {h}, list(ls)
            while work:
                b = work.pop()
                if b not in body:
                    body.add(b)
                    work += b.preds
            self.bodies[h] = body

    # ---- values as linear expressions over places
    def ex(self, v, m, depth=0):
        """m: what some values stand for"""
        f = self.f
        if depth > 30:
            raise Shape("deep expression")
        if v in m:
            return m[v]
        c = an.const_int(v) if isinstance(v, str) else None
        if c is not None:
            return C(c)
        d = f.defs.get(v)
        if d is None:
            return A(v)
        if d.op in ("add", "sub"):
            return add(self.ex(d.ops[0], m, depth + 1), self.ex(d.ops[1], m, depth + 1), 1 if d.op == "add" else -1)
        if d.op == "mul":
            a, b = self.ex(d.ops[0], m, depth + 1), self.ex(d.ops[1], m, depth + 1)
            if not b[0]:
                return scale(a, b[1])
            if not a[0]:
                return scale(b, a[1])
        if d.op == "shl":
            b = self.ex(d.ops[1], m, depth + 1)
            if not b[0]:
                return scale(self.ex(d.ops[0], m, depth + 1), 1 << b[1])
        if d.op in ("zext", "sext", "freeze", "ptrtoint", "inttoptr"):
            return self.ex(d.ops[0], m, depth + 1)
        if d.op == "gep":
            p = an.path(f, v)
            e = self.ex(p.base, m, depth + 1)
            for x, z in p.sym:
                e = add(e, self.ex(x, m, depth + 1), z)
            return add(e, C(p.off))
        if d.op == "load":
            return A("[%s]" % show(self.ex(d.ops[0], m, depth + 1)))
        return A(v)

    def lit(self, c, truth, m):
        """a condition as (expression, relation), None when it says nothing of the element"""
        d = self.f.defs.get(c)
        while d is not None and d.op in ("xor", "freeze"):
            if d.op == "xor":
                truth = not truth
            c = d.ops[0]
            d = self.f.defs.get(c)
        if d is None or d.op != "icmp":
            return None
        e = add(self.ex(d.ops[0], m), self.ex(d.ops[1], m), -1)
        p = d.x if truth else an._NEG[d.x]
        return key(e), p

    # ---- one loop
    def ivs(self, h):
        """{phi: step} of what moves by a constant"""
        out = {}
        for i in h.insts:
            if i.op != "phi":
                break
            step = set()
            for o, l in i.ops:
                if self.f.blocks[l] in self.bodies[h]:
                    try:
                        e = self.ex(o, {})
                    except Shape:
                        e = ({}, 0)
                    d = add(e, A(i.res), -1)
                    step.add(d[1] if not d[0] else None)
            if len(step) == 1 and None not in step and step != {0}:
                out[i.res] = step.pop()
        return out

    def init(self, h, v):
        i = self.f.defs[v]
        r = {o for o, l in i.ops if self.f.blocks[l] not in self.bodies[h]}
        if len(r) != 1:
            raise Shape("several entries")
        return r.pop()

    def paths(self, h):
        """ways once round the loop, as lists of (block, next block)"""
        out = []

        def go(b, seen):
            if len(out) > 200:
                raise Shape("too many ways through the loop")
            for s in dict.fromkeys(b.succs):
                if s is h:
                    out.append(seen + [(b, s)])
                elif s in self.bodies[h]:
                    if any(s is x for x, _ in seen) or s in self.heads:
                        raise Shape("a loop in the loop")
                    go(s, seen + [(b, s)])
        go(h, [])
        return out

    def along(self, v, way, m, depth=0):
        """value of v at the end of the way, phis of blocks inside resolved"""
        mm = dict(m)
        for k, (b, n) in enumerate(way):
            if k + 1 < len(way) + 1 and n is not way[0][0]:
                for i in n.insts:
                    if i.op != "phi":
                        break
                    o = next(o for o, l in i.ops if self.f.blocks[l] is b)
                    mm[i.res] = self.ex(o, mm)
        return self.ex(v, mm), mm

    def range(self, h, iv, step):
        """(address of the first element, number of elements or what ends them, the controlling branch's condition)"""
        start = self.init(h, iv)
        t = h.term
        if t.op != "br" or not t.ops:
            raise Shape("loop without a condition at its head")
        inb = [s in self.bodies[h] for s in h.succs]
        if inb.count(True) != 1:
            raise Shape("loop not ended at its head")
        truth = inb[0]
        d = self.f.defs.get(t.ops[0])
        while d is not None and d.op == "xor":
            truth, d = not truth, self.f.defs.get(d.ops[0])
        if d is None or d.op != "icmp":
            raise Shape("condition")
        p = d.x if truth else an._NEG[d.x]
        s = self.ex(start, {})
        a, b = self.ex(d.ops[0], {}), self.ex(d.ops[1], {})
        diff = add(a, b, -1)
        if p[1:] in ("gt", "ge") or p in ("ugt", "uge"):
            diff, p = scale(diff, -1), {"gt": "lt", "ge": "le"}[p[1:]]
        elif p != "eq" and p != "ne":
            p = p[1:]
        k = diff[0].get(iv, 0)
        if k == 0 and p == "ne":
            # ended by an element
            e = self.ex(d.ops[0], {iv: A("E")})
            z = self.ex(d.ops[1], {})
            z = C(0) if d.ops[1] == "null" else z
            return s, ("until", show(e), show(z)), t
        rest = ({x: y for x, y in diff[0].items() if x != iv}, diff[1])
        # runs while k*iv + rest <(=) 0
        e = add(rest, s, k)
        if p == "ne":
            n = scale(e, -1) if k * step > 0 else None
        elif p in ("lt", "le") and k * step > 0:
            n = scale(e, -1)
            if p == "le":
                n = add(n, C(abs(step)))
        else:
            n = None
        if n is None:
            raise Shape("condition")
        if abs(step) != 1:
            if any(y % abs(step) for y in n[0].values()) or n[1] % abs(step):
                raise Shape("step")
            n = ({x: y // abs(step) for x, y in n[0].items()}, n[1] // abs(step))
        lo = s if step > 0 else add(add(s, n, -abs(step)), C(abs(step)))
        return lo, n, t

    def elem(self, h, iv, step):
        """what the element's address is called: an index stands for its place"""
        i = self.f.defs[iv]
        if i.ty == "ptr":
            return {iv: A("E")}
        return {iv: add(A("E"), C(0))}

    def amounts(self, h, iv, step, amount):
        """[(conditions on the element, amount)] for each way round"""
        m = self.elem(h, iv, step)
        out = []
        for way in self.paths(h):
            lits = {}
            _, mm = self.along(iv, way, m)
            bad = False
            for b, n in way:
                if b is h or b.term.op not in ("br", "switch") or len(set(b.succs)) < 2:
                    continue
                if b.term.op == "switch":
                    raise Shape("switch")
                truth = b.succs[0] is n
                l = self.lit(b.term.ops[0], truth, mm)
                if l is not None:
                    if lits.get(l[0], l[1]) == an._NEG[l[1]]:
                        bad = True
                    lits[l[0]] = l[1]
            if not bad:
                out.append((lits, amount(way, mm)))
        return out


def accumulator(m, h, v):
    """v grows in the loop: amount per way"""
    back = {o for o, l in m.f.defs[v].ops if m.f.blocks[l] in m.bodies[h]}
    if len(back) != 1:
        raise Shape("several ways back")
    o = back.pop()

    def amount(way, mm):
        e, _ = m.along(o, way, mm)
        d = add(e, A(v), -1)
        if v in d[0]:
            raise Shape("not a sum")
        return d
    return amount


def decide(f, contract):
    """None when f does not measure and write; else [(holds, where, text)] - Shape raised when it cannot be decided"""
    m = M(f)
    writes = {}
    for h, body in m.bodies.items():
        for b in body:
            for i in b.insts:
                if i.op == "call" and cname(i) in contract:
                    writes.setdefault(h, []).append(i)
    if not writes:
        return None
    out = []
    for h, calls in writes.items():
        if any(h in body and g is not h for g, body in m.bodies.items()):
            raise Shape("nested loop")
        iv2 = m.ivs(h)
        if len(iv2) != 1:
            raise Shape("what moves in the writing loop")
        (p2, s2), = iv2.items()
        lo2, n2, _ = m.range(h, p2, s2)
        cs = set(calls)

        def wrote(way, mm):
            e = ZERO
            for b, _ in way:
                for i in b.insts:
                    if i in cs:
                        e = add(e, m.ex(i.ops[2], mm))
            return e
        w = m.amounts(h, p2, s2, wrote)
        # the string written to: from where, and what room was made
        root = calls[0].ops[0]
        pre = []
        seen = set()
        while True:
            d = f.defs.get(root)
            if d is None or root in seen:
                raise Shape("the string written to")
            seen.add(root)
            if d.op == "phi":
                hd = next((x for x in m.heads if d in x.insts), None)
                if hd is not None:
                    root = m.init(hd, root)
                else:
                    ops = [o for o, _ in d.ops]
                    root = ops[0]
            elif d.op == "call" and cname(d) in contract:
                pre.append(d)
                root = d.ops[0]
            else:
                break
        if d.op != "call" or len(d.ops) not in (2, 3):
            raise Shape("room")
        size = d.ops[-1]
        # the measuring loop
        room = m.ex(size, {})
        acc = [(g, i.res) for g in m.heads if g is not h for i in g.insts if i.op == "phi" and room[0].get(i.res) == 1]
        if len(acc) != 1:
            raise Shape("no sum measured")
        g, a = acc[0]
        rest = add(room, A(a), -1)
        if len(d.ops) == 3:
            # on top of what the string holds: its length
            old = [x for x in rest[0] if x.startswith("[") and x.strip("[]").split(" ")[0] == d.ops[1] and rest[0][x] == 1]
            if len(old) != 1:
                raise Shape("room beyond the length")
            rest = add(rest, A(old[0]), -1)
        rest = add(rest, m.ex(m.init(g, a), {}))
        iv1 = m.ivs(g)
        iv1.pop(a, None)
        if len(iv1) != 1:
            raise Shape("what moves in the measuring loop")
        (p1, s1), = iv1.items()
        if abs(s1) != abs(s2):
            raise Shape("steps")
        lo1, n1, _ = m.range(g, p1, s1)
        q = m.amounts(g, p1, s1, accumulator(m, g, a))
        peel = 0
        if isinstance(n1, tuple) and n1 and n1[0] == "until":
            if n2 != n1:
                raise Shape("different ends")
            df = add(lo2, lo1, -1)
            if df[0] or df[1] % abs(s1) or df[1] < 0:
                raise Shape("different starts")
            peel = df[1] // abs(s1)
        else:
            if isinstance(n2[0], str):
                raise Shape("different ends")
            if key(add(lo1, lo2, -1)) != key(ZERO) and add(lo1, lo2, -1)[0]:
                raise Shape("different starts")
            more = add(n2, n1, -1)
            if more[0]:
                raise Shape("different lengths")
            # what the second loop sees lies within what the first saw
            ok = add(lo2, lo1, -1)[1] >= 0 and add(add(lo2, n2, abs(s1)), add(lo1, n1, abs(s1)), -1)[1] <= 0
            out.append((ok, d.where(), "measures fewer elements than it writes"))
            if not ok:
                continue
        # so much for each element besides, when the sum starts at the number of elements
        each = 0
        if not isinstance(n1[0], str) and n1[0]:
            k = {rest[0].get(x, 0) // y for x, y in n1[0].items()}
            if len(k) == 1:
                each = k.pop()
                rest = add(rest, scale(n1, each), -1)
        for lw, aw in w:
            for lq, aq in q:
                if any(lq.get(e) == an._NEG[p] for e, p in lw.items()):
                    continue
                d2 = add(add(aq, C(each)), aw, -1)
                out.append((atleast(d2, {**lq, **lw}), d.where(), "for an element it counts %s and writes %s (%s)" % (
                    show(add(aq, C(each))), show(aw), ", ".join("%s %s 0" % (show((dict(e[0]), e[1])), p) for e, p in lw.items()) or "always")))
        # elements written ahead of the loop, and what is left over
        if len(pre) != peel:
            raise Shape("%d written ahead, %d passed over" % (len(pre), peel))
        for k, c in enumerate(reversed(pre)):
            e0 = add(lo1, C(k * abs(s1)))
            least = None
            for lq, aq in q:
                least = add(rename(aq, e0), rest)
                rest2 = add(least, m.ex(c.ops[2], {}), -1)
                out.append((atleast(rest2, {}), c.where(), "counts %s for the first element and writes %s" % (
                    show(least), show(m.ex(c.ops[2], {})))))
            rest = ZERO
        if not pre:
            out.append((atleast(rest, {}), d.where(), "makes room for %s beside what it measured" % show(rest)))
    return out


def rename(e, e0):
    """the amount with the element's address put in"""
    r = ({}, e[1])
    for a, k in e[0].items():
        b = a
        if "E" in a and a.startswith("["):
            b = place(a, e0)
        r = add(r, A(b), k)
    return r


def place(a, e0):
    import re
    s = show(e0)
    return re.sub(r"(?<![%\w.])E(?![\w.])", lambda _: s, a)


def atleast(e, lits):
    """e >= 0 by lengths being at least 0, and at least 1 where they are known not to be 0"""
    c = e[1]
    for a, k in e[0].items():
        if k < 0:
            # what is zero here
            if any(t == ((a, 1),) and n == 0 and p == "eq" for (t, n), p in lits.items()):
                continue
            return False
        if k > 0 and any(t == ((a, 1),) and n == 0 and p in ("ne", "ugt") for (t, n), p in lits.items()):
            c += k
    return c >= 0
