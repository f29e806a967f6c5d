"""C19: fixed tables and buffers are never overrun, and the machine stack does not grow with the input."""
import re
from .. import an, ranges
from ..an import const_int, path

RULE = ("Every access to an array of fixed size - table, local buffer or member - is at a position that lies in the array: by the "
        "range of the index, from how it is made, comparisons that hold there, constant tables, and invariants of members proved over "
        "all their stores, with linear arithmetic. Every block copied into or out of such an array fits. Stack allocations have a fixed "
        "size and are not repeated in a loop. Programs, operations and operands of a template are taken by numbers below their count.")
ASSUME = ["sums of sizes and indices do not wrap around", "variables of enumeration type hold enumerators, and parameters other than \"none\"",
          "an operation's argument count is the number of arguments pushed for it (C11), on a stack of fixed size"]
GEN = ("handlebars.lex.c", "handlebars.tab.c")


def run(ctx, rep):
    sub = examine(ctx.raw)
    if sub.bad_:
        # what a function relies on may be established where it is called: the same place, seen with its callers
        other = {}
        for c, a in examine(ctx.inl).all:
            other.setdefault((a[0], a[2]), []).append(c)
        sub.all = [(c or all(other.get((a[0], a[2]), [False])), a) for c, a in sub.all]
    sub.into(rep)
    counted(ctx.inl, rep)
    rep.floor("counted", 12, "accesses by number to the parts of a template")
    rep.floor("index", 60, "accesses to arrays of fixed size")
    rep.floor("block", 10, "blocks copied")
    rep.floor("stack", 30, "stack allocations")


# the parts of a compiled template and the members that count them
COUNTED = {("handlebars_module", "programs"): "program_count", ("handlebars_module", "opcodes"): "opcode_count",
           ("handlebars_program", "children"): "children_length", ("handlebars_program", "opcodes"): "opcodes_length",
           ("handlebars_program", "decorators"): "decorators_length", ("handlebars_operand_array", "array"): "count"}


def counted(P, rep):
    """an access by number to the programs, operations and operands of a template is at a number that is there"""
    def load(f, v):
        d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
        return an.place(f, d.ops[0]) if d is not None and d.op == "load" else None

    def bounds(f, i, idx):
        """comparisons with a count that hold for the index: [(member, strict)]"""
        out = []
        low = any(isinstance(fc[1], str) and an.strip(f, fc[1]) == an.strip(f, idx) and const_int(fc[2]) is not None and
                  (fc[0] in ("sge", "ugt", "uge") and const_int(fc[2]) >= 0 or fc[0] == "sgt" and const_int(fc[2]) >= -1) for fc in an.dom_facts(i))
        d = f.defs.get(an.strip(f, idx))
        low = low or d is not None and d.op in ("phi", "add", "zext")
        for fc in an.dom_facts(i):
            a, b, pr = fc[1], fc[2], fc[0]
            if pr in ("ugt", "sgt", "uge", "sge"):
                a, b, pr = b, a, {"ugt": "ult", "sgt": "slt", "uge": "ule", "sge": "sle"}[pr]
            if pr in ("ult", "slt", "ule", "sle", "ne") and isinstance(a, str) and an.strip(f, a) == an.strip(f, idx):
                pl = load(f, b)
                if pl and pl[1] in COUNTED.values():
                    out.append((pl[1], pr in ("ult", "slt", "ne") and (pr[0] != "s" or low)))
        return out

    for f in P.functions.values():
        if f.mod.unit.endswith(GEN) or f.avail:
            continue
        for i in f.insts():
            if i.op != "gep" or len(i.ops) != 2 or const_int(i.ops[1]) is not None:
                continue
            pl = load(f, i.ops[0])
            if not pl or pl[:2] not in COUNTED:
                continue
            own = COUNTED[pl[:2]]
            idx = i.ops[1]
            bs = bounds(f, i, idx)
            il = load(f, idx)
            if il and il[1] == own:
                continue        # the place behind the last, in a table being filled
            key = "%s|%s.%s" % (f.name, pl[0], pl[1])
            if bs:
                rep.check(any(s for m, s in bs if m == own), "counted", key,
                          i.where(), "%s: an access to %s of a template is not kept below their number" % (f.name, pl[1]))
            elif pl[:2] == ("handlebars_module", "programs") and (f.defs.get(an.strip(f, idx)) is None or f.defs[an.strip(f, idx)].op == "load"):
                rep.bad("counted", key, i.where(), "%s: a program of a template is taken without asking how many there are" % f.name)


class Findings:
    def __init__(self):
        self.all, self.bad_ = [], 0

    def check(self, cond, *a):
        self.all.append((bool(cond), a))
        self.bad_ += not cond

    def bad(self, *a):
        self.check(False, *a)

    def into(self, rep):
        for c, a in self.all:
            rep.check(c, *a)


def examine(P):
    R = ranges.Ranges(P)
    rep = Findings()
    for f in P.functions.values():
        if f.mod.unit.endswith(GEN) or f.avail:
            continue
        indices(P, R, f, rep)
        blocks(P, R, f, rep)
        stack(P, R, f, rep)
    return rep


def arr(x):
    m = re.match(r"\[(\d+) x (.*)\]$", str(x))
    return (int(m[1]), m[2]) if m else None


def indices(P, R, f, rep):
    for i in f.insts():
        if i.op != "gep":
            continue
        a = arr(i.x)
        if not a or not a[0]:
            continue
        n = a[0]
        idx = i.ops[2] if len(i.ops) > 2 else None
        if idx is None:
            continue
        use = uses(f, i)
        if not use:
            continue
        c = const_int(idx)
        key = "%s|%s" % (f.name, i.where().split(":")[0])
        if c is not None:
            rep.check(0 <= c < n or c == n and not deref(f, i), "index", key + "|const", i.where(), "%s reaches element %d of %d" % (f.name, c, n))
            continue
        ok, r = R.within(f, idx, 0, n - 1, i.block)
        rep.check(ok, "index", key + "|" + str(n), i.where(), "%s: an index into %d elements may be %s" % (f.name, n, show(r)))


def show(r):
    return "anything" if r[1] - r[0] > 1 << 40 else "from %d to %d" % r


def uses(f, i):
    return bool(f.users.get(i.res))


def deref(f, i):
    return any(u.op == "load" or u.op == "store" and u.ops[1] == i.res for u in f.users.get(i.res, []))


def extent(P, f, v):
    """(bytes left, variable part) behind a pointer into an object of fixed size"""
    p = path(f, v)
    d = f.defs.get(p.base)
    M = f.mod
    if d is not None and d.op == "alloca":
        if d.ops and const_int(d.ops[0]) is None:
            return None
        n = (const_int(d.ops[0]) if d.ops else 1) or 1
        return an.sizealign(M, d.x)[0] * n, p
    if p.base.startswith("@"):
        g = M.globals.get(p.base[1:])
        if g and g[1] and arr(g[1]) and arr(g[1])[0]:
            return an.sizealign(M, g[1])[0], p
    if p.steps:
        s, fl = p.steps[-1]
        for t in ("%struct." + s,):
            fs = M.types.get(t)
            if fs:
                for k, ft in enumerate(fs):
                    if M.field(t, k) == fl and arr(ft) and arr(ft)[0]:
                        o = an.field_offset(M, t, k)
                        q = path(f, v)
                        return o + an.sizealign(M, ft)[0], q
    return None


COPIES = {"memcpy": (0, 1, 2), "memmove": (0, 1, 2), "memset": (0, None, 2), "strncpy": (0, None, 2), "memcmp": (0, 1, 2), "fread": None,
          "read": (1, None, 2), "fgets": (0, None, 1), "snprintf": (0, None, 1), "vsnprintf": (0, None, 1), "strftime": (0, None, 1)}
WILD = {"strcpy": 0, "strcat": 0, "sprintf": 0, "vsprintf": 0, "gets": 0, "stpcpy": 0, "strncat": 0}


def blocks(P, R, f, rep):
    for i in f.insts():
        if i.op != "call":
            continue
        c = i.x["callee"]
        m = re.match(r"llvm\.(memcpy|memmove|memset)", c)
        c = m[1] if m else c.replace("__", "").replace("_chk", "")
        if c in WILD and i.ops and extent(P, f, i.ops[WILD[c]]):
            rep.bad("block", "%s|%s" % (f.name, c), i.where(), "%s writes into a buffer of fixed size without saying how much" % f.name)
        sp = COPIES.get(c)
        if not sp:
            continue
        for k in sp[:2]:
            if k is None:
                continue
            e = extent(P, f, i.ops[k])
            if not e:
                continue
            size, p = e
            n = i.ops[sp[2]]
            if p.sym:
                tot = size - p.off
                # variable start: start and length together
                fs = R.within_sum(f, [(x, z) for x, z in p.sym] + [(n, 1)], size - p.off, i.block)
                rep.check(fs, "block", "%s|%s" % (f.name, c), i.where(), "%s: a block may pass the end of a buffer of %d bytes" % (f.name, size))
                continue
            ok, r = R.within(f, n, -(1 << 63), size - p.off, i.block)
            rep.check(ok, "block", "%s|%s" % (f.name, c), i.where(), "%s: a block of %s bytes may pass the end of a buffer of %d" % (f.name, show(r), size - p.off))


def stack(P, R, f, rep):
    for i in f.insts():
        if i.op != "alloca":
            continue
        n = i.ops[0] if i.ops else "1"
        loop = an.loops_containing(f, i.block) and not restored(f, i)
        rep.check(not loop, "stack", "%s|loop" % f.name, i.where(), "%s takes stack memory in a loop" % f.name)
        if const_int(n) is not None:
            continue
        d = f.defs.get(an.strip(f, n))
        ok = fixed(P, R, f, n, i.block)
        rep.check(ok, "stack", "%s|size" % f.name, i.where(), "%s takes stack memory of a size that depends on its input" % f.name)


def restored(f, i):
    """the memory is given back before it is taken again"""
    for s in i.block.insts[:i.idx]:
        if s.op == "call" and s.x["callee"].startswith("llvm.stacksave"):
            return True
    return any(s.op == "call" and s.x["callee"].startswith("llvm.stacksave") and an.inst_dominates(s, i) and an.loops_containing(f, s.block) for s in f.insts())


def fixed(P, R, f, n, b, args=None, caller=None, at=None, depth=0):
    if const_int(n) is not None:
        return True
    if args and n in args:
        return fixed(P, R, caller, args[n], at)
    d = f.defs.get(n)
    r = R.rng(f, n, b)
    if 0 <= r[0] and r[1] <= 4096:
        return True
    if d is None or depth > 12:
        return False
    sub = lambda x: fixed(P, R, f, x, b, args, caller, at, depth + 1)
    if d.op in ("add", "sub", "mul", "shl", "zext", "sext", "trunc", "freeze", "and", "or", "lshr", "udiv"):
        return all(sub(x) for x in d.ops if isinstance(x, str))
    if d.op == "phi":
        return all(sub(x) for x, _ in d.ops if x != n)
    if d.op == "select":
        return sub(d.ops[1]) and sub(d.ops[2])
    if d.op == "load":
        p = path(f, d.ops[0])
        return p.base.startswith("@") and not p.sym and constant(P, p.base[1:]) or operand(f, d.ops[0])
    if d.op == "call":
        g = P.functions.get(P.uname(f.mod, d.x["callee"]))
        return g is not None and all(fixed(P, R, g, x.term.ops[0], x, dict(zip([p[1] for p in g.params], d.ops)), f, d.block)
                                     for x in g.order if x.term.op == "ret" and x.term.ops)
    return False


def operand(f, p):
    q = path(f, p)
    return bool(q.steps) and any(s.startswith("handlebars_opcode") or s.startswith("handlebars_operand") for s, _ in q.steps)


def constant(P, g):
    return any(g in M.globals and "constant" in M.globals[g][0] for M in P.mods.values())
