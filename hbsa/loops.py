"""Recognition of counted loops over the elements of a container."""
from . import an
from .an import const_int, path


def header_phi(f, idx):
    """(phi instruction, start value, step) when idx is a counter"""
    v = an.strip(f, idx)
    off = 0
    d = f.defs.get(v)
    if d is not None and d.op in ("add", "sub") and const_int(d.ops[1]) is not None:
        off = const_int(d.ops[1]) * (1 if d.op == "add" else -1)
        v = an.strip(f, d.ops[0])
        d = f.defs.get(v)
    if d is None or d.op != "phi":
        return None
    start = step = None
    for o, lab in d.ops:
        s = an.strip(f, o)
        q = f.defs.get(s)
        if q is not None and q.op in ("add", "sub") and an.strip(f, q.ops[0]) == v and const_int(q.ops[1]) is not None:
            step = const_int(q.ops[1]) * (1 if q.op == "add" else -1)
        elif s != v:
            start = o
    if step is None or start is None:
        return None
    return d, start, step, off


def bounds(f, phi):
    """facts about the counter on the edge that enters the body: [(pred, other operand)]"""
    out = []
    h = phi.block
    for b in [h] + [x for x in f.order if an.dominates(f, h, x) and h in an.reach_blocks(f, x)]:
        if b.term.op != "br" or len(b.term.x) != 2:
            continue
        for s in b.succs:
            if h in an.reach_blocks(f, s) and any(h not in an.reach_blocks(f, o) for o in b.succs if o is not s):
                for pr, a, c in [x[:3] for x in an.edge_facts(b, s)]:
                    if not isinstance(c, str):
                        continue
                    for x, y, p in ((a, c, pr), (c, a, SWAP.get(pr, pr))):
                        z = header_phi(f, x) if isinstance(x, str) else None
                        if z and z[0] is phi:
                            out.append((p, y, z[3]))
    return out


SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def source(f, v):
    """('field', struct, name, off) / ('call', name, off) / ('const', n) / None"""
    off = 0
    for _ in range(6):
        v = an.strip(f, v)
        c = const_int(v)
        if c is not None:
            return ("const", c + off)
        d = f.defs.get(v)
        if d is None:
            for p in f.params:
                if p[1] == v:
                    return ("param", v, off)
            return None
        if d.op in ("add", "sub") and const_int(d.ops[1]) is not None:
            off += const_int(d.ops[1]) * (1 if d.op == "add" else -1)
            v = d.ops[0]
            continue
        if d.op == "load":
            pl = an.place(f, d.ops[0])
            return ("field", pl[0], pl[1], off) if pl else None
        if d.op == "call":
            return ("call", d.x["callee"], off)
        return None
    return None


def atoms(f, c, seen=None):
    seen = set() if seen is None else seen
    if c in seen:
        return []
    seen.add(c)
    d = f.defs.get(c)
    if d is None:
        return [] if const_int(c) is not None else [c]
    if d.op == "icmp":
        return [d]
    if d.op in ("and", "or", "xor", "select"):
        r = []
        for o in d.ops:
            r += atoms(f, o, seen)
        return r
    if d.op == "phi":
        r = []
        for o, lab in d.ops:
            r += atoms(f, o, seen)
            t = f.blocks[lab].term
            if t.op == "br" and len(t.x) == 2:
                r += atoms(f, t.ops[0], seen)
        return r
    if d.op in ("trunc", "zext", "freeze"):
        return atoms(f, d.ops[0], seen)
    return [d]


def is_null_test(f, a):
    if not hasattr(a, "op"):
        return False
    return a.op == "icmp" and a.ty == "ptr" and "null" in a.ops


def skipped(f, phi, block, allowed=is_null_test):
    """conditions under which an iteration of phi's loop bypasses block: [description] (empty: never, beyond `allowed`)"""
    h = phi.block
    loop = {b for b in f.order if an.dominates(f, h, b) and h in an.reach_blocks(f, b)}
    out = []
    for b in loop:
        t = b.term
        if t.op not in ("br", "switch") or len(b.succs) < 2:
            continue
        inn = [s for s in b.succs if s in loop and (s is block or s is not h and block in an.reach_blocks(f, s, lambda x: x is h))]
        by = [s for s in b.succs if s not in inn and (s is h or s in loop)]
        if inn and by and not (b is block or an.dominates(f, block, b)):
            if not all(allowed(f, a) for a in atoms(f, t.ops[0])):
                out.append(t.where() if hasattr(t, "where") else b.name)
    return out


def cover(f, call, idx, counts, callees):
    """None when the loop visits every element (or its form is not recognised), else what it misses"""
    z = header_phi(f, idx)
    if not z:
        return None
    phi, start, step, off = z
    bs = bounds(f, phi)
    sk = skipped(f, phi, call.block)
    if sk:
        return "some elements are skipped (condition at %s)" % sk[0]
    if step == 1:
        c = const_int(an.strip(f, start))
        if c is not None and c + off != 0:
            return "the loop starts at element %d" % (c + off)
        s = source(f, start)
        if s and s[0] == "field":
            return "the loop starts at element %s" % s[2]
        for pr, o, k in bs:
            if pr in ("ult", "slt", "ne"):
                s = source(f, o)
                if s and s[0] == "field" and (s[2] not in counts or s[3] - k != 0):
                    return "the loop is bounded by %s%+d" % (s[2], s[3])
                if s and s[0] == "call" and (s[1] not in callees or s[2] - k != 0):
                    return "the loop is bounded by %s()%+d" % (s[1], s[2])
                if s and s[0] == "const":
                    return "the loop is bounded by the constant %d" % s[1]
    elif step == -1:
        s = source(f, start)
        if s and s[0] == "field" and s[2] not in counts:
            return "the loop starts from %s" % s[2]
        for pr, o, k in bs:
            s2 = source(f, o)
            if s2 and s2[0] == "const" and pr in ("ugt", "sgt", "ne"):
                # body runs while phi + k > const ; element phi + off
                low = s2[1] + 1 - k if pr != "ne" else s2[1] - k + 1
                if low + off > 0:
                    return "the loop stops before element %d" % (low + off - 1)
    elif abs(step) > 1:
        return "the loop advances by %d elements" % step
    return None
