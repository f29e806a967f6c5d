"""Analyses over the IR: layouts, pointee types, access paths, conditions, CFG facts, call graph."""
import re
from .build import AnalysisError
from .ir import operands, split_top, succ_labels, take_typed, take_type


# --- data layout ----------------------------------------------------------------------------------

def sizealign(M, t):
    c = M.__dict__.setdefault("_sa", {})
    if t in c:
        return c[t]
    c[t] = r = _sizealign(M, t)
    return r


def _sizealign(M, t):
    if t == "ptr":
        return 8, 8
    m = re.match(r"i(\d+)$", t)
    if m:
        n = int(m[1])
        b = 1
        while b * 8 < n:
            b *= 2
        return b, min(b, 16)
    if t == "float":
        return 4, 4
    if t == "double":
        return 8, 8
    if t == "x86_fp80":
        return 16, 16
    if t.startswith("["):
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        s, a = sizealign(M, m[2])
        return int(m[1]) * s, a
    if t.startswith("%"):
        f = M.types.get(t)
        if f is None:
            return 0, 1
        off, al = 0, 1
        for x in f:
            s, a = sizealign(M, x)
            al = max(al, a)
            off = (off + a - 1) // a * a + s
        return (off + al - 1) // al * al, al
    if t.startswith("{"):
        off, al = 0, 1
        for x in split_top(t[1:-1].strip()):
            s, a = sizealign(M, x)
            al = max(al, a)
            off = (off + a - 1) // a * a + s
        return (off + al - 1) // al * al, al
    if t.startswith("<"):
        return 16, 16
    return 0, 1


def field_offset(M, t, k):
    off = 0
    for i, x in enumerate(M.types[t]):
        s, a = sizealign(M, x)
        off = (off + a - 1) // a * a
        if i == k:
            return off
        off += s
    raise AnalysisError("field %s of %s" % (k, t))


def const_int(v):
    if isinstance(v, str):
        if re.match(r"-?\d+$", v):
            return int(v)
        if v == "true":
            return 1
        if v == "false":
            return 0
        if v in ("null", "zeroinitializer"):
            return 0
    return None


_gep_ce = re.compile(r"^getelementptr (?:inbounds )?(?:\(|nuw )")


def parse_gep_ce(v):
    """constant expression gep -> (type, base, indices) or None"""
    if not v.startswith("getelementptr"):
        return None
    k = v.index("(")
    p = split_top(v[k + 1:-1])
    t, _ = take_type(p[0])
    vals = [take_typed(q)[1] for q in p[1:]]
    return t, vals[0], vals[1:]


class Path:
    """address = base + off (+ symbolic indices); steps = [(struct, field name) ...] for naming"""
    __slots__ = ("base", "off", "steps", "sym")

    def __init__(self, base, off=0, steps=(), sym=()):
        self.base, self.off, self.steps, self.sym = base, off, tuple(steps), tuple(sym)

    def key(self):
        return (self.base, self.off, self.sym)

    def __repr__(self):
        return "%s+%d%s%s" % (self.base, self.off, "".join("." + f for _, f in self.steps),
                              "[%s]" % ",".join(map(str, self.sym)) if self.sym else "")


def short(sty):
    m = re.match(r'%"?(?:struct|union)\.([\w]+?)(?:\.\d+)?"?$', sty)
    return m[1] if m else sty


def _gep_step(M, t, idx, off, steps, sym):
    """apply the indices of one gep"""
    first = True
    cur = t
    for v in idx:
        c = const_int(v)
        if first:
            first = False
            s, _ = sizealign(M, cur)
            if c is None:
                sym.append((v, s))
            else:
                off += c * s
            continue
        if cur.startswith("%") or cur.startswith("{"):
            if c is None:
                raise AnalysisError("symbolic struct index")
            if cur.startswith("%"):
                off += field_offset(M, cur, c)
                steps.append((short(cur), M.field(cur, c)))
                cur = M.types[cur][c]
            else:
                fl = split_top(cur[1:-1].strip())
                o = 0
                for i, x in enumerate(fl):
                    s, a = sizealign(M, x)
                    o = (o + a - 1) // a * a
                    if i == c:
                        break
                    o += s
                off += o
                cur = fl[c]
        elif cur.startswith("["):
            m = re.match(r"\[(\d+) x (.*)\]$", cur)
            cur = m[2]
            s, _ = sizealign(M, cur)
            if c is None:
                sym.append((v, s))
            else:
                off += c * s
        else:
            raise AnalysisError("gep into " + cur)
    return off


def path(fn, v):
    """resolve an address to a Path, looking through geps and pointer casts"""
    cache = fn.__dict__.setdefault("_paths", {})
    if v in cache:
        return cache[v]
    M = fn.mod
    r = None
    if isinstance(v, str):
        d = fn.defs.get(v)
        if d is not None and d.op == "gep":
            b = path(fn, d.ops[0])
            sym, steps = list(b.sym), list(b.steps)
            off = _gep_step(M, d.x, d.ops[1:], b.off, steps, sym)
            r = Path(b.base, off, steps, sym)
        elif d is not None and d.op in ("bitcast", "freeze", "addrspacecast"):
            r = path(fn, d.ops[0])
        else:
            g = parse_gep_ce(v)
            if g:
                b = path(fn, g[1])
                sym, steps = list(b.sym), list(b.steps)
                off = _gep_step(M, g[0], g[2], b.off, steps, sym)
                r = Path(b.base, off, steps, sym)
    if r is None:
        r = Path(v)
    cache[v] = r
    return r


# --- pointee (C struct) types of pointer values through debug info -----------------------------------

def _strip_ty(M, id_):
    """follow typedef/const; returns ('struct', name) / ('ptr', id) / ('other', None)"""
    n = 0
    while id_ and n < 20:
        n += 1
        t = M.md.get(id_, "")
        if "DW_TAG_pointer_type" in t:
            return "ptr", M.mdfield(id_, "baseType")
        if "DW_TAG_structure_type" in t or "DW_TAG_union_type" in t:
            return "struct", M.mdfield(id_, "name")
        if re.search(r"DW_TAG_(typedef|const_type|volatile_type|restrict_type|member)", t):
            id_ = M.mdfield(id_, "baseType")
            continue
        if "DICompositeType" in t and "DW_TAG_array" in t:
            return "array", M.mdfield(id_, "baseType")
        return "other", id_
    return "other", None


def ptr_struct(M, tyid):
    """struct name S if tyid is 'S *'"""
    k, b = _strip_ty(M, tyid)
    if k == "ptr":
        k2, n = _strip_ty(M, b)
        if k2 == "struct":
            return n
    return None


def fn_sig(M, fn):
    """(return type id, [param type ids]) of a defined or declared function"""
    c = M.__dict__.setdefault("_sig", {})
    if fn.name in c:
        return c[fn.name]
    r = (None, [])
    if fn.dbg:
        st = M.mdfield(fn.dbg, "type")
        if st:
            tl = M.mdfield(st, "types")
            if tl:
                ids = []
                for e in re.findall(r"null|!\d+", M.md.get(tl, "").replace("!{", "")):
                    ids.append(None if e == "null" else e[1:])
                if ids:
                    r = (ids[0], ids[1:])
    c[fn.name] = r
    return r


def pointee(fn, v):
    """name of the C struct a pointer value points to, if known"""
    c = fn.__dict__.setdefault("_pointee", {})
    if v in c:
        return c[v]
    c[v] = None
    c[v] = r = _pointee(fn, v)
    return r


def _pointee(fn, v):
    M = fn.mod
    for i, p in enumerate(fn.params):
        if p[1] == v:
            ret, ps = fn_sig(M, fn)
            off = len(fn.params) - len(ps)
            if off in (0, 1) and 0 <= i - off < len(ps):
                return ptr_struct(M, ps[i - off])
            return None
    d = fn.defs.get(v)
    if d is None:
        return None
    vv = fn.vars.get(v)
    if vv and vv[0] == "!":
        s = ptr_struct(M, M.mdfield(vv[1:], "type"))
        if d.op == "alloca":
            k, n = _strip_ty(M, M.mdfield(vv[1:], "type"))
            if k == "struct":
                return n
        elif s:
            return s
    if d.op == "alloca":
        m = re.match(r'%"?struct\.(\w+?)(?:\.\d+)?"?$', d.x)
        return m[1] if m else None
    if d.op == "call":
        return ret_struct(fn, d)
    if d.op == "load":
        ft = field_type(fn, d.ops[0])
        return ptr_struct(M, ft) if ft else None
    if d.op == "phi":
        for o, _ in d.ops:
            r = pointee(fn, o)
            if r:
                return r
    if d.op == "select":
        return pointee(fn, d.ops[1]) or pointee(fn, d.ops[2])
    if d.op == "gep":
        # address of an embedded struct
        p = path(fn, v)
        if p.steps:
            s, f = p.steps[-1]
            for mem in M.struct_fields.get(s, []):
                if mem[0] == f:
                    k, n = _strip_ty(M, mem[2])
                    if k == "struct":
                        return n
                    if k == "array":
                        k, n = _strip_ty(M, n)
                        return n if k == "struct" else None
            return None
        if d.x.startswith("%struct"):
            return short(d.x)
    return None


def ret_struct(fn, call):
    """struct name S when the callee returns 'S *'"""
    M = fn.mod
    c = call.x["callee"]
    f = M.functions.get(c)
    if f is None:
        pr = getattr(fn, "prog", None)
        f = pr.functions.get(c) if pr else None
    if f is None:
        f = M.decls.get(c)
    return ptr_struct(f.mod, fn_sig(f.mod, f)[0]) if f is not None else None


def place(fn, ptr):
    """(struct name, field name, base value) of an address, field 0 included; None if unknown"""
    p = path(fn, ptr)
    M = fn.mod
    if p.steps:
        s, f = p.steps[-1]
        return s, f, p.base
    s = pointee(fn, p.base)
    mem = M.struct_fields.get(s) if s else None
    if mem:
        sz = struct_size(M, s)
        if (p.off % sz == 0 if sz else p.off == 0) and all(z == sz for _, z in p.sym):
            return s, mem[0][0], p.base
        if sz and not p.sym and 0 < p.off < sz:
            for m in mem:
                if m[1] == p.off * 8:
                    return s, m[0], p.base
    return None


def struct_size(M, s):
    for t in ("%struct." + s, '%"struct.' + s + '"'):
        if M.types.get(t):
            return sizealign(M, t)[0]
    return 0


def field_type(fn, ptr):
    """debug type id of the field at address ptr"""
    pl = place(fn, ptr)
    if pl:
        for mem in fn.mod.struct_fields.get(pl[0], []):
            if mem[0] == pl[1]:
                k, n = _strip_ty(fn.mod, mem[2])
                return mem[2]
    return None


# --- conditions -------------------------------------------------------------------------------------

_NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
        "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


def facts(fn, cond, truth, depth=0):
    """atomic comparisons (pred, a, b) known to hold when `cond` evaluates to `truth`"""
    if depth > 12:
        return []
    d = fn.defs.get(cond)
    if d is None:
        return [("eq", cond, "true" if truth else "false")]
    out = [("eq", cond, "true" if truth else "false")]
    if d.op == "icmp":
        a, b = d.ops
        pred = d.x if truth else _NEG[d.x]
        ca, cb = const_int(a), const_int(b)
        if ca is not None and cb is None:
            a, b = b, a
            pred = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
                    "ule": "uge", "uge": "ule"}.get(pred, pred)
        out.append((pred, a, b))
        cb = const_int(b)
        if cb in (0, 1) and pred in ("eq", "ne"):
            da = fn.defs.get(a)
            if da is not None and da.op in ("zext", "sext", "icmp", "and", "or", "xor", "select", "phi", "trunc"):
                if da.op in ("zext", "sext") and da.x == "i1":
                    t = (cb != 0) == (pred == "eq")
                    out += facts(fn, da.ops[0], t, depth + 1)
                elif da.ty == "i1":
                    t = (cb != 0) == (pred == "eq")
                    out += facts(fn, a, t, depth + 1)
                elif da.op in ("zext", "sext") and cb == 0:
                    out.append((pred, da.ops[0], "0"))
        if pred in ("eq", "ne") and cb is not None:
            # value of a bool load: trunc i8
            pass
    elif d.op == "xor" and const_int(d.ops[1]) in (1, -1) and d.ty == "i1":
        out += facts(fn, d.ops[0], not truth, depth + 1)
    elif d.op == "and" and d.ty == "i1" and truth:
        out += facts(fn, d.ops[0], True, depth + 1) + facts(fn, d.ops[1], True, depth + 1)
    elif d.op == "or" and d.ty == "i1" and not truth:
        out += facts(fn, d.ops[0], False, depth + 1) + facts(fn, d.ops[1], False, depth + 1)
    elif d.op == "select" and d.ty == "i1":
        c, a, b = d.ops
        if b == "false" and truth:
            out += facts(fn, c, True, depth + 1) + facts(fn, a, True, depth + 1)
        elif a == "true" and not truth:
            out += facts(fn, c, False, depth + 1) + facts(fn, b, False, depth + 1)
        elif b == "true" and not truth:
            out += facts(fn, c, True, depth + 1) + facts(fn, a, False, depth + 1)
        elif a == "false" and truth:
            out += facts(fn, c, False, depth + 1) + facts(fn, b, True, depth + 1)
    elif d.op == "phi" and d.ty == "i1":
        cand = [(v, lab) for v, lab in d.ops if const_int(v) is None or bool(const_int(v)) == truth]
        if len(cand) == 1:
            v, lab = cand[0]
            p = fn.blocks[lab]
            more = edge_facts(p, d.block, depth + 1)
            if depth < 4:
                more += dom_facts(p, depth + 1)
            phis = {i.res for i in d.block.insts if i.op == "phi"}
            more = [x for x in more if x[1] not in phis and x[2] not in phis]
            if const_int(v) is None:
                more += facts(fn, v, truth, depth + 1)
            out += more
            # what is known of a value is known of the phi that takes it on this way
            for q in d.block.insts:
                if q.op != "phi":
                    break
                w = next((o for o, l in q.ops if l == lab), None)
                if q is not d and isinstance(w, str) and w in fn.defs:
                    out += [tuple(q.res if y == w else y for y in x) for x in more if w in (x[1], x[2])]
    elif d.op in ("trunc", "zext", "freeze"):
        if d.op == "trunc" and d.ty == "i1":
            out += facts(fn, d.ops[0], truth, depth + 1) if fn.defs.get(d.ops[0]) is not None else []
        elif d.op == "freeze":
            out += facts(fn, d.ops[0], truth, depth + 1)
    return out


def edge_facts(b, succ, depth=0):
    """facts that hold when control goes from block b to block succ"""
    t = b.term
    fn = b.fn
    if t.op == "br" and len(t.x) == 2 and t.x[0] != t.x[1]:
        return facts(fn, t.ops[0], t.x[0] == succ.name, depth)
    if t.op == "switch":
        vals = [v for v, l in t.x["cases"] if l == succ.name]
        if t.x["default"] == succ.name:
            if vals:
                return []
            return [("ne", t.ops[0], str(v)) for v, l in t.x["cases"]]
        if len(vals) == 1:
            return [("eq", t.ops[0], str(vals[0]))]
        return [("in", t.ops[0], tuple(vals))]
    return []


# --- CFG -----------------------------------------------------------------------------------------

def dominators(fn):
    if "_dom" in fn.__dict__:
        return fn._dom
    order = rpo(fn)
    idom = {fn.entry: fn.entry}
    num = {b: i for i, b in enumerate(order)}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a is not c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                changed = True
    fn._dom = idom
    return idom


def rpo(fn):
    seen, out = set(), []
    stack = [(fn.entry, iter(fn.entry.succs))]
    seen.add(fn.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs)))
                break
        else:
            out.append(b)
            stack.pop()
    out.reverse()
    return out


def dominates(fn, a, b):
    """block a dominates block b"""
    idom = dominators(fn)
    if b not in idom:
        return True
    while True:
        if a is b:
            return True
        n = idom[b]
        if n is b:
            return False
        b = n


def inst_dominates(a, b):
    if a.block is b.block:
        return a.idx < b.idx
    return dominates(a.fn, a.block, b.block)


def dom_facts(inst_or_block, depth=0):
    """facts established by dominating single-entry edges at a program point"""
    b = inst_or_block if hasattr(inst_or_block, "insts") else inst_or_block.block
    fn = b.fn
    idom = dominators(fn)
    out = []
    while b in idom:
        if len(b.preds) == 1:
            out += edge_facts(b.preds[0], b, depth)
        n = idom[b]
        if n is b:
            break
        b = n
    return out


def reach_blocks(fn, start, stop=lambda b: False):
    seen, work = set(), [start]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if stop(b):
            continue
        work += b.succs
    return seen


def loops_containing(fn, b):
    """b lies on a cycle"""
    seen, work = set(), list(b.succs)
    while work:
        x = work.pop()
        if x is b:
            return True
        if x in seen:
            continue
        seen.add(x)
        work += x.succs
    return False


# --- values ------------------------------------------------------------------------------------------

def strip(fn, v):
    """look through casts that do not change the value"""
    while True:
        d = fn.defs.get(v)
        if d is not None and d.op in ("bitcast", "freeze", "zext", "sext", "trunc", "inttoptr", "ptrtoint"):
            v = d.ops[0]
            continue
        return v


def leaves(fn, v, seen=None):
    """set of non phi/select source values of v"""
    seen = set() if seen is None else seen
    if v in seen:
        return set()
    seen.add(v)
    d = fn.defs.get(v)
    if d is not None and d.op == "phi":
        r = set()
        for o, _ in d.ops:
            r |= leaves(fn, o, seen)
        return r
    if d is not None and d.op == "select":
        return leaves(fn, d.ops[1], seen) | leaves(fn, d.ops[2], seen)
    if d is not None and d.op in ("bitcast", "freeze"):
        return leaves(fn, d.ops[0], seen)
    return {v}


# --- calls ----------------------------------------------------------------------------------------

def cname(i):
    """callee name of a call: direct name, the talloc/exit function behind a memory hook pointer, or '?'"""
    c = i.x["callee"]
    if not c.startswith("%"):
        return c
    d = i.fn.defs.get(c)
    if d is not None and d.op == "load" and d.ops[0].startswith("@"):
        return hook_name("*" + d.ops[0][1:])
    return "?"


class Prog:
    """all translation units of one view: unique function names, call graph, slot resolution"""

    def __init__(self, files):
        from .ir import Module
        self.mods = {u: Module(p) for u, p in files.items()}
        for u, M in self.mods.items():
            M.unit = u
        self.functions = {}
        self.decls = {}
        count = {}
        for u, M in self.mods.items():
            for f in M.functions.values():
                count.setdefault(f.name, set()).add(u)
        for u, M in self.mods.items():
            for f in M.functions.values():
                f.prog = self
                if f.avail:          # inline copies: the external definition is authoritative
                    f.uname = f.name
                    self.functions.setdefault(f.name, f)
                    continue
                f.uname = f.name if not f.internal or len(count[f.name]) == 1 else f.name + "@" + u
                self.functions[f.uname] = f
            for f in M.decls.values():
                self.decls.setdefault(f.name, f)
        self.slots = {}       # (struct, field) -> set(function)
        self.addr_taken = set()
        self._slots()
        self._cg = None

    def uname(self, M, name):
        f = M.functions.get(name)
        return f.uname if f is not None else name

    def find(self, name, unit=None):
        """function by source name (and unit); None if absent"""
        for f in self.functions.values():
            if f.name == name and (unit is None or f.mod.unit == unit):
                return f
        return None

    def need(self, name, unit=None):
        f = self.find(name, unit)
        if f is None:
            raise AnalysisError("anchor function %s not found" % name)
        return f

    def _slots(self):
        for M in self.mods.values():
            for g, (fl, t, init) in M.globals.items():
                if not t or not init or init.startswith('c"'):
                    continue
                self._walk_init(M, t, init)
            for f in M.functions.values():
                for i in f.insts():
                    for k, o in enumerate(operands(i)):
                        if isinstance(o, str) and o.startswith("@") and (o[1:] in M.functions or o[1:] in M.decls):
                            if i.op == "call" and k >= len(i.ops):
                                continue
                            u = self.uname(M, o[1:])
                            self.addr_taken.add(u)
                            if i.op == "store" and k == 0:
                                pl = place(f, i.ops[1])
                                if pl:
                                    self.slots.setdefault(pl[:2], set()).add(u)

    def _walk_init(self, M, t, init):
        if init.startswith("@"):
            n = init[1:]
            if n in M.functions or n in M.decls:
                self.addr_taken.add(self.uname(M, n))
            return
        if init[0] in "{[" or init.startswith("<{"):
            for k, (et, ev) in enumerate(parse_aggregate(init)):
                if t.startswith("%struct") and ev.startswith("@") and (ev[1:] in M.functions or ev[1:] in M.decls):
                    u = self.uname(M, ev[1:])
                    self.slots.setdefault((short(t), M.field(t, k)), set()).add(u)
                    self.addr_taken.add(u)
                else:
                    self._walk_init(M, et, ev)

    def targets(self, i):
        """possible callees of a call instruction (unique names)"""
        c = i.x["callee"]
        M = i.fn.mod
        if not c.startswith("%"):
            return {self.uname(M, c)}
        out = set()
        for s in leaves(i.fn, c):
            if s.startswith("@"):
                out.add(self.uname(M, s[1:]))
                continue
            d = i.fn.defs.get(s)
            if d is not None and d.op == "load":
                if d.ops[0].startswith("@"):
                    out.add(hook_name("*" + d.ops[0][1:]))
                    continue
                pl = place(i.fn, d.ops[0])
                if pl and pl[:2] in self.slots:
                    out |= self.slots[pl[:2]]
                    continue
                p = path(i.fn, d.ops[0])
                if p.base.startswith("@"):
                    el = M.globals.get(p.base[1:])
                    if el and el[2].startswith("["):
                        out |= {self.uname(M, e[1][1:]) for e in parse_aggregate(el[2]) if e[1].startswith("@")}
                        continue
            out.add("?")
        return out

    @property
    def cg(self):
        if self._cg is None:
            self._cg = {}
            for f in self.functions.values():
                s = set()
                for i in f.insts():
                    if i.op == "call":
                        s |= self.targets(i)
                self._cg[f.uname] = s
        return self._cg

    def callers_closure(self, seeds, barrier=()):
        """functions from which a seed is reachable (seeds included)"""
        rev = {}
        for f, ts in self.cg.items():
            for t in ts:
                rev.setdefault(t, set()).add(f)
        seen, work = set(seeds), list(seeds)
        while work:
            x = work.pop()
            for c in rev.get(x, ()):
                if c not in seen and c not in barrier:
                    seen.add(c)
                    work.append(c)
        return seen

    def reachable(self, roots):
        seen, work = set(), list(roots)
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += list(self.cg.get(x, ()))
        return seen

    def enum(self, member):
        for M in self.mods.values():
            for d in M.enums.values():
                if member in d:
                    return d[member]
        raise AnalysisError("enumerator %s not found" % member)

    def enum_type(self, name):
        for M in self.mods.values():
            if name in M.enums:
                return M.enums[name]
        raise AnalysisError("enum %s not found" % name)

    def struct(self, name):
        for M in self.mods.values():
            if name in M.struct_fields:
                return M.struct_fields[name]
        raise AnalysisError("struct %s not found" % name)


def hook_name(c):
    m = re.match(r"\*_?(?:handlebars_)?(talloc_\w+|exit)$", c)
    if m:
        return m[1]
    m = re.match(r"\*_handlebars_(yy_\w+)$", c)
    return m[1] if m else c


def parse_aggregate(init):
    """'[ty v, ty v]' / '{...}' -> [(type, value or nested init)]"""
    inner = init.strip("<>")
    if inner[0] in "[{":
        inner = inner[1:-1].strip()
    out = []
    for e in split_top(inner):
        t, v, _ = take_typed(e)
        out.append((t, v))
    return out
