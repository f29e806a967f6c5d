"""Reader for LLVM 18 textual IR: modules, functions, blocks, instructions, types, debug info."""
import re
from .build import AnalysisError

_ATTRS = set("""noundef nonnull zeroext signext noalias nocapture readonly writeonly readnone returned
 dead_on_unwind writable inreg nest immarg swiftself swifterror swiftasync nofree allocalign allocptr""".split())


class Inst:
    __slots__ = ("op", "res", "ty", "ops", "x", "block", "dbg", "idx", "fn")
    # op   : opcode
    # res  : result name ("%x") or None
    # ty   : result type (string); for store, the type stored
    # ops  : operand values
    # x    : opcode specific extra (dict or scalar)

    def __init__(self, op, res, ty, ops, x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, ops, x
        self.block = self.dbg = self.fn = None
        self.idx = 0

    @property
    def loc(self):
        return self.fn.mod.loc(self.dbg) if self.dbg else (self.fn.file, self.fn.line)

    def where(self):
        f, l = self.loc
        return "%s:%d" % (f, l)

    def origin(self):
        """name of the source function this instruction was written in (before inlining)"""
        return self.fn.mod.loc_func(self.dbg) or self.fn.name

    def __repr__(self):
        return "<%s %s %s %s>" % (self.res, self.op, self.ops, self.where())


class Block:
    __slots__ = ("name", "insts", "succs", "preds", "fn", "idx")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.insts, self.succs, self.preds = [], [], []

    @property
    def term(self):
        return self.insts[-1]

    def __repr__(self):
        return "<bb %s>" % self.name


class Function:
    def __init__(self, mod, name, ret, params, varargs, internal, fnattrs, dbg):
        self.mod, self.name, self.ret = mod, name, ret
        self.params = params          # list of (type, name, attrs)
        self.varargs, self.internal = varargs, internal
        self.fnattrs, self.dbg = fnattrs, dbg
        self.blocks = {}
        self.order = []
        self.defs = {}
        self._users = None
        self.line = 0
        self.file = "?"
        self.vars = {}                # ssa name -> source variable name

    def finish(self):
        for b in self.blocks.values():
            b.preds = []
        for i, b in enumerate(self.order):
            b.idx = i
        for b in self.order:
            t = b.term
            b.succs = []
            for s in succ_labels(t):
                sb = self.blocks[s]
                if sb not in b.succs:
                    b.succs.append(sb)
                    sb.preds.append(b)
        self.entry = self.order[0]

    def insts(self):
        for b in self.order:
            for i in b.insts:
                yield i

    def calls(self, name=None):
        for i in self.insts():
            if i.op == "call" and (name is None or i.x["callee"] == name):
                yield i

    @property
    def users(self):
        if self._users is None:
            u = {}
            for i in self.insts():
                for o in i.all_operands() if hasattr(i, "all_operands") else operands(i):
                    if isinstance(o, str) and o.startswith("%"):
                        u.setdefault(o, []).append(i)
            self._users = u
        return self._users

    def __repr__(self):
        return "<fn %s>" % self.name


def operands(i):
    if i.op == "call":
        return i.ops + ([i.x["callee"]] if i.x["callee"].startswith("%") else [])
    if i.op == "phi":
        return [v for v, _ in i.ops]
    return i.ops


def succ_labels(t):
    if t.op == "br":
        return t.x
    if t.op == "switch":
        return [t.x["default"]] + [l for _, l in t.x["cases"]]
    if t.op == "indirectbr":
        return t.x
    return []


# --- lexical helpers ------------------------------------------------------------------------------

_open = {"(": ")", "[": "]", "{": "}", "<": ">"}


def split_top(s):
    """split on top level commas"""
    out, depth, cur, q = [], 0, [], False
    for ch in s:
        if q:
            cur.append(ch)
            if ch == '"':
                q = False
            continue
        if ch == '"':
            q = True
        elif ch in "([{<":
            depth += 1
        elif ch in ")]}>":
            depth -= 1
        elif ch == "," and depth == 0:
            out.append("".join(cur).strip())
            cur = []
            continue
        cur.append(ch)
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


def match_close(s, i):
    """index of the bracket closing s[i]"""
    depth, q = 0, False
    for j in range(i, len(s)):
        ch = s[j]
        if q:
            if ch == '"':
                q = False
            continue
        if ch == '"':
            q = True
        elif ch in "([{<":
            depth += 1
        elif ch in ")]}>":
            depth -= 1
            if depth == 0:
                return j
    raise AnalysisError("unbalanced: " + s)


_ty_atom = re.compile(r"(?:void|ptr(?: addrspace\(\d+\))?|i\d+|half|float|double|x86_fp80|fp128|label|metadata|token|%\"[^\"]*\"|%[\w.$-]+|opaque)")


def take_type(s):
    """(type, rest)"""
    s = s.lstrip()
    if s[0] in "[{<":
        j = match_close(s, 0)
        t = s[:j + 1]
        rest = s[j + 1:]
    else:
        m = _ty_atom.match(s)
        if not m:
            raise AnalysisError("type? " + s)
        t = m.group(0)
        rest = s[m.end():]
    # function types: ret (args)
    r = rest.lstrip()
    if r.startswith("(") and not t.startswith("metadata"):
        j = match_close(r, 0)
        t = t + " " + r[:j + 1]
        rest = r[j + 1:]
    return t, rest.strip()


_attr_par = re.compile(r"(?:align|dereferenceable|dereferenceable_or_null|sret|byval|byref|preallocated|inalloca|elementtype|range|nofpclass|captures|initializes|memory|allockind|allocsize)\s*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)|\s\d+)\s*")


def strip_attrs(s):
    attrs = []
    s = s.lstrip()
    while True:
        m = _attr_par.match(s)
        if m:
            attrs.append(m.group(0).strip())
            s = s[m.end():].lstrip()
            continue
        m = re.match(r"([a-z_]+)\b(?!\()", s)
        if m and m[1] in _ATTRS:
            attrs.append(m[1])
            s = s[m.end():].lstrip()
            continue
        return s, attrs


def take_typed(s):
    """'ty [attrs] value' -> (ty, value, attrs)"""
    t, r = take_type(s)
    r, a = strip_attrs(r)
    return t, norm_value(r), a


class CExpr(str):
    pass


def norm_value(v):
    v = v.strip()
    return v


_md_tail = re.compile(r"(?:, ![\w.]+ !\d+| ?,? ?![\w.]+ !\{\})+$")


class Module:
    def __init__(self, path):
        self.path = path
        self.functions = {}
        self.decls = {}
        self.globals = {}     # name -> (flags, type, init text)
        self.types = {}       # %struct.x -> [field types] / None
        self.md = {}          # id -> text
        self._loc = {}
        self._parse(path)
        self._debug_types()

    # ---------------------------------------------------------------------------------------------
    def _parse(self, path):
        lines = open(path, errors="replace").read().split("\n")
        n, i = len(lines), 0
        cur = blk = None
        while i < n:
            l = lines[i]
            i += 1
            if cur is None:
                if not l:
                    continue
                c = l[0]
                if c == "!":
                    m = re.match(r"!(\d+) = (.*)$", l)
                    if m:
                        self.md[m[1]] = m[2]
                    else:
                        m = re.match(r"!([\w.]+) = (.*)$", l)
                        if m:
                            self.md[m[1]] = m[2]
                elif c == "@":
                    m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
                    if m:
                        self._global(m[1].strip('"'), m[2])
                elif c == "%":
                    m = re.match(r'(%"[^"]*"|%[\w.$-]+) = type (.*)$', l)
                    if m:
                        body = m[2]
                        if body.startswith("{") or body.startswith("<{"):
                            inner = body.strip("<>").strip()[1:-1]
                            self.types[m[1]] = split_top(inner)
                        else:
                            self.types[m[1]] = None
                elif l.startswith("define"):
                    cur = self._fnhead(l)
                    blk = None
                elif l.startswith("declare"):
                    f = self._fnhead(l, decl=True)
                    self.decls[f.name] = f
                continue
            # inside a function
            if l == "}":
                cur.finish()
                self.functions[cur.name] = cur
                cur = None
                continue
            if not l:
                continue
            if l[0] != " ":
                m = re.match(r'("[^"]*"|[\w.$-]+):', l)
                if m:
                    blk = Block(m[1].strip('"'), cur)
                    cur.blocks[blk.name] = blk
                    cur.order.append(blk)
                continue
            if blk is None:
                blk = Block("entry", cur)
                cur.blocks["entry"] = blk
                cur.order.append(blk)
            s = l.strip()
            if s.startswith("switch ") and s.endswith("["):
                while not lines[i].strip().startswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
                s += " " + lines[i].strip()
                i += 1
            inst = self._inst(s, cur)
            if inst is not None:
                inst.fn, inst.block, inst.idx = cur, blk, len(blk.insts)
                blk.insts.append(inst)
                if inst.res:
                    cur.defs[inst.res] = inst

    def _global(self, name, rest):
        m = re.search(r"\b(global|constant|alias|ifunc)\b", rest)
        if not m:
            return
        flags = rest[:m.start()].split() + [m[1]]
        body = rest[m.end():].strip()
        if m[1] == "alias":
            self.globals[name] = (flags, None, body)
            return
        t, r = take_type(body)
        dbg = re.search(r", !dbg !(\d+)", r)
        init = re.split(r", (?:align \d+|section |comdat|!dbg )", r)[0].strip()
        if r.startswith("align") or r.startswith(", align"):
            init = ""
        self.globals[name] = (flags, t, init)

    def _fnhead(self, l, decl=False):
        l = re.sub(r"^(define|declare)\s+", "", l)
        internal = bool(re.match(r"(internal|private)\b", l))
        avail = bool(re.match(r"(available_externally|linkonce)", l))
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
        name = m[1].strip('"')
        pre = l[:m.start()].strip()
        pre = re.sub(r"^((internal|private|dso_local|local_unnamed_addr|linkonce_odr|linkonce|weak|weak_odr|available_externally|hidden|protected|common|extern_weak|!dbg !\d+)\s+)+", "", pre + " ").strip()
        ret, rattrs = strip_attrs(pre)
        # return attributes precede the type
        j = match_close(l, m.end() - 1)
        plist = l[m.end():j]
        tail = l[j + 1:]
        params, va = [], False
        for p in split_top(plist):
            if p == "...":
                va = True
                continue
            t, v, a = take_typed(p)
            params.append((t, v if v else "%%%d" % len(params), a))
        dbg = re.search(r"!dbg !(\d+)", tail) or re.search(r"!dbg !(\d+)", l[:m.start()])
        f = Function(self, name, ret, params, va, internal, re.findall(r"#\d+", tail), dbg[1] if dbg else None)
        f.rattrs = rattrs
        f.avail = avail
        return f

    _re_dbg = re.compile(r", !dbg !(\d+)")

    def _inst(self, s, fn):
        dbg = None
        m = self._re_dbg.search(s)
        if m:
            dbg = m[1]
        res = None
        m = re.match(r'(%"[^"]*"|%[\w.$-]+) = ', s)
        if m:
            res = m[1]
            s = s[m.end():]
        op = s.split(None, 1)[0].rstrip(",")
        if op in ("tail", "musttail", "notail"):
            s = s.split(None, 1)[1]
            op = "call"
        if op == "call":
            inst = self._call(s, res, fn)
            if inst is None:
                return None
        else:
            # cut the metadata tail
            k = s.find(", !")
            if k >= 0:
                s = s[:k]
            inst = self._simple(op, s, res)
        inst.dbg = dbg
        return inst

    def _call(self, s, res, fn):
        if "@llvm.dbg." in s:
            if "@llvm.dbg.value" in s or "@llvm.dbg.declare" in s:
                m = re.search(r"\(metadata (\S+) (%[\w.$-]+), metadata !(\d+)", s)
                if m:
                    fn.vars.setdefault(m[2], "!" + m[3])
            return None
        if "@llvm.lifetime." in s or "@llvm.assume" in s or "@llvm.experimental.noalias" in s:
            return None
        s = s[5:]
        s = re.sub(r"^(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+", "", s)
        s, rattrs = strip_attrs(s)
        if re.match(r"(align|range)\b", s):
            s, more = strip_attrs(s)
            rattrs += more
        t, r = take_type(s)
        rest = r
        ret = t
        if " (" in t:
            ret = t[:t.index(" (")]
            # a function type only if followed by a callee; "ret (args)" form
        if rest.startswith("asm"):
            m = re.search(r'asm (?:sideeffect |alignstack |inteldialect |unwind )*"((?:[^"\\]|\\.)*)", "[^"]*"\(', rest)
            callee = "asm"
            k = m.end() - 1
        else:
            m = re.match(r'(@"[^"]*"|@[\w.$-]+|%"[^"]*"|%[\w.$-]+)\(', rest)
            if not m:
                raise AnalysisError("call? " + s)
            callee = m[1]
            if callee.startswith("@"):
                callee = callee[1:].strip('"')
            k = m.end() - 1
        j = match_close(rest, k)
        args, tys, attrs = [], [], []
        for a in split_top(rest[k + 1:j]):
            if a.startswith("metadata"):
                continue
            ty, v, at = take_typed(a)
            args.append(v)
            tys.append(ty)
            attrs.append(at)
        tail = rest[j + 1:]
        return Inst("call", res, ret, args, {"callee": callee, "tys": tys, "attrs": attrs, "rattrs": rattrs,
                                            "fnattrs": re.findall(r"#\d+", tail)})

    def _simple(self, op, s, res):
        r = s[len(op):].strip()
        if op == "br":
            if r.startswith("label"):
                return Inst("br", None, None, [], [r.split("%", 1)[1].strip().strip('"')])
            p = split_top(r)
            return Inst("br", None, None, [take_typed(p[0])[1]], [q.split("%", 1)[1].strip().strip('"') for q in p[1:3]])
        if op == "switch":
            k = r.index("[")
            head = split_top(r[:k].strip())
            ty, v, _ = take_typed(head[0])
            default = head[1].split("%", 1)[1].strip().strip('"')
            cases = []
            for m in re.finditer(r'i\d+ (-?\d+|true|false), label %("[^"]*"|[\w.$-]+)', r[k:]):
                cases.append((int(m[1]) if m[1] not in ("true", "false") else int(m[1] == "true"), m[2].strip('"')))
            return Inst("switch", None, ty, [v], {"default": default, "cases": cases})
        if op == "indirectbr":
            k = r.index("[")
            head = split_top(r[:k].rstrip(" ,"))
            return Inst("indirectbr", None, None, [take_typed(head[0])[1]],
                        [x.strip('"') for x in re.findall(r'label %("[^"]*"|[\w.$-]+)', r[k:])])
        if op == "ret":
            if r.startswith("void"):
                return Inst("ret", None, "void", [])
            t, v, _ = take_typed(r)
            return Inst("ret", None, t, [v])
        if op == "unreachable":
            return Inst(op, None, None, [])
        if op == "load":
            vol = "volatile" if r.startswith(("volatile ", "atomic volatile ")) else None
            r = re.sub(r"^(volatile |atomic )+", "", r)
            p = split_top(r)
            t, _ = take_type(p[0])
            pt, ptr, _ = take_typed(p[1].split(" syncscope")[0])
            ptr = re.sub(r" (acquire|monotonic|seq_cst|unordered)$", "", ptr)
            return Inst("load", res, t, [ptr], vol)
        if op == "store":
            vol = "volatile" if r.startswith(("volatile ", "atomic volatile ")) else None
            r = re.sub(r"^(volatile |atomic )+", "", r)
            p = split_top(r)
            t, v, _ = take_typed(p[0])
            pt, ptr, _ = take_typed(p[1])
            ptr = re.sub(r" (release|monotonic|seq_cst|unordered)$", "", ptr)
            return Inst("store", None, t, [v, ptr], vol)
        if op == "getelementptr":
            r = re.sub(r"^(inbounds|nuw|nusw)\s+", "", r)
            p = split_top(r)
            t, _ = take_type(p[0])
            vals = [take_typed(q) for q in p[1:]]
            return Inst("gep", res, "ptr", [v for _, v, _ in vals], t)
        if op in ("icmp", "fcmp"):
            r = re.sub(r"^(fast|samesign)\s+", "", r)
            pred, r = r.split(None, 1)
            p = split_top(r)
            t, v, _ = take_typed(p[0])
            return Inst(op, res, t, [v, p[1]], pred)
        if op == "phi":
            t, r = take_type(r)
            ops = []
            k = 0
            while True:
                k = r.find("[", k)
                if k < 0:
                    break
                j = match_close(r, k)
                v, lab = split_top(r[k + 1:j])
                ops.append((norm_value(v), lab.lstrip("%").strip('"')))
                k = j + 1
            return Inst("phi", res, t, ops)
        if op == "select":
            p = split_top(r)
            c = take_typed(p[0])[1]
            t, a, _ = take_typed(p[1])
            b = take_typed(p[2])[1]
            return Inst("select", res, t, [c, a, b])
        if op == "alloca":
            p = split_top(r)
            t, _ = take_type(re.sub(r"^inalloca ", "", p[0]))
            n = [take_typed(q)[1] for q in p[1:] if re.match(r"i\d+ ", q)]
            return Inst("alloca", res, "ptr", n, t)
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
                  "inttoptr", "bitcast", "addrspacecast"):
            r = re.sub(r"^(nneg|nuw|nsw)\s+", "", r)
            a, b = r.rsplit(" to ", 1)
            t, v, _ = take_typed(a)
            return Inst(op, res, b.strip(), [v], t)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            r = re.sub(r"^((nuw|nsw|exact|disjoint|fast)\s+)+", "", r)
            p = split_top(r)
            t, v, _ = take_typed(p[0])
            return Inst(op, res, t, [v, p[1]])
        if op in ("fneg", "freeze"):
            t, v, _ = take_typed(r)
            return Inst(op, res, t, [v])
        if op in ("extractvalue", "insertvalue"):
            p = split_top(r)
            t, v, _ = take_typed(p[0])
            ops = [v]
            if op == "insertvalue":
                ops.append(take_typed(p[1])[1])
                idx = p[2:]
            else:
                idx = p[1:]
            return Inst(op, res, t, ops, idx)
        if op in ("extractelement", "insertelement", "shufflevector"):
            p = split_top(r)
            return Inst(op, res, None, [take_typed(q)[1] for q in p])
        if op in ("atomicrmw", "cmpxchg", "fence"):
            r = re.sub(r"^(volatile|weak)\s+", "", r)
            kind = None
            if op == "atomicrmw":
                kind, r = r.split(None, 1)
            p = split_top(r)
            ops = []
            for q in p:
                try:
                    ops.append(take_typed(q)[1].split()[0])
                except AnalysisError:
                    pass
            return Inst(op, res, None, ops, kind)
        if op == "va_arg":
            return Inst(op, res, None, [take_typed(split_top(r)[0])[1]])
        raise AnalysisError("unknown instruction: " + s)

    # --- debug info ------------------------------------------------------------------------------
    def mdfield(self, id_, key):
        t = self.md.get(id_, "")
        m = re.search(r"\b%s: (\"(?:[^\"\\]|\\.)*\"|!\d+|[-\w.]+)" % key, t)
        if not m:
            return None
        v = m[1]
        if v[0] == '"':
            return v[1:-1]
        if v[0] == "!":
            return v[1:]
        return v

    def _scope_info(self, id_):
        """(file, subprogram name) of a scope id"""
        seen = 0
        file = None
        while id_ and seen < 50:
            seen += 1
            t = self.md.get(id_, "")
            f = self.mdfield(id_, "file")
            if file is None and f:
                file = self.mdfield(f, "filename")
            if "DISubprogram" in t:
                return file, self.mdfield(id_, "name")
            id_ = self.mdfield(id_, "scope")
        return file, None

    def _locfull(self, dbg):
        r = self._loc.get(dbg)
        if r is None:
            line = int(self.mdfield(dbg, "line") or 0)
            file, name = self._scope_info(self.mdfield(dbg, "scope"))
            file = self.relfile(file or "?")
            r = self._loc[dbg] = (file, line, name)
        return r

    @staticmethod
    def relfile(f):
        m = re.search(r"/hbsa\.[^/]+/(.*)$", f)
        if m:
            return m[1]
        if not f.startswith("/") and "/" not in f:
            return "src/" + f
        return f

    def loc(self, dbg):
        return self._locfull(dbg)[:2]

    def loc_func(self, dbg):
        return self._locfull(dbg)[2] if dbg else None

    def inline_stack(self, dbg):
        """source functions from innermost to outermost for a debug location"""
        out = []
        while dbg:
            out.append(self._locfull(dbg)[2])
            dbg = self.mdfield(dbg, "inlinedAt")
        return out

    def varname(self, fn, ssa):
        v = fn.vars.get(ssa)
        if v and v[0] == "!":
            return self.mdfield(v[1:], "name")
        return None

    def frames(self, dbg):
        """activation chain of a location: [(subprogram id, inlinedAt id)], innermost first"""
        out = []
        while dbg:
            sc = self.mdfield(dbg, "scope")
            n = 0
            while sc and "DISubprogram" not in self.md.get(sc, "") and n < 50:
                sc = self.mdfield(sc, "scope")
                n += 1
            at = self.mdfield(dbg, "inlinedAt")
            out.append((sc, at))
            dbg = at
        return out

    def _debug_types(self):
        """struct name -> [member names], enum name -> {enumerator: value}"""
        self.struct_fields, self.enums, self.enum_of = {}, {}, {}
        for id_, t in self.md.items():
            if "DICompositeType" in t:
                name = self.mdfield(id_, "name")
                if "DW_TAG_structure_type" in t and name and "elements:" in t:
                    el = self.mdfield(id_, "elements")
                    mem = []
                    for e in re.findall(r"!(\d+)", self.md.get(el, "")):
                        mem.append((self.mdfield(e, "name"), int(self.mdfield(e, "offset") or 0),
                                    self.mdfield(e, "baseType"), int(self.mdfield(e, "size") or 0)))
                    if mem:
                        self.struct_fields.setdefault(name, mem)
                elif "DW_TAG_enumeration_type" in t and "elements:" in t:
                    el = self.mdfield(id_, "elements")
                    d = {}
                    for e in re.findall(r"!(\d+)", self.md.get(el, "")):
                        d[self.mdfield(e, "name")] = int(self.mdfield(e, "value") or 0)
                    if d:
                        self.enums.setdefault(name or ("anon:" + next(iter(d))), d)
            elif "DISubprogram" in t and "DISPFlagDefinition" in t:
                pass
        for f in self.functions.values():
            if f.dbg:
                f.line = int(self.mdfield(f.dbg, "line") or 0)
                f.file = self.relfile(self.mdfield(self.mdfield(f.dbg, "file") or "", "filename") or "?")

    def enum_value(self, name):
        for d in self.enums.values():
            if name in d:
                return d[name]
        raise AnalysisError("enumerator %s not found" % name)

    def field(self, sty, idx):
        """name of field idx of IR struct type '%struct.x'"""
        m = re.match(r'%"?(?:struct|union)\.([\w]+?)(?:\.\d+)?"?$', sty)
        if m:
            mem = self.struct_fields.get(m[1])
            fts = self.types.get(sty)
            if mem and fts is not None and len(mem) == len(fts) and idx < len(mem):
                return mem[idx][0]
            if mem and fts is not None:
                # padding or bitfields: map by counting non-array-of-i8 padding
                return mem[idx][0] if idx < len(mem) else "?%d" % idx
        return "?%d" % idx

    def cstr(self, g):
        """bytes of a constant string global"""
        if g.startswith("@"):
            g = g[1:]
        e = self.globals.get(g)
        if not e or "constant" not in e[0]:
            return None
        init = e[2]
        if init.startswith("zeroinitializer"):
            return b""
        if not init.startswith('c"'):
            return None
        body = init[2:init.rindex('"')]
        out = bytearray()
        k = 0
        while k < len(body):
            if body[k] == "\\":
                if body[k + 1] == "\\":
                    out.append(92)
                    k += 2
                else:
                    out.append(int(body[k + 1:k + 3], 16))
                    k += 3
            else:
                out.append(ord(body[k]))
                k += 1
        b = bytes(out)
        return b[:-1] if b.endswith(b"\0") else b
