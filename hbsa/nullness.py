"""Interprocedural null-flow analysis.

For every function a forward must-analysis computes, per program point, the SSA values known to be
non-null (from comparisons on the path, from contracts, from earlier dereferences).  Sources are call
results that may be null: allocation entry points (kind 'alloc'), external finders and every function of
the program whose own analysis shows a return path yielding null (kinds are inherited).  Sinks are
dereferences, passing to a parameter that is dereferenced without a test (summary) or declared nonnull,
and, for allocation results, publishing the unchecked pointer in memory.
"""
from . import an, linear
from .an import path, const_int, edge_facts, cname

ALLOC = {"talloc_named_const", "talloc_named", "talloc_array", "_talloc_array", "talloc_zero", "_talloc_zero", "talloc_size",
         "talloc_realloc_array", "_talloc_realloc_array", "_talloc_realloc", "talloc_strdup", "talloc_strndup",
         "talloc_asprintf", "talloc_asprintf_append", "talloc_asprintf_append_buffer", "talloc_strdup_append",
         "talloc_strdup_append_buffer", "talloc_strndup_append_buffer", "talloc_vasprintf",
         "talloc_vasprintf_append_buffer", "talloc_init", "talloc_pool", "_talloc_pooled_object", "talloc_new",
         "_talloc", "_talloc_memdup",
         "malloc", "calloc", "realloc", "strdup", "strndup", "aligned_alloc", "asprintf",
         "json_object_new_object", "json_object_new_array", "json_tokener_new",
         "handlebars_yy_alloc", "handlebars_yy_realloc", "yy_alloc", "yy_realloc"}
FIND = {"strchr", "strrchr", "strstr", "strpbrk", "memchr", "memrchr", "memmem", "getenv", "fopen", "fdopen",
        "opendir", "readdir", "json_object_object_get", "json_object_array_get_idx", "json_tokener_parse_ex",
        "json_tokener_parse_verbose", "json_object_get_object", "json_object_get_string",
        "yaml_document_get_root_node", "yaml_document_get_node", "localtime", "gmtime", "fgets", "bsearch",
        "json_object_get_array", "strtok", "strtok_r"}
# external functions returning one of their arguments
RET_ARG = {"talloc_steal": 1, "_talloc_steal_loc": 1, "talloc_steal_loc": 1, "json_object_get": 0, "memcpy": 0,
           "memmove": 0, "memset": 0, "strcpy": 0, "strncpy": 0, "talloc_move": 1,
           "_talloc_reference_loc": 1}
# external (function, arg index) accepting null; '*' = all arguments
NULL_OK = {("free", 0), ("talloc_free", 0), ("_talloc_free", 0), ("realloc", 0), ("handlebars_yy_free", 0),
           ("yy_free", 0), ("json_object_put", 0), ("json_object_get", 0), ("talloc_set_destructor", "*"),
           ("qsort", "*"), ("json_object_get_type", 0), ("json_object_get_string", 0),
           ("json_object_get_string_len", 0), ("json_object_get_boolean", 0), ("json_object_get_double", 0),
           ("json_object_get_int", 0), ("json_object_get_int64", 0), ("json_object_get_object", 0),
           ("json_object_get_array", 0), ("json_object_is_type", 0), ("munmap", 0), ("mmap", 0),
           ("_talloc_steal_loc", 1), ("talloc_steal", 1), ("time", 0), ("mdb_env_close", 0),
           ("_talloc_set_destructor", "*"), ("talloc_total_size", 0), ("talloc_named_const", 0),
           ("strtol", 1), ("strtoul", 1), ("strtod", 1), ("strtoll", 1), ("setlocale", 1),
           ("_talloc_realloc_array", 1), ("talloc_realloc_array", 1), ("_talloc_realloc", 1),
           ("talloc_strdup_append", 0), ("talloc_strdup_append_buffer", 0), ("talloc_strndup_append_buffer", 0),
           ("pthread_mutexattr_init", "*"), ("json_object_array_length", 0),
           ("__isoc23_strtol", 1), ("__isoc23_strtoul", 1), ("__isoc23_strtoll", 1), ("mdb_txn_begin", 1),
           ("mdb_cursor_get", "*"), ("vsnprintf", 0), ("snprintf", 0), ("talloc_asprintf_append", 0),
           ("talloc_asprintf_append_buffer", 0), ("talloc_vasprintf_append_buffer", 0),
           ("talloc_vasprintf_append", 0), ("fclose", 99)}
# accessors whose null result means "node/value of another kind": callers are dispatched on the kind.
KIND_ACCESSORS = {"handlebars_ast_node_get_path", "handlebars_ast_node_get_params", "handlebars_ast_node_get_hash",
                  "handlebars_ast_node_get_id_part", "handlebars_ast_node_get_id_parts"}
# operand stacks whose depth is fixed by the opcode sequence of a compiled program
BALANCED = {("handlebars_vm", "stack"), ("handlebars_vm", "contextStack"), ("handlebars_vm", "hashStack")}
BUILTIN_LOOKUP = {"handlebars_vm_call_helper_str", "handlebars_builtins_find", "hbs_builtin_lut_lookup"}
STACK_READ = {"handlebars_stack_pop", "handlebars_stack_top"}
GET_TYPE = {"handlebars_value_get_string": ("STRING",), "handlebars_value_get_map": ("MAP",),
            "handlebars_value_get_stack": ("ARRAY",), "handlebars_value_get_closure": ("CLOSURE",),
            "handlebars_value_get_user": ("USER",), "handlebars_value_get_strval": ("STRING",)}
TALLOC_CTX0 = ("talloc_", "_talloc_")


def contradictory(f, blk, use, ef):
    """facts at the use (dominated by blk) cannot hold together with those on an edge into blk"""
    phis = {i.res for i in blk.insts if i.op == "phi"}
    if any(x[0] == "eq" and x[2] == "null" and ("ne", x[1], "null") in use for x in ef):
        return True
    if any(x[0] == "ne" and x[2] == "null" and ("eq", x[1], "null") in use for x in ef):
        return True
    ef = [x for x in ef if x[1] not in phis and x[2] not in phis]
    try:
        return not linear.feasible(f, use + ef)
    except RecursionError:
        return False


def _type_off(P):
    for n, bit, ty, sz in P.struct("handlebars_value"):
        if n == "type":
            return bit // 8
    return 0


def localv_param(f):
    """name of the captured-locals parameter of a closure function"""
    if len(f.params) == 7 and an.pointee(f, f.params[1][1]) == "handlebars_value" and f.params[0][0] == "i32":
        return f.params[1][1]
    return None


def argv_params(f):
    """(argc, argv) parameter names of a helper or closure function"""
    ps = f.params
    if len(ps) in (5, 7):
        k = len(ps) - 5
        if ps[k][0] == "i32" and an.pointee(f, ps[k + 1][1]) == "handlebars_value" and \
                an.pointee(f, ps[k + 2][1]) == "handlebars_options" and an.pointee(f, ps[k + 3][1]) == "handlebars_vm":
            return ps[k][1], ps[k + 1][1]
    return None


class Nullness:
    def __init__(self, prog, contracts):
        self.P = prog
        self.contracts = contracts       # name -> (ret_nonnull, {param index})
        self.maynull = {}                # uname -> {kind: reason}
        self.retparam = {}               # uname -> set(param idx) returned unchecked
        self.derefs = {}                 # uname -> {param idx: Inst}
        self.noreturn = set()
        self._iterate()

    # -- per-function flow ---------------------------------------------------------------------
    def flow(self, f):
        """known-nonnull / known-null sets at each block entry"""
        order = an.rpo(f)
        IN = {f.entry: (frozenset(), frozenset())}
        start = set()
        c = self.contracts.get(f.name)
        changed = True
        n = 0
        while changed and n < 30:
            changed = False
            n += 1
            for b in order:
                if b is not f.entry:
                    acc = None
                    for p in b.preds:
                        if p not in IN:
                            continue
                        st = self.edge(p, b, self.out(p, IN[p]))
                        if st is None:
                            continue
                        nn, nl = set(st[0]), set(st[1])
                        for i in b.insts:
                            if i.op != "phi":
                                break
                            nn.discard(i.res)
                            nl.discard(i.res)
                        for i in b.insts:
                            if i.op != "phi":
                                break
                            if i.ty != "ptr":
                                continue
                            for v, lab in i.ops:
                                if lab == p.name:
                                    if self.is_nn(f, v, st[0]):
                                        nn.add(i.res)
                                    elif v == "null" or v in st[1]:
                                        nl.add(i.res)
                        if acc is None:
                            acc = (nn, nl)
                        else:
                            acc = (acc[0] & nn, acc[1] & nl)
                    if acc is None:
                        if b in IN:
                            pass
                        continue
                    new = (frozenset(acc[0]), frozenset(acc[1]))
                    if IN.get(b) != new:
                        IN[b] = new
                        changed = True
        return IN

    def is_nn(self, f, v, nn):
        if v in nn:
            return True
        if v.startswith("@"):
            return True
        if v.startswith("getelementptr") or v.startswith("inttoptr"):
            return True
        d = f.defs.get(v)
        if d is None:
            return False
        if d.op == "alloca":
            return True
        if d.op == "gep":
            p = path(f, v)
            return self.is_nn(f, p.base, nn) if p.base != v else False
        if d.op in ("bitcast", "freeze"):
            return self.is_nn(f, d.ops[0], nn)
        if d.op == "call":
            return self.call_nullness(d) is None
        if d.op == "select":
            return self.is_nn(f, d.ops[1], nn) and self.is_nn(f, d.ops[2], nn)
        return False

    def out(self, b, st):
        """state at the end of block: dereferences imply non-null"""
        nn = set(st[0])
        f = b.fn
        for i in b.insts:
            self.step(f, i, nn)
        return nn, st[1]

    def step(self, f, i, nn):
        for v in self.deref_ops(f, i):
            nn.add(v)
        if i.op == "call" and i.res and i.ty == "ptr":
            c = self.call_nullness(i)
            if c is None:
                nn.add(i.res)

    def deref_ops(self, f, i):
        """pointer values dereferenced by instruction i (bases)"""
        out = []
        if i.op == "load":
            out.append(path(f, i.ops[0]).base)
        elif i.op == "store":
            out.append(path(f, i.ops[1]).base)
        elif i.op == "atomicrmw" or i.op == "cmpxchg":
            out.append(path(f, i.ops[0]).base)
        elif i.op == "call":
            for k, a in enumerate(i.ops):
                if k < len(i.x["tys"]) and i.x["tys"][k] == "ptr" and self.arg_deref(i, k):
                    out.append(path(f, a).base)
        return out

    def arg_deref(self, i, k):
        """argument k of call i is dereferenced (or declared nonnull) by every possible callee"""
        ts = self.P.targets(i)
        r = None
        for t in ts:
            r = self._arg_deref1(t, k)
            if r:
                return r
        return None

    def _arg_deref1(self, t, k):
        fn = self.P.functions.get(t)
        c = self.contracts.get(fn.name if fn else t)
        if fn is not None:
            d = self.derefs.get(t, {})
            if k in d:
                return "dereferenced at %s" % d[k].where()
            if c and k in c[1] and not fn.internal:
                return "declared nonnull"
            return None
        if t == "?" or t.startswith("*"):
            return None
        if t.startswith("llvm.memcpy") or t.startswith("llvm.memmove"):
            return "memory access" if k in (0, 1) else None
        if t.startswith("llvm.memset"):
            return "memory access" if k == 0 else None
        if t.startswith("llvm."):
            return None
        if (t, "*") in NULL_OK or (t, k) in NULL_OK:
            return None
        if t.startswith(TALLOC_CTX0) and k == 0 and not ("append" in t or t in ("talloc_steal",)):
            return None
        if t in ("printf", "fprintf", "snprintf", "sprintf", "asprintf") and k > 2:
            return None
        d = self.P.decls.get(t)
        if d is not None and d.varargs and k >= len(d.params):
            return None
        if c and k in c[1]:
            return "declared nonnull"
        return "used by %s" % t

    def call_nullness(self, i):
        """None if the result cannot be null, else {kind: reason}"""
        if i.ty != "ptr":
            return None
        c = cname(i)
        if c in BUILTIN_LOOKUP:
            s = self.const_string(i.fn, i.ops[0])
            if s is not None and s in self.builtin_names():
                return None
        if c in STACK_READ or c == "handlebars_stack_get" or c in GET_TYPE:
            if self.guarded(i, c):
                return None
        res = {}
        for t in self.P.targets(i):
            fn = self.P.functions.get(t)
            if fn is None:
                if t in ALLOC:
                    res["alloc"] = "result of %s" % t
                elif t in FIND:
                    res["find"] = "result of %s" % t
                elif t in RET_ARG:
                    r = self.value_null(i.fn, i.ops[RET_ARG[t]])
                    if r:
                        res.update(r)
                continue
            m = self.maynull.get(t)
            if m:
                for k, v in m.items():
                    res.setdefault(k, "%s() may return null: %s" % (fn.name, v) if len(v) < 300 else v)
            for p in self.retparam.get(t, ()):
                if p < len(i.ops):
                    r = self.value_null(i.fn, i.ops[p])
                    if r:
                        res.update(r)
        return res or None

    def guarded(self, i, c):
        """container access proved in range / of the right kind by the facts at the call"""
        k = ("g", id(i))
        cache = self.__dict__.setdefault("_g", {})
        if k in cache:
            return cache[k]
        cache[k] = r = self._guarded(i, c)
        return r

    def _guarded(self, i, c):
        f = i.fn
        fs = an.dom_facts(i)
        if c in GET_TYPE:
            want = {self.P.enum("HANDLEBARS_VALUE_TYPE_" + t) for t in GET_TYPE[c]}
            for fact in fs:
                if fact[0] in ("eq", "in"):
                    d = f.defs.get(an.strip(f, fact[1]))
                    vals = set(fact[2]) if fact[0] == "in" else {const_int(fact[2])}
                    if d is None or not vals <= want:
                        continue
                    if d.op == "call" and cname(d).startswith("handlebars_value_get_type") and d.ops[0] == i.ops[0]:
                        return True
                    if d.op == "load":
                        pl = an.place(f, d.ops[0])
                        a, b = path(f, d.ops[0]), path(f, i.ops[0])
                        if pl and pl[:2] == ("handlebars_value", "type") and a.base == b.base and a.sym == b.sym and \
                                a.off - _type_off(self.P) == b.off:
                            return True
            if localv_param(f) and path(f, i.ops[0]).base == localv_param(f):
                return True       # captured by the closure's constructor with a fixed kind
            if c == "handlebars_value_get_map":
                for j in f.calls():
                    if cname(j) == "handlebars_stack_pop" and j.ops[1] == i.ops[0] and an.inst_dominates(j, i):
                        d = f.defs.get(j.ops[0])
                        pl = an.place(f, d.ops[0]) if d is not None and d.op == "load" else None
                        if pl and pl[:2] == ("handlebars_vm", "hashStack"):
                            return True
            return False
        d = f.defs.get(i.ops[0])
        if c in STACK_READ and d is not None and d.op == "load":
            pl = an.place(f, d.ops[0])
            if pl and pl[:2] in BALANCED:
                return True
        cnt = ({"count(%s)" % linear.container(f, i.ops[0]): 1}, 0)
        if c in STACK_READ:
            return linear.prove(f, (cnt[0], -1), fs)
        e = linear.lin(f, i.ops[1])
        hi = linear.comb(cnt, e, -1)
        return linear.prove(f, (hi[0], hi[1] - 1), fs) and linear.prove(f, e, fs)

    def const_string(self, f, v):
        """bytes of a C string or string object with constant contents"""
        b = f.mod.cstr(v) if v.startswith("@") else None
        if b is not None:
            return b
        d = f.defs.get(v)
        if d is not None and d.op == "call":
            n = cname(d)
            if n == "hbs_str_val":
                return self.const_string(f, d.ops[0])
            if n == "handlebars_string_ctor" and len(d.ops) == 3:
                return self.const_string(f, d.ops[1])
        return None

    def builtin_names(self):
        if "_bn" not in self.__dict__:
            self._bn = set()
            for M in self.P.mods.values():
                for g, (fl, t, init) in M.globals.items():
                    if init and init.startswith("[") and t.endswith("x ptr]"):
                        vals = [M.cstr(v) for _, v in an.parse_aggregate(init) if v.startswith("@")]
                        if b"helperMissing" in vals:
                            self._bn |= {v for v in vals if v}
        return self._bn

    def value_null(self, f, v, nn=frozenset(), seen=None):
        """{kind: reason} if v may be null (sources only), else None"""
        seen = set() if seen is None else seen
        if v in seen or v in nn:
            return None
        seen.add(v)
        if v == "null":
            return {"null": "null constant"}
        d = f.defs.get(v)
        if d is None:
            return None
        if d.op == "call":
            return self.call_nullness(d)
        if d.op in ("bitcast", "freeze"):
            return self.value_null(f, d.ops[0], nn, seen)
        if d.op == "gep":
            p = path(f, v)
            return self.value_null(f, p.base, nn, seen) if p.base != v else None
        return None

    # phi/select aware, flow sensitive evaluation at a block
    def may_be_null(self, f, IN, v, b, nn, seen=None, use=None):
        seen = set() if seen is None else seen
        if v in nn or v in seen:
            return None
        seen.add(v)
        d = f.defs.get(v)
        if d is not None and d.op == "phi" and d.ty == "ptr":
            res = {}
            if use is None:
                use = an.dom_facts(b)
            for o, lab in d.ops:
                p = f.blocks[lab]
                if p not in IN:
                    continue
                st = self.edge(p, d.block, self.out(p, IN[p]))
                if st is None:
                    continue
                if self.is_nn(f, o, st[0]):
                    continue
                ef = edge_facts(p, d.block) + an.dom_facts(p)
                if contradictory(f, d.block, use, ef):
                    continue
                r = self.may_be_null(f, IN, o, p, st[0], seen, use + ef)
                if r:
                    for k, x in r.items():
                        res.setdefault(k, x)
            return res or None
        if d is not None and d.op == "select" and d.ty == "ptr":
            res = {}
            tf = {a for (pr, a, z) in an.facts(f, d.ops[0], True) if pr == "ne" and z == "null"}
            ff = {a for (pr, a, z) in an.facts(f, d.ops[0], False) if pr == "ne" and z == "null"}
            for o, known in ((d.ops[1], tf), (d.ops[2], ff)):
                if o in known or self.is_nn(f, o, nn):
                    continue
                r = self.may_be_null(f, IN, o, b, nn, seen)
                if r:
                    for k, x in r.items():
                        res.setdefault(k, x)
            return res or None
        return self.value_null(f, v, nn)

    def edge(self, p, b, st):
        """state after edge p->b, or None if infeasible"""
        f = p.fn
        nn, nl = set(st[0]), set(st[1])
        for pr, a, z in edge_facts(p, b):
            if z == "null":
                base = a
                if pr == "ne":
                    if a in nl:
                        return None
                    nn.add(a)
                    pb = path(f, a)
                    if pb.base != a and not pb.sym:
                        nn.add(pb.base)
                elif pr == "eq":
                    if a in nn or self._sure_nn(f, a):
                        return None
                    nl.add(a)
            elif pr in ("eq",) and isinstance(z, str) and z.startswith("%") :
                if z in nn:
                    nn.add(a)
                if a in nn:
                    nn.add(z)
        return nn, nl

    def _sure_nn(self, f, v):
        d = f.defs.get(v)
        return v.startswith("@") or (d is not None and d.op == "alloca")

    # -- summaries ------------------------------------------------------------------------------
    def _iterate(self):
        fns = [f for f in self.P.functions.values()]
        callers = {}
        for f, ts in self.P.cg.items():
            for t in ts:
                callers.setdefault(t, set()).add(f)
        work = [f.uname for f in fns]
        inq = set(work)
        steps = 0
        while work:
            u = work.pop(0)
            inq.discard(u)
            f = self.P.functions[u]
            steps += 1
            if steps > 20000:
                break
            if self._summarise(f):
                for c in callers.get(u, ()):
                    if c not in inq and c in self.P.functions:
                        inq.add(c)
                        work.append(c)

    def _summarise(self, f):
        IN = self.flow(f)
        pidx = {p[1]: k for k, p in enumerate(f.params)}
        old = (dict(self.maynull.get(f.uname, {})), set(self.retparam.get(f.uname, ())), set(self.derefs.get(f.uname, {})))
        may, rp, de = {}, set(), dict(self.derefs.get(f.uname, {}))
        for b in f.order:
            if b not in IN:
                continue
            nn = set(IN[b][0])
            nl = IN[b][1]
            for i in b.insts:
                for v in self.deref_ops(f, i):
                    if v in pidx and v not in nn and pidx[v] not in de:
                        de[pidx[v]] = i
                if i.op == "ret" and i.ops and i.ty == "ptr":
                    v = i.ops[0]
                    for leaf, st in self._ret_leaves(f, IN, v, b, nn):
                        if leaf in pidx:
                            if leaf not in st:
                                rp.add(pidx[leaf])
                    r = self.ret_null(f, IN, v, b, nn, nl, i)
                    if r:
                        for k, x in r.items():
                            may.setdefault(k, x)
                self.step(f, i, nn)
        self.maynull[f.uname], self.retparam[f.uname], self.derefs[f.uname] = may, rp, de
        return (set(may), rp, set(de)) != (set(old[0]), old[1], old[2])

    def ret_null(self, f, IN, v, b, nn, nl, i):
        r = {"null": "returns null"} if (v == "null" or v in nl) else self.may_be_null(f, IN, v, b, nn)
        if not r or "null" not in r:
            return r
        # a null constant returned because an allocation (or a finder) gave null keeps that cause
        r = dict(r)
        del r["null"]
        if v == "null" or v in nl:
            preds = [(b, nl)]
        else:
            preds = []
            seen = set()
            work = [v]
            while work:
                x = work.pop()
                d = f.defs.get(x)
                if d is None or d.op != "phi" or x in seen:
                    continue
                seen.add(x)
                for o, lab in d.ops:
                    p = f.blocks[lab]
                    if p not in IN:
                        continue
                    st = self.edge(p, d.block, self.out(p, IN[p]))
                    if st is None:
                        continue
                    if o == "null" or o in st[1]:
                        preds.append((p, st[1]))
                    else:
                        work.append(o)
        for p, known in preds:
            causes = set()
            for a in set(known) | {x[1] for x in an.dom_facts(p) if x[0] == "eq" and x[2] == "null"}:
                d = f.defs.get(a)
                if d is not None and d.op == "call":
                    q = self.call_nullness(d)
                    if q and "alloc" in q:
                        causes.add(("alloc", q["alloc"]))
            if causes:
                r.update(dict(causes))
            else:
                r["null:" + f.name] = "returns null at %s" % i.where()
        return r or {"null:" + f.name: "returns null at %s" % i.where()}

    def _ret_leaves(self, f, IN, v, b, nn, seen=None):
        seen = set() if seen is None else seen
        if v in seen:
            return
        seen.add(v)
        d = f.defs.get(v)
        if d is not None and d.op == "phi":
            for o, lab in d.ops:
                p = f.blocks[lab]
                if p in IN:
                    st = self.edge(p, d.block, self.out(p, IN[p]))
                    if st is not None:
                        yield from self._ret_leaves(f, IN, o, p, st[0], seen)
        elif d is not None and d.op == "select":
            yield from self._ret_leaves(f, IN, d.ops[1], b, nn, seen)
            yield from self._ret_leaves(f, IN, d.ops[2], b, nn, seen)
        else:
            yield v, nn

    # -- checking ----------------------------------------------------------------------------------
    def check(self, f, want):
        """yield (inst, value, kinds/reason, how) for unguarded uses of possibly-null call results"""
        IN = self.flow(f)
        for b in f.order:
            if b not in IN:
                continue
            nn = set(IN[b][0])
            for i in b.insts:
                sinks = []
                if i.op == "load":
                    sinks.append((path(f, i.ops[0]).base, "dereferenced"))
                elif i.op == "store":
                    sinks.append((path(f, i.ops[1]).base, "dereferenced"))
                elif i.op == "call":
                    for k, a in enumerate(i.ops):
                        if k < len(i.x["tys"]) and i.x["tys"][k] == "ptr":
                            h = self.arg_deref(i, k)
                            if h:
                                sinks.append((path(f, a).base, "passed as argument %d of %s (%s)" % (k + 1, "/".join(sorted(self.P.targets(i))), h)))
                elif i.op == "ret" and i.ops and i.ty == "ptr":
                    c = self.contracts.get(f.name)
                    if c and c[0]:
                        sinks.append((i.ops[0], "returned by a function declared to return non-null"))
                for v, how in sinks:
                    if v in nn:
                        continue
                    r = {"null": "null constant"} if v in IN[b][1] and v not in nn else self.may_be_null(f, IN, v, b, nn)
                    if r and (want is None or set(r) & want):
                        yield i, v, r, how
                self.step(f, i, nn)


def contracts(sigfiles):
    """declared nonnull contracts from the attribute-carrying lowering: name -> (ret nonnull, {params})"""
    import re
    from .ir import match_close, split_top
    out = {}
    for u, p in sigfiles.items():
        for l in open(p, errors="replace"):
            if not (l.startswith("define") or l.startswith("declare")):
                continue
            m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
            if not m:
                continue
            j = match_close(l, m.end() - 1)
            ps = {k for k, a in enumerate(split_top(l[m.end():j])) if re.search(r"\bnonnull\b", a)}
            ret = bool(re.search(r"\bnonnull\b", l[:m.start()]))
            n = m[1].strip('"')
            o = out.get(n)
            out[n] = (ret or (o[0] if o else False), ps | (o[1] if o else set()))
    return out
