"""C10: opcode numbers, names, operands and handlers agree."""
from .. import an, vmq
from ..an import const_int, path
from ..flow import Flow
from . import c11

RULE = ("The finite table of opcodes is enumerated: each has one name, no two share one, and the name leads back to the same opcode "
        "(both lookups followed with their argument fixed); every opcode a compiler path emits is one whose handler acts as the opcode "
        "is specified (calls made, members and stacks used), or is refused with an error; each operand a handler uses is used as the kind "
        "every compiler path gives it, with the operand kind fixed to each possibility in turn; the declared operand count covers every "
        "operand set or used, and printing an opcode prints that many.")
ASSUME = ["opcode structures start out zeroed"]
UNSUPPORTED = ("nil", "push", "push_id", "push_string_param", "register_decorator")

# what the handler of an opcode must do: ('call', name) / ('no', name) / ('reads', member of the machine) / ('writes', member)
ACTS = {
    "append": [("last", ("handlebars_value_expression_append", 0))], "append_escaped": [("last", ("handlebars_value_expression_append", 1))],
    "append_content": [("call", "handlebars_string_append"), ("writes", "buffer")],
    "assign_to_hash": [("call", "handlebars_map_update"), ("reads", "hashStack")],
    "block_value": [("str", b"blockHelperMissing"), ("writes", "buffer")],
    "ambiguous_block_value": [("str", b"blockHelperMissing"), ("reads", "last_helper")],
    "get_context": [("reads", "last_context"), ("reads", "contextStack")],
    "empty_hash": [("call", "handlebars_map_ctor")],
    "pop_hash": [("reads", "hashStack")], "push_hash": [("reads", "hashStack"), ("call", "handlebars_map_ctor")],
    "push_context": [("reads", "last_context"), ("no", "handlebars_value_map_find")],
    "push_program": [("call", "handlebars_value_integer"), ("no", "handlebars_value_str"), ("no", "handlebars_value_boolean")],
    "push_literal": [("call", "handlebars_value_boolean"), ("call", "handlebars_value_integer"), ("call", "handlebars_value_str")],
    "push_string": [("call", "handlebars_value_str"), ("no", "handlebars_value_boolean")],
    "lookup_block_param": [("reads", "blockParamStack"), ("call", "handlebars_value_array_find")],
    "lookup_data": [("reads", "data"), ("call", "handlebars_value_map_find")],
    "lookup_on_context": [("call", "handlebars_value_array_find"), ("call", "handlebars_value_map_find"), ("reads", "last_context")],
    "resolve_possible_lambda": [("call", "handlebars_value_is_callable"), ("call", "handlebars_value_call")],
    "invoke_ambiguous": [("call", "handlebars_value_call"), ("str", b"helperMissing"), ("writes", "last_helper")],
    "invoke_helper": [("call", "handlebars_value_call"), ("str", b"helperMissing")],
    "invoke_known_helper": [("call", "handlebars_value_call"), ("no", "handlebars_value_is_callable")],
    "invoke_partial": [("call", "handlebars_value_call"), ("reads", "partials"), ("reads", "partialBlockStack")],
}


def run(ctx, rep):
    P = ctx.inl
    D = vmq.Dispatch(P)
    enum = {v: k.replace("handlebars_opcode_type_", "") for k, v in P.enum_type("handlebars_opcode_type").items()}
    names(P, enum, rep)
    rep.floor("name", 50, "opcode names")
    num = counts(P, enum, rep)
    emitted = emissions(ctx.raw, enum)
    if len(emitted) < 20:
        raise an.AnalysisError("C10: only %d opcodes found to be emitted" % len(emitted))
    handlers(P, D, enum, emitted, rep)
    rep.floor("handler", 22, "opcode handlers")
    operands(P, D, enum, emitted, num, rep)
    rep.floor("operand", 20, "operands")
    printing(P, rep)
    rep.floor("print", 3, "printed operands")


def one(P, f, env, hook=None):
    """constants f may return with its inputs fixed: list of operands"""
    rets = [i.ops[0] for i in f.insts() if i.op == "ret"]
    H = {}

    def tr(i, t, e):
        r = hook(i, e, H["F"]) if hook else None
        if r is not None:
            return [("@env", t, {i.res: r})]
        return t
    keep = list(env) + rets
    calls = [i.res for i in f.insts() if i.res and i.op in ("call", "load")]
    F = H["F"] = Flow(f, 0, tr, cap=300, extra=rets + calls, keep=keep, env0=env)
    F.run()
    out = []
    for r, t, e in F.exits:
        v = r.ops[0]
        for _ in range(8):
            w = e.get(("=", v))
            if w is None:
                break
            v = w
        x = F.val(v, e)
        d = f.defs.get(v)
        if d is not None and d.op == "phi" and not isinstance(x, int):
            out += [o for o in an.leaves(f, v)]
        else:
            out.append(str(x) if isinstance(x, int) else v)
    return out


def find(P, name, ret=None):
    f = P.functions.get(name)
    if f is None:
        raise an.AnalysisError("C10: %s not found" % name)
    return f


def names(P, enum, rep):
    f = find(P, "handlebars_opcode_readable_type")
    g = find(P, "handlebars_opcode_reverse_readable_type")
    got = {}
    for v, n in sorted(enum.items()):
        rs = set(one(P, f, {f.params[0][1]: v}))
        ss = {f.mod.cstr(r) for r in rs} if all(isinstance(r, str) and r.startswith("@") for r in rs) else set()
        s = next(iter(ss)) if len(ss) == 1 else None
        want = "".join(w.capitalize() if k else w for k, w in enumerate(n.split("_"))).encode()
        rep.check(s == want, "name", n, f.entry.term.where(), "opcode %d (%s) is named %s" % (v, n, s))
        if s in got and s is not None:
            rep.bad("name", n + "|twice", f.entry.term.where(), "opcodes %s and %s share the name %s" % (got[s], n, s))
        got[s] = n
        if s is None:
            continue

        def hook(i, e, F, s=s):
            if i.op == "load" and i.ty == "i8":
                p = path(g, i.ops[0])
                if p.base == g.params[0][1] and not p.sym and 0 <= p.off <= len(s):
                    return (s + b"\0")[p.off]
            if i.op == "call" and i.x["callee"] in ("strcmp", "strncmp", "memcmp", "strcasecmp"):
                o = [x for x in i.ops[:2] if x != g.params[0][1]]
                c = g.mod.cstr(o[0]) if len(o) == 1 and o[0].startswith("@") else None
                if c is not None:
                    n = const_int(i.ops[2]) if len(i.ops) > 2 else None
                    a, b = (s + b"\0", c + b"\0") if n is None else ((s + b"\0")[:n], (c + b"\0")[:n])
                    return 0 if a == b else "nn"
            if i.op == "call" and i.x["callee"] == "strlen" and i.ops[0] == g.params[0][1]:
                return len(s)
        rs = {const_int(x) for x in one(P, g, {}, hook)}
        rep.check(rs == {v}, "name", n + "|back", g.entry.term.where(), "the name %s of opcode %d leads to %s" % (
            s.decode(errors="replace"), v, ", ".join(sorted(str(x) for x in rs))))


def counts(P, enum, rep):
    f = find(P, "handlebars_opcode_num_operands")
    out = {}
    for v, n in enum.items():
        rs = {const_int(x) for x in one(P, f, {f.params[0][1]: v})}
        if len(rs) == 1:
            out[n] = next(iter(rs))
    if len(out) != len(enum) or None in out.values():
        raise an.AnalysisError("C10: operand counts not evaluated")
    return out


# ---- what the compiler emits -----------------------------------------------------------------------

def ctor_of(f, v):
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    for _ in range(3):
        if d is not None and d.op == "call" and d.x["callee"] != "handlebars_opcode_ctor":
            d = next((f.defs[o] for o in d.ops if o in f.defs and f.defs[o].op == "call"), None)
    return d if d is not None and d.op == "call" and d.x["callee"] == "handlebars_opcode_ctor" else None


def setters(P):
    """{function: (operand argument, kind)} of the functions giving an operand a kind"""
    out = {}
    for u, f in P.functions.items():
        for i in f.insts():
            if i.op == "store" and const_int(i.ops[0]) is not None:
                p = path(f, i.ops[1])
                for n, pp in enumerate(f.params):
                    r = pp[1]
                    if p.base == r and not p.sym and p.off == 0 and (an.place(f, i.ops[1]) or ("", ""))[:2] == ("handlebars_operand", "type") and \
                            an.ptr_struct(f.mod, an.fn_sig(f.mod, f)[1][n]) == "handlebars_operand":
                        out[u] = (n, const_int(i.ops[0]))
    return out


def emissions(P, enum):
    """{opcode name: {4-tuple of operand kinds: [compiler flags (mask, set or not) known on each emitting path]}}"""
    st = setters(P)
    offs = {}
    for n, o, _, sz in P.struct("handlebars_opcode"):
        if n.startswith("op") and n[2:].isdigit():
            offs[o // 8] = int(n[2:])
    out = {}
    callers = {}
    for u, f in P.functions.items():
        for i in f.insts():
            if i.op == "call":
                for t in P.targets(i):
                    callers.setdefault(t, []).append((f, i))

    def consts(f, v, depth=0):
        r = set()
        for x in an.leaves(f, v):
            c = const_int(x)
            if c is not None:
                r.add(c)
                continue
            for n, p in enumerate(f.params):
                if p[1] == x and depth < 4:
                    for g, i in callers.get(f.uname, ()):
                        if n < len(i.ops):
                            r |= consts(g, i.ops[n], depth + 1)
        return r
    for u, f in P.functions.items():
        ct = [i for i in f.insts() if i.op == "call" and i.x["callee"] == "handlebars_opcode_ctor"]
        if not ct or f.mod.unit != "handlebars_compiler.c":
            continue
        ids = {i: n for n, i in enumerate(ct)}

        def tr(i, t, env):
            if i in ids:
                return frozenset(x for x in t if x[0] != ids[i]) | {(ids[i], 0, 0)}
            if i.op == "call":
                for tg in P.targets(i):
                    if tg in st and st[tg][0] < len(i.ops):
                        p = path(f, i.ops[st[tg][0]])
                        c = ctor_of(f, p.base)
                        if c is not None and p.off in offs:
                            k = offs[p.off]
                            return frozenset(x for x in t if x[:2] != (ids[c], k)) | {(ids[c], k, st[tg][1])}
                for o in i.ops:
                    if isinstance(o, str) and i.x["callee"] != "handlebars_opcode_ctor" and an.ret_struct(f, i) != "handlebars_opcode":
                        cs = [ctor_of(f, x) for x in an.leaves(f, o)]
                        for c in cs:
                            if c is not None and any(x[0] == ids[c] for x in t) and f.defs.get(o) is not None and not path(f, o).off \
                                    and i.x["callee"].endswith("_opcode"):
                                kinds = tuple(next((x[2] for x in t if x[:2] == (ids[c], k)), 0) for k in range(1, 5))
                                for v in consts(f, c.ops[1]):
                                    if v in enum:
                                        out.setdefault(enum[v], {}).setdefault(kinds, []).append(frozenset(x[1:] for x in t if x[0] == "flag"))
                                t = frozenset(x for x in t if x[0] != ids[c])
            return t
        def edge(b, s, t, env):
            for m, z in flagtests(f, b, s):
                if ("flag", m, 1 - z) in t:
                    return None
                t = t | {("flag", m, z)}
            return t
        Flow(f, frozenset(), tr, edge, cap=64).run()
    return out


def flagtests(f, b, s):
    """[(mask, 1 set / 0 clear)]: what the edge b->s says of single bits of a flags member"""
    out = []
    for fc in an.edge_facts(b, s):
        if fc[0] in ("eq", "ne") and const_int(fc[2]) == 0 and isinstance(fc[1], str):
            d = f.defs.get(an.strip(f, fc[1]))
            m = const_int(d.ops[1]) if d is not None and d.op == "and" else None
            if m and m & (m - 1) == 0:
                l = f.defs.get(an.strip(f, d.ops[0]))
                pl = an.place(f, l.ops[0]) if l is not None and l.op == "load" else None
                if pl and pl[1] == "flags" and pl[0] in ("handlebars_vm", "handlebars_compiler"):
                    out.append((m, 1 if fc[0] == "ne" else 0))
    return out


# ---- the virtual machine ---------------------------------------------------------------------------

def handlers(P, D, enum, emitted, rep):
    f = D.fn
    off = {o // 8: n for n, o, _, _ in P.struct("handlebars_vm")}

    def member(a):
        pl = an.place(f, a)
        if pl and pl[0] == "handlebars_vm":
            return pl[1]
        p = path(f, a)
        if isinstance(p.base, str) and not p.sym and an.pointee(f, p.base) == "handlebars_vm":
            return off.get(p.off)
        return None
    for n, name in sorted(enum.items()):
        if n < 0:
            continue
        b = D.entry.get(n)
        if b is None:
            ok = name not in ACTS and (D.kind == "switch" or name not in emitted)
            rep.check(ok, "handler", name, f.entry.term.where(), "opcode %s has no handler" % name)
            continue
        calls, strs, reads, writes, last = set(), set(), set(), set(), set()
        for i in D.insts(n):
            if i.op == "call":
                calls.add(i.x["callee"])
                if i.ops and const_int(i.ops[-1]) is not None:
                    last.add((i.x["callee"], abs(const_int(i.ops[-1]))))
                for o in i.ops:
                    if isinstance(o, str) and o.startswith("@"):
                        strs.add(f.mod.cstr(o))
                    elif isinstance(o, str) and member(o):
                        reads.add(member(o))
            elif i.op == "load" and member(i.ops[0]):
                reads.add(member(i.ops[0]))
            elif i.op == "store" and member(i.ops[1]):
                writes.add(member(i.ops[1]))
        have = {"call": calls, "str": strs, "reads": reads, "writes": writes, "last": last}
        if name not in ACTS:
            thr = {"handlebars_throw", "handlebars_throw_ex"} & calls
            onward = any(s in D.stop for x in D.region[n] for s in x.succs)
            rep.check(name == "return" or not onward and thr, "handler", name, b.term.where(), "opcode %s is neither executed nor refused" % name)
            continue
        miss = [a for a in ACTS[name] if (a[1] in calls if a[0] == "no" else not (a[1] in have[a[0]]))]
        rep.check(not miss, "handler", name, b.term.where(), "the handler of %s %s" % (name, "; ".join(
            {"call": "does not call %s", "no": "calls %s", "str": "does not use the name %s", "reads": "does not use the machine's %s",
             "writes": "does not set the machine's %s", "last": "does not call %s"}[a[0]] % (a[1].decode() if isinstance(a[1], bytes) else "%s with %d" % a[1] if isinstance(a[1], tuple) else a[1]) for a in miss)))


KIND = {0: "null", 1: "boolean", 2: "long", 3: "string", 4: "array"}


def use_kinds(i, off):
    """operand kinds for which reading this part of an operand makes sense"""
    if off == 0 and i.ty == "ptr":
        return {3}
    if off == 8:
        return {4}
    if off == 0 and i.ty == "i8":
        return {0, 1}
    if off == 0 and i.ty == "i64":
        return {0, 2, 4}
    return None


def operands(P, D, enum, emitted, num, rep):
    f = D.fn
    tyoff = next(o // 8 for n, o, _, _ in P.struct("handlebars_operand") if n == "type")
    daoff = next(o // 8 for n, o, _, _ in P.struct("handlebars_operand") if n == "data")
    acc = {}
    for i in f.insts():
        if i.op != "load":
            continue
        o = c11.operand(P, f, i.ops[0])
        if o:
            acc[i] = (o[0], "type" if o[1] == tyoff - daoff else o[1])
    loads = [i.res for i in acc]
    for n, name in sorted(D.ops.items()):
        kinds = emitted.get(name)
        if not kinds or name not in ACTS or n not in D.entry:
            continue
        mx = max((k + 1 for t in kinds for k in range(4) if t[k]), default=0)
        insts = set(D.insts(n))
        mu = max((acc[i][0] for i in acc if i in insts), default=0)
        rep.check(num[name] >= max(mx, mu), "operand", name + "|count", D.entry[n].term.where(),
                  "%s has %d operands but %d are declared" % (name, max(mx, mu), num[name]))
        for t in sorted(kinds):
            bad = []

            def tr(i, st, env):
                if i in acc:
                    k, o = acc[i]
                    if o == "type":
                        return [("@env", st, {i.res: t[k - 1]})]
                    ok = use_kinds(i, o)
                    if ok is not None and t[k - 1] not in ok and any(not any((m, 1 - z) in fl for m, z in st) for fl in kinds[t]):
                        bad.append((i, k))
                return st

            def edge(x, s, st, env):
                return None if s in D.stop else st | frozenset(flagtests(f, x, s))
            F = Flow(f, frozenset(), tr, edge, cap=300, extra=loads, start=D.entry[n])
            F.run()
            rep.check(not bad, "operand", "%s|%s" % (name, ",".join(KIND.get(x, "?") for x in t)), bad[0][0].where() if bad else D.entry[n].term.where(),
                      "%s uses operand %d, compiled as %s, as something else" % (name, bad[0][1] if bad else 0, KIND.get(t[bad[0][1] - 1]) if bad else ""))


def printing(P, rep):
    """printing an opcode with n operands prints operands 1..n"""
    offs = {}
    for n, o, _, sz in P.struct("handlebars_opcode"):
        if n.startswith("op") and n[2:].isdigit():
            offs[o // 8] = int(n[2:])
    fs = [f for f in P.functions.values() if any(i.op == "call" and i.x["callee"] == "handlebars_opcode_num_operands" for i in f.insts())
          and any(an.ptr_struct(f.mod, t) == "handlebars_string" for t in an.fn_sig(f.mod, f)[1]) and not f.avail]
    if not fs:
        raise an.AnalysisError("C10: no function printing opcodes")
    ptype = P.callers_closure({"handlebars_operand_print_append"})
    for f in fs:
        ops = [p[1] for n, p in enumerate(f.params) if an.ptr_struct(f.mod, an.fn_sig(f.mod, f)[1][n]) == "handlebars_opcode"]
        types = [i.res for i in f.insts() if i.op == "load" and i.ty == "i32" and path(f, i.ops[0]).base in ops and tyop(P, f, i.res, offs)]
        for want in range(5):
            missed = set()

            def tr(i, t, env):
                if i.op == "call" and i.x["callee"] == "handlebars_opcode_num_operands":
                    return [("@env", t, {i.res: want})]
                if i.op == "call":
                    for o in i.ops:
                        for _ in range(6):
                            o = env.get(("=", o), o)
                        p = path(f, o)
                        if p.base in ops and not p.sym and p.off in offs:
                            return t | {offs[p.off]}
                return t
            nres = [i.res for i in f.insts() if i.op == "call" and i.x["callee"] == "handlebars_opcode_num_operands"]
            pp = [i.res for i in f.insts() if i.op == "phi" and i.ty == "ptr" and any(path(f, x).base in ops for x in an.leaves(f, i.res))]
            F = Flow(f, frozenset(), tr, cap=300, extra=nres + types + pp, keep=nres + types + pp).run()
            for r, t, env in F.exits:
                for k in range(1, want + 1):
                    if k not in t and not any(env.get(x) == 0 and tyop(P, f, x, offs) == k for x in types):
                        missed.add(k)
            rep.check(not missed, "print", "%s|%d" % (f.name, want), f.entry.term.where(),
                      "%s does not print operand %s of an opcode with %d" % (f.name, min(missed, default=0), want))


def tyop(P, f, x, offs):
    p = path(f, f.defs[x].ops[0])
    return offs.get(p.off - next(o // 8 for n, o, _, _ in P.struct("handlebars_operand") if n == "type"))
