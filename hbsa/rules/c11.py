"""C11: compiler and virtual machine agree on what every opcode takes from and leaves on the value stacks."""
from .. import an, loops, vmq
from ..an import const_int, path
from ..flow import Flow

RULE = ("Every handler of the virtual machine, on every path that does not raise an error, changes the height of the value stack and "
        "of the hash stack by exactly the amount fixed for its opcode (parameters counted by the operand carrying their number), and "
        "leaves the other stacks at the same height. With the same amounts, every path of every compiler function emitting opcodes is "
        "balanced: an expression leaves exactly one value, a statement none, parameter lists one per parameter.")
ASSUME = ["a parameter list is not changed between counting and emitting it", "lists hold what the grammar puts in them"]

# opcode: (values, parameters counted, hashes)
SPEC = {
    "append": (-1, 0, 0), "append_escaped": (-1, 0, 0), "append_content": (0, 0, 0), "assign_to_hash": (-1, 0, 0),
    "block_value": (-4, 0, 0), "ambiguous_block_value": (-3, 0, 0), "get_context": (0, 0, 0), "empty_hash": (1, 0, 0),
    "invoke_ambiguous": (-2, 0, 0), "invoke_helper": (-3, -1, 0), "invoke_known_helper": (-2, -1, 0),
    "lookup_block_param": (1, 0, 0), "lookup_data": (1, 0, 0), "lookup_on_context": (1, 0, 0), "pop_hash": (1, 0, -1),
    "push_context": (1, 0, 0), "push_hash": (0, 0, 1), "push_program": (1, 0, 0), "push_literal": (1, 0, 0),
    "push_string": (1, 0, 0), "resolve_possible_lambda": (0, 0, 0),
    "invoke_partial": (-4, 0, 0),      # one more when the name is on the stack
}
STACKS = ("stack", "contextStack", "hashStack", "blockParamStack", "partialBlockStack")


def run(ctx, rep):
    D = machine(ctx.inl, rep)
    rep.floor("opcode", 20, "opcodes of the virtual machine")
    compiler(ctx.raw, D, rep)
    rep.floor("emit", 15, "compiler functions and node kinds")


# ---- virtual machine -----------------------------------------------------------------------------

def machine(P, rep):
    D = vmq.Dispatch(P)
    f = D.fn
    off = {o // 8: n for n, o, _, _ in P.struct("handlebars_vm")}

    def which(i):
        """(stack name, +1/-1) of a push or pop"""
        c = i.x["callee"]
        if c not in ("handlebars_stack_push", "handlebars_stack_pop"):
            return None
        ks = set()
        for x in an.leaves(f, i.ops[0]):
            d = f.defs.get(x)
            while d is not None and d.op == "call" and d.x["callee"] == "handlebars_stack_push":
                d = f.defs.get(d.ops[0])
            pl = an.place(f, d.ops[0]) if d is not None and d.op == "load" else None
            k = pl[1] if pl and pl[0] == "handlebars_vm" else None
            if k is None and d is not None and d.op == "load":
                p = path(f, d.ops[0])
                k = off.get(p.off) if not p.sym and an.pointee(f, p.base) == "handlebars_vm" else None
            ks.add(k)
        k = ks.pop() if len(ks) == 1 else None
        return (k, 1 if c.endswith("push") else -1) if k in STACKS else None
    ev = {i: which(i) for i in f.insts() if i.op == "call" and which(i)}
    stray = [i for i in f.insts() if i.op == "call" and i.x["callee"] in ("handlebars_stack_push", "handlebars_stack_pop") and i not in ev]
    for i in stray:
        raise an.AnalysisError("C11: stack of %s not recognised" % i.where())
    # counted loops around pushes and pops
    inloop, enter = {}, {}
    for i in ev:
        h = innermost(f, i.block, D.stop)
        if h is None:
            continue
        phis = [x for x in h.insts if x.op == "phi" and loops.header_phi(f, x.res)]
        n = None
        for x in phis:
            n = n or trips(f, x, D.stop)
        if n is None or not every(f, i.block, h, D.stop):
            n = ("?",)
        inloop[i] = h
        enter.setdefault(h, []).append((ev[i], n))
    dyn = [i.res for i in f.insts() if i.op == "load" and i.ty == "i8" and operand(P, f, i.ops[0]) == (1, 0)]
    for n in sorted(D.entry):
        name = D.ops.get(n)
        if name is None:
            continue
        b = D.entry[n]
        reg = D.region[n]
        if name not in SPEC:
            ends = name == "return" or not any(s in D.stop for x in reg for s in x.succs if x not in D.stop or x is b)
            rep.check(ends, "opcode", name, b.term.where(), "the handler of %s goes on to the next opcode" % name)
            continue
        for dynamic in ((0, 1) if name == "invoke_partial" else (None,)):
            done = set()

            def tr(i, t, env):
                if i.op == "load" and dynamic is not None and i.res in dyn:
                    return [("@env", t, {i.res: dynamic})]
                if i.op == "call" and i in ev and i not in inloop:
                    k, d = ev[i]
                    return add(t, k, d)
                return t

            def edge(x, s, t, env):
                if s in D.stop:
                    done.add((x, t))
                    return None
                if s in enter and x not in loopof(f, s, D.stop):
                    for (k, d), m in enter[s]:
                        t = add(t, k, d * m[1]) if m[0] == "const" else add(t, "args" if m[0] == "argc" and k == "stack" else "?", d)
                return t
            F = Flow(f, (0,) * 7, tr, edge, cap=300, extra=dyn if dynamic is not None else (), start=b)
            # the handler may be entered at a block that dispatches itself
            F.run()
            if F.widened:
                raise an.AnalysisError("C11: too many paths in the handler of " + name)
            if not done:
                for x, t, env in F.exits:
                    done.add((x.block, t))
            v, a, h = SPEC[name]
            want = (v - (dynamic or 0), 0, h, 0, 0, a, 0)
            if not done:
                raise an.AnalysisError("C11: no way out of the handler of " + name)
            bad = [(x, t) for x, t in done if t != want]
            rep.check(not bad, "opcode", name + ("" if dynamic is None else "|%d" % dynamic), bad[0][0].term.where() if bad else b.term.where(),
                      "the handler of %s changes the stacks by %s instead of %s" % (name, show(bad[0][1]) if bad else "", show(want)))
    return D


NAMES = STACKS + ("args", "?")


def add(t, k, d):
    n = NAMES.index(k)
    return t[:n] + (max(-9, min(9, t[n] + d)),) + t[n + 1:]


def show(t):
    return ", ".join("%s%+d" % (n, x) for n, x in zip(NAMES, t) if x) or "nothing"


def operand(P, f, a):
    """(operand number, offset within its data) of an address"""
    p = path(f, a)
    if p.sym or an.pointee(f, p.base) != "handlebars_opcode":
        pl = an.place(f, a)
        return None
    for n, o, _, sz in P.struct("handlebars_opcode"):
        if n.startswith("op") and n[2:].isdigit() and o // 8 <= p.off < (o + sz) // 8:
            d = next((q // 8 for m, q, _, _ in P.struct("handlebars_operand") if m == "data"), 8)
            return int(n[2:]), p.off - o // 8 - d
    return None


def loopof(f, h, stop):
    return {b for b in f.order if an.dominates(f, h, b) and h in an.reach_blocks(f, b, lambda x: x in stop)}


def innermost(f, b, stop):
    """header of the smallest loop around b that does not dispatch"""
    best = None
    for h in f.order:
        if an.dominates(f, h, b) and h not in stop and any(an.dominates(f, h, p) for p in h.preds):
            lp = loopof(f, h, stop)
            if b in lp and (best is None or len(lp) < len(best[1])):
                if any(h in x.succs for x in lp):
                    best = h, lp
    return best[0] if best else None


def every(f, b, h, stop):
    """every iteration of the loop at h runs block b"""
    lp = loopof(f, h, stop)
    inside = [s for s in h.succs if s in lp]
    if b is h:
        return True
    seen, work = set(), inside
    while work:
        x = work.pop()
        if x is b or x in seen or x not in lp:
            continue
        if x is h:
            return False
        seen.add(x)
        work = work + x.succs
    return True


def bounds(f, phi, stop):
    out = []
    lp = loopof(f, phi.block, stop)
    for b in lp:
        if b.term.op == "br" and len(b.term.x) == 2 and any(s in lp for s in b.succs) and any(s not in lp for s in b.succs):
            s = next(s for s in b.succs if s in lp)
            for pr, a, c in [x[:3] for x in an.edge_facts(b, s)]:
                if isinstance(c, str) and isinstance(a, str):
                    for x, y, p in ((a, c, pr), (c, a, loops.SWAP.get(pr, pr))):
                        z = loops.header_phi(f, x)
                        if z and z[0] is phi:
                            out.append((p, y, z[3]))
    return out


def trips(f, phi, stop):
    """how often the loop counted by phi runs: ('const', n), ('argc',) or None"""
    z = loops.header_phi(f, phi.res)
    d, start, step, off = z
    for pr, o, k in bounds(f, phi, stop):
        n, adj = full(f, start, step, pr, o, k)
        if n is None:
            continue
        s = loops.source(f, n)
        if s and s[0] == "const":
            return ("const", s[1] + adj)
        if s and s[0] == "field" and s[3] + adj == 0:
            return ("argc",)
    return None


def full(f, start, step, pr, o, k):
    """(value, adjustment): a loop counting from start while counter + k pr o runs value + adjustment times"""
    c = const_int(an.strip(f, o))
    if step == -1 and c is not None and pr in ("ne", "sgt", "ugt", "sge", "uge"):
        return start, k - c + (pr in ("sge", "uge"))
    if step == 1 and pr in ("slt", "ult", "ne", "sle", "ule") and const_int(an.strip(f, start)) is not None:
        return o, -const_int(an.strip(f, start)) - k + (pr in ("sle", "ule"))
    return None, 0


# ---- compiler --------------------------------------------------------------------------------------

EXPR = ("SEXPR", "PATH", "STRING", "NUMBER", "BOOLEAN", "NUL", "UNDEFINED", "HASH")
STMT = ("PROGRAM", "MUSTACHE", "BLOCK", "RAW_BLOCK", "PARTIAL", "PARTIAL_BLOCK", "CONTENT", "COMMENT")


def compiler(P, D, rep):
    unit = {u: f for u, f in P.functions.items() if f.mod.unit == "handlebars_compiler.c" and not f.avail}
    kinds = {v: k for k, v in P.enum_type("handlebars_ast_node_type").items()}
    # the function that appends an opcode to the program, and the one that dispatches on the node kind
    push = acc = None
    for u, f in unit.items():
        ps = {p[1]: n for n, p in enumerate(f.params)}
        for i in f.insts():
            if i.op == "store":
                v = i.ops[0]
                while v in f.defs and f.defs[v].op == "call" and "steal" in f.defs[v].x["callee"]:
                    v = f.defs[v].ops[1]
                if v not in ps:
                    continue
                q = f.defs.get(path(f, i.ops[1]).base)
                if q is not None and q.op == "load" and (an.place(f, q.ops[0]) or ("", ""))[:2] == ("handlebars_program", "opcodes"):
                    push = (u, ps[v])
            if i.op == "switch" and len(i.x["cases"]) >= 8:
                d = f.defs.get(an.strip(f, i.ops[0]))
                if d is not None and d.op == "load" and (an.place(f, d.ops[0]) or ("", ""))[:2] == ("handlebars_ast_node", "type"):
                    if any(c in P.cg for c in P.cg[u]) and (acc is None or len(P.cg[u]) > len(P.cg[acc[0]])):
                        acc = (u, d)
    if not push or not acc:
        raise an.AnalysisError("C11: opcode emission or node dispatch of the compiler not found")
    emits = P.callers_closure({push[0]}) & set(unit)
    S = Summary(P, D, unit, push, acc, emits)
    f = unit[acc[0]]
    S.pair = next(v for v, k in kinds.items() if k.endswith("_HASH_PAIR"))
    # statement lists are compiled by what the program kind is dispatched to
    prog = next(v for v, k in kinds.items() if k.endswith("_NODE_PROGRAM"))
    S.lists = {u for b in f.order if b.term.op == "switch" for c, l in b.term.x["cases"] if int(c) == prog
               for i in f.blocks[l].insts if i.op == "call" for u in P.targets(i) if u in unit}
    for v, k in sorted(kinds.items()):
        k = k.replace("HANDLEBARS_AST_NODE_", "")
        if k not in EXPR + STMT:
            continue
        S.kind = k
        out = S.eval(f, (), {acc[1].res: v}, acc[1])
        if k in EXPR:
            bad = [t for t in out if t != (1, 0, 0)]
        else:
            bad = [t for t in out if not (t[0] in (0, -1) and t[1:] == (0, 0))]
        rep.check(not bad, "emit", "node " + k, f.entry.term.where(), "code compiled for a %s node changes the stacks by %s" % (k, sh(bad[0]) if bad else ""))
    for (u, c), out in sorted(S.memo.items(), key=str):
        if u == acc[0]:
            continue
        bad = [t for t in out if t[2] != 0 or not -2 <= t[0] <= 3] or (len({t for t in out}) > 2 and list(out))
        rep.check(not bad, "emit", "%s%s" % (u, c or ""), unit[u].entry.term.where(),
                  "%s emits code changing the stacks differently by path: %s" % (u, ", ".join(sh(t) for t in sorted(out))))
    S.report(rep)


def sh(t):
    return "%+d values%s%s" % (t[0], ", %+d per parameter" % t[1] if t[1] else "", ", %+d hashes" % t[2] if t[2] else "")


class Summary:
    def __init__(self, P, D, unit, push, acc, emits):
        self.P, self.D, self.unit, self.push, self.acc, self.emits = P, D, unit, push, acc, emits
        self.memo, self.busy = {}, set()
        self.problems = {}

    def report(self, rep):
        for (u, w), m in sorted(self.problems.items()):
            rep.bad("emit", u, w, m)

    def call(self, f, i, env, F):
        """possible effects of a call: list of (n, L, h)"""
        P = self.P
        c = P.uname(i) if hasattr(P, "uname") and False else i.x["callee"]
        tg = [u for u in P.targets(i) if u in self.unit]
        if not tg:
            return [(0, 0, 0)]
        u = tg[0]
        comp = [p[1] for n, p in enumerate(f.params) if an.ptr_struct(f.mod, an.fn_sig(f.mod, f)[1][n]) == "handlebars_compiler"]
        if i.ops and isinstance(i.ops[0], str) and comp and not set(an.leaves(f, i.ops[0])) & set(comp) and u in self.emits:
            return [(0, 0, 0)]      # emits into a program of its own
        if u == self.push[0]:
            out = set()
            for x in an.leaves(f, i.ops[self.push[1]]):
                d = f.defs.get(x)
                for _ in range(3):      # checks returning what they were given
                    if d is not None and d.op == "call" and not (len(d.ops) == 2 and an.ret_struct(f, d) == "handlebars_opcode"):
                        d = next((f.defs[o] for o in d.ops if o in f.defs and f.defs[o].op == "call"), d)
                if d is None or d.op != "call":
                    return [None]
                v = next((F.val(o, env) for o in d.ops[1:]), None)
                vs = [v] if isinstance(v, int) else [const_int(z) for z in an.leaves(f, d.ops[1])]
                for v in vs:
                    name = self.D.ops.get(v)
                    if name is None:
                        self.problems[(f.name, i.where())] = "an opcode of unknown type is emitted"
                        continue
                    if name not in SPEC:
                        out.add(None)       # the virtual machine refuses such a program
                        continue
                    e = SPEC[name]
                    y = self.dyn(f, d, env, F) if name == "invoke_partial" else False
                    if y is not True:
                        out.add(e)
                    if y is not False:
                        out.add((e[0] - 1,) + e[1:])
            return list(out)
        if u == self.acc[0]:
            return [(0, 0, 0)] if f.name in self.lists or self.kind == "PROGRAM" and f.name == u else [(1, 0, 0)]
        if u not in self.emits:
            return [(0, 0, 0)]
        g = self.unit[u]
        consts = {}
        for n, o in enumerate(i.ops):
            v = F.val(o, env)
            if isinstance(v, int) and n < len(g.params):
                consts[n] = v
        key = (u, tuple(sorted(consts.items())))
        if key in self.memo:
            return list(self.memo[key])
        if key in self.busy:
            return [(0, 0, 0)]
        self.busy.add(key)
        out = self.eval(g, key[1], {g.params[n][1]: v for n, v in consts.items()})
        self.busy.discard(key)
        self.memo[key] = out
        return list(out)

    def partial(self, f, h):
        """a counted loop that does not count all the way"""
        for x in h.insts:
            z = loops.header_phi(f, x.res) if x.op == "phi" else None
            for pr, o, k in bounds(f, x, ()) if z else ():
                n, adj = full(f, z[1], z[2], pr, o, k)
                if n is None:
                    continue
                s = loops.source(f, n)
                if adj + (s[-1] if s and s[0] in ("field", "call", "param") else 0) != 0:
                    return True
        return False

    def dyn(self, f, ctor, env, F):
        """value of the first operand given to this opcode"""
        for i in f.insts():
            if i.op == "call" and "set_boolval" in i.x["callee"] and path(f, i.ops[0]).base == ctor.res:
                v = F.val(i.ops[1], env)
                if v is None:
                    return None
                return bool(v)
        return False

    def eval(self, f, key, env0, pin=None):
        P = self.P
        nn = {f.params[n][1]: "nn" for n, ty in enumerate(an.fn_sig(f.mod, f)[1]) if an.ptr_struct(f.mod, ty) in ("handlebars_ast_node", "handlebars_ast_list")}
        nn.update(env0)
        env0 = nn
        got = [i.res for i in f.insts() if i.op == "call" and i.res and i.x["callee"] == "handlebars_ast_node_get_path"]
        cnt = [i.res for i in f.insts() if i.op == "call" and i.x["callee"] == "handlebars_ast_list_count"]
        heads = [h for h in f.order if any(an.dominates(f, h, p) for p in h.preds)]
        lp = {h: loopof(f, h, ()) for h in heads}
        per = {h: set() for h in heads}
        bools = [i.ops[1] for i in f.insts() if i.op == "call" and "set_boolval" in i.x["callee"]]
        consts = [o for i in f.insts() if i.op == "call" and P_has(self, i) for o in i.ops if isinstance(o, str) and o.startswith("%")]
        for phase in range(3):
            seen = {h: set() for h in heads}

            def tr(i, t, env):
                if pin is not None and i is pin:
                    return [("@env", t, {i.res: env0[i.res]})]
                if i.op == "call":
                    if i.res in got:
                        return [("@env", t, {i.res: "nn"})]
                    st, cur = t
                    if i.x["callee"] == "handlebars_ast_list_append" and P.targets(i):
                        return (st, cur[:3] + (cur[3] + 1,))
                    out = []
                    for e in self.call(f, i, env, H["F"]):
                        if e is not None:
                            n = tuple(a + b for a, b in zip(cur, e)) + (cur[3],)
                            if e in ((-4, 0, 0), (-5, 0, 0)) and n[1] == 1:
                                # the one parameter of a partial: counted as none and then appended, or exactly one
                                none = any(F.val(c, env) == 0 for c in cnt)
                                n = (n[0] + (n[3] if none else 1), 0, n[2], n[3])
                            if abs(n[0]) < 12:
                                out.append((st, n))
                    if out == [t]:
                        return t
                    return out if out else None
                return t

            def edge(b, s, t, env):
                st, cur = t
                while st and b in lp[st[-1][0]] and s not in lp[st[-1][0]]:
                    # leaving: the iterations so far
                    h, base = st[-1]
                    st = st[:-1]
                    ds = per[h]
                    if len(ds) > 1:
                        self.problems[(f.name, h.term.where())] = "iterations change the stacks differently"
                    for d in ds - {(0, 0, 0)}:
                        if self.partial(f, h):
                            self.problems[(f.name, h.term.where())] = "the loop does not run once per element"
                        if abs(d[0]) > 1 or d[1] or d[2]:
                            self.problems[(f.name, h.term.where())] = "an iteration changes the stacks by " + sh(d)
                        else:
                            cur = (cur[0], cur[1] + d[0], cur[2], cur[3])
                for pr, x, y in [z[:3] for z in an.edge_facts(b, s)]:
                    d = f.defs.get(x) if isinstance(x, str) else None
                    if pr == "ne" and const_int(y) == self.pair and d is not None and d.op == "load" and \
                            (an.place(f, d.ops[0]) or ("", ""))[:2] == ("handlebars_ast_node", "type"):
                        return None         # lists of hash pairs hold hash pairs
                if b.term.op == "switch" and s.name == b.term.x["default"] and covered(self, f, b.term):
                    return None
                if s in lp:
                    if b in lp[s]:
                        if st and st[-1][0] is s:
                            seen[s].add(tuple(a - c for a, c in zip(cur[:3], st[-1][1])))
                            # exits are taken with the effect of one abstract run
                            return (st, st[-1][1])
                        return None
                    return (st + ((s, cur),), cur)
                return (st, cur)
            H = {}
            F = H["F"] = Flow(f, ((), (0, 0, 0, 0)), tr, edge, cap=300, extra=list(bools) + consts + cnt,
                              keep=list(env0) + cnt + bools + [an.strip(f, o) for o in bools], env0={k: v for k, v in env0.items() if pin is None or k != pin.res})
            F.run()
            if F.widened:
                raise an.AnalysisError("C11: too many paths in " + f.name)
            if all(per[h] == seen[h] or not seen[h] for h in heads):
                break
            per = {h: seen[h] or per[h] for h in heads}
        return {t[1][:3] for r, t, env in F.exits}


def P_has(S, i):
    return any(u in S.emits or u == S.push[0] for u in S.P.targets(i)) or "opcode_ctor" in i.x["callee"]


def covered(S, f, sw):
    """the switch has a case for every constant the called function can return"""
    d = f.defs.get(an.strip(f, sw.ops[0]))
    if d is None or d.op != "call":
        return False
    for u in S.P.targets(d):
        g = S.unit.get(u)
        if g is None:
            return False
        vals = {const_int(x) for i in g.insts() if i.op == "ret" for x in an.leaves(g, i.ops[0])}
        if None in vals or not vals <= {int(c) for c, _ in sw.x["cases"]}:
            return False
    return True
