"""C03: HTML escaping of interpolated values."""
from .. import an
from ..an import cname, const_int, path, place
from ..flow import Flow
from ..vmq import Dispatch

RULE = ("Escaping is followed from the template to the output: (1) for each of the six special characters, constant "
        "propagation over the escaping function shows that no path copies the character itself and that its entity is "
        "emitted; (2) path-sensitive dataflow over every function the escape setting reaches shows that string payload "
        "is copied unescaped only on paths where escaping is off or the value is marked safe, and that the setting is "
        "handed on unchanged; (3) the handler of the escaping append opcode always asks for escaping; (4) the compiler "
        "emits the raw append opcode for a mustache only when it was written raw or the no-escape flag is set; (5) the parser "
        "marks a mustache raw only for '{' and '&'; (6) the library never marks a value safe by itself.")
ASSUME = ["appending functions copy their content argument verbatim", "the lexer hands the opening delimiter to the parser unchanged"]

ENTITY = {38: (b"&amp;",), 60: (b"&lt;",), 62: (b"&gt;",), 34: (b"&quot;",), 39: (b"&#x27;", b"&#39;", b"&#039;", b"&apos;"),
          96: (b"&#x60;", b"&#96;")}
ENTRY = {"handlebars_value_expression_append": 3, "handlebars_value_expression": 2}


def run(ctx, rep):
    P = ctx.inl
    table(P, rep)
    E = expression(P, rep)
    vm(P, rep, E)
    compiler(P, rep)
    parser(P, rep)
    safe(P, rep)
    rep.floor("entity", 6)
    rep.floor("payload-append", 1)
    rep.floor("opcode-escapes", 1)
    rep.floor("mustache-append", 1)
    rep.floor("raw-mustache", 1)


# -- (1) ------------------------------------------------------------------------------------------

def table(P, rep):
    f = P.need("handlebars_string_htmlspecialchars_append")
    src = f.params[2][1]
    for c, ents in sorted(ENTITY.items()):
        em, raw = specialise(P, f, src, c)
        ch = chr(c)
        where = "%s:%d" % (f.file, f.line)
        if raw:
            rep.bad("entity", "raw:%d" % c, raw[0].where(), "the special character %s can be copied to the output unescaped" % ch)
            continue
        vals = {e for e, _ in em if e is not None}
        if any(e is None for e, _ in em):
            rep.bad("entity", "unknown:%d" % c, em[0][1].where(), "the replacement of %s is not a constant" % ch)
        elif not vals or not vals <= set(ents):
            rep.bad("entity", "ent:%d" % c, em[0][1].where() if em else where,
                    "%s is replaced by %s instead of %s" % (ch, sorted(vals) or "nothing", ents[0]))
        else:
            rep.ok("entity", "%s -> %s" % (ch, sorted(vals)[0].decode()))


def derived(f, v, src, depth=0, seen=None):
    """pointer into the source text"""
    seen = set() if seen is None else seen
    if v in seen or depth > 40:
        return False
    seen.add(v)
    b = path(f, v).base
    if b == src:
        return True
    d = f.defs.get(b)
    if d is not None and d.op in ("phi", "select"):
        ops = [o for o, _ in d.ops] if d.op == "phi" else d.ops[1:]
        return any(derived(f, o, src, depth + 1, seen) for o in ops)
    return False


def const_table(M, g, off, size):
    """constant pointed to at byte offset off of a constant global: ('int', n) / ('str', bytes) / None"""
    e = M.globals.get(g)
    if not e or "constant" not in e[0] or not e[2]:
        return None
    return pick(M, e[1], e[2], off)


def pick(M, t, init, off):
    init = init.strip()
    if init in ("zeroinitializer", "undef", "poison"):
        return 0
    if init.startswith('c"'):
        return None
    if init[0] in "[{" or init.startswith("<{"):
        packed = init.startswith("<{")
        o = 0
        for et, ev in an.parse_aggregate(init):
            s, a = an.sizealign(M, et)
            if not packed and a:
                o = (o + a - 1) // a * a
            if o <= off < o + s:
                return pick(M, et, ev, off - o)
            o += s
        return None
    if off == 0:
        k = const_int(init)
        return k if k is not None else init
    return None


def specialise(P, f, src, c):
    """dataflow with every byte of the source equal to c -> (emitted constants, raw copies)"""
    M = f.mod
    em, raw = [], []
    byte_loads = {i.res for i in f.insts() if i.op == "load" and i.ty == "i8" and derived(f, i.ops[0], src)}
    vals = {}

    def ev(v, depth=0):
        k = const_int(v)
        if k is not None and v != "null":
            return k
        if v in byte_loads:
            return c
        if v in vals:
            return vals[v]
        d = f.defs.get(v)
        if d is None or depth > 30:
            return v if isinstance(v, str) and v.startswith("@") else None
        r = None
        if d.op in ("zext", "freeze", "trunc"):
            r = ev(d.ops[0], depth + 1)
        elif d.op == "sext":
            r = ev(d.ops[0], depth + 1)
        elif d.op in ("add", "sub", "and", "or", "xor"):
            a, b = ev(d.ops[0], depth + 1), ev(d.ops[1], depth + 1)
            if isinstance(a, int) and isinstance(b, int):
                r = {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b}[d.op]
        elif d.op == "icmp":
            a, b = ev(d.ops[0], depth + 1), ev(d.ops[1], depth + 1)
            r = Flow.cmp(d.x, a, b) if isinstance(a, int) and isinstance(b, int) else None
            if r is None and isinstance(a, str) and a.startswith("@") and b == 0:
                r = {"eq": 0, "ne": 1}.get(d.x)
        elif d.op == "select":
            k = ev(d.ops[0], depth + 1)
            if k is not None:
                r = ev(d.ops[1 if k else 2], depth + 1)
        elif d.op == "load":
            p = path(f, d.ops[0])
            b = p.base
            off = p.off
            ok = True
            for s, sz in p.sym:
                k = ev(s, depth + 1)
                if not isinstance(k, int):
                    ok = False
                else:
                    off += k * sz
            if not b.startswith("@"):
                x = ev(b, depth + 1)
                b = x if isinstance(x, str) else ""
            if ok and b.startswith("@"):
                r = const_table(M, b[1:], off, 0)
        elif d.op == "gep":
            p = path(f, v)
            if not p.sym and p.off == 0 and p.base != v:
                r = ev(p.base, depth + 1)
        vals[v] = r
        return r

    # feasible blocks under the specialisation
    reach, work, edges = set(), [f.entry], set()
    while work:
        b = work.pop()
        if b in reach:
            continue
        reach.add(b)
        n = len(work)
        t = b.term
        if t.op == "br" and len(t.x) == 2:
            k = ev(t.ops[0])
            work += [s for s in b.succs if k is None or s.name == t.x[0 if k else 1]]
        elif t.op == "switch":
            k = ev(t.ops[0])
            if isinstance(k, int):
                bits = int(t.ty[1:]) if t.ty and t.ty[1:].isdigit() else 64
                lab = [l for v, l in t.x["cases"] if (int(v) - k) % (1 << min(bits, 8)) == 0]
                work.append(f.blocks[lab[0] if lab else t.x["default"]])
            else:
                work += b.succs
        else:
            work += b.succs
        edges |= {(b.name, s.name) for s in work[n:]}

    def taken(v, depth=0):
        """the one value a choice can have on the paths that are left"""
        d = f.defs.get(v) if isinstance(v, str) else None
        if d is None or depth > 10:
            return v
        if d.op == "phi":
            got = {o for o, l in d.ops if (l, d.block.name) in edges}
        elif d.op == "select":
            k = ev(d.ops[0])
            got = set(d.ops[1:3]) if k is None else {d.ops[1 if k else 2]}
        else:
            return v
        return taken(got.pop(), depth + 1) if len(got) == 1 else v

    for b in f.order:
        if b not in reach:
            continue
        for i in b.insts:
            cont = None
            if i.op == "call" and content_args(i):
                cont, ln = map(taken, content_args(i))
            elif i.op == "store" and i.ty == "i8" and i.ops[0] in byte_loads:
                raw.append(i)
                continue
            if cont is None:
                continue
            if derived(f, cont, src):
                if const_int(ln) == 1 or not bulk_guarded(f, i, byte_loads, ev, reach):
                    raw.append(i)
                continue
            k = ev(cont)
            s = M.cstr(k) if isinstance(k, str) and k.startswith("@") else None
            if s is None and isinstance(cont, str) and cont.startswith("@"):
                s = M.cstr(cont)
            n = ev(ln) if ln is not None else None
            if s is not None and isinstance(n, int):
                s = s[:n] if n <= len(s) else None
            em.append((s, i))
    return em, raw


def content_args(i):
    n = cname(i)
    if n in ("handlebars_string_append",):
        return i.ops[2], i.ops[3]
    if n == "handlebars_string_append_unsafe":
        return i.ops[1], i.ops[2]
    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove", "mempcpy"):
        return i.ops[1], i.ops[2]
    return None


def bulk_guarded(f, i, byte_loads, ev, reach):
    """a bulk copy of the source is only reached when an accumulator over all bytes stayed unchanged, and every special
    byte changes it"""
    for pr, a, b in [x[:3] for x in an.dom_facts(i)]:
        if pr not in ("eq", "ne") or not isinstance(b, str):
            continue
        for x, y in ((a, b), (b, a)):
            for acc in phis_of(f, x):
                d = f.defs[acc]
                if not an.loops_containing(f, d.block):
                    continue
                init = [v for v, lab in d.ops if not an.loops_containing(f, f.blocks[lab]) or not inloop(f, d.block, f.blocks[lab])]
                back = [(v, lab) for v, lab in d.ops if inloop(f, d.block, f.blocks[lab])]
                if not init or not back or not any(byte_in_loop(f, d.block, l) for l in byte_loads):
                    continue
                # taken when unchanged?
                same = all(an.strip(f, v) == an.strip(f, y) or v == y for v in init)
                k0 = all(const_int(v) is not None for v in init) and const_int(y) is not None
                if pr == "eq" and not same:
                    continue
                if pr == "ne" and (same or not k0):
                    continue
                if all(changed(f, v, acc, ev, reach) for v, lab in back if f.blocks[lab] in reach):
                    return True
    return False


def phis_of(f, v):
    d = f.defs.get(an.strip(f, v))
    return [d.res] if d is not None and d.op == "phi" else []


def inloop(f, header, b):
    return header in an.reach_blocks(f, b) and b in an.reach_blocks(f, header)


def byte_in_loop(f, header, l):
    return inloop(f, header, f.defs[l].block)


def changed(f, v, acc, ev, reach, depth=0):
    """under the specialisation the next value of the accumulator is not its old value"""
    if v == acc or depth > 10:
        return False
    d = f.defs.get(v)
    if d is None:
        return const_int(v) is not None and const_int(v) != 0
    if d.op == "phi":
        return all(changed(f, o, acc, ev, reach, depth + 1) for o, lab in d.ops
                   if f.blocks[lab] in reach and feas(f, f.blocks[lab], d.block, ev))
    if d.op == "select":
        k = ev(d.ops[0])
        if k is not None:
            return changed(f, d.ops[1 if k else 2], acc, ev, reach, depth + 1)
        return all(changed(f, o, acc, ev, reach, depth + 1) for o in d.ops[1:])
    if d.op in ("add", "sub"):
        for a, b in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
            k = ev(b)
            if isinstance(k, int) and k > 0 and (a == acc or f.defs.get(a) is not None):
                return True
    if d.op == "or":
        return any(isinstance(ev(o), int) and ev(o) != 0 for o in d.ops)
    if d.op in ("zext", "trunc"):
        return changed(f, d.ops[0], acc, ev, reach, depth + 1)
    k = ev(v)
    return isinstance(k, int) and k != 0


def feas(f, p, b, ev):
    t = p.term
    if t.op == "br" and len(t.x) == 2:
        k = ev(t.ops[0])
        if k is not None:
            return t.x[0 if k else 1] == b.name
    return True


# -- (2) ------------------------------------------------------------------------------------------

def expression(P, rep):
    E = {}
    work = []
    for n, k in ENTRY.items():
        f = P.need(n)
        E[f.uname] = k
        work.append(f)
    while work:
        f = work.pop()
        esc = f.params[E[f.uname]][1]
        for i in f.calls():
            for u in P.targets(i):
                g = P.functions.get(u)
                if g is None or u in E or g.mod.unit != f.mod.unit:
                    continue
                for k, a in enumerate(i.ops):
                    if an.strip(f, a) == esc and k < len(g.params):
                        E[u] = k
                        work.append(g)
    for u, k in E.items():
        check_expr(P, rep, P.functions[u], k, E)
    return E


def check_expr(P, rep, f, k, E):
    esc = f.params[k][1]
    payload = set()
    for i in f.insts():
        if i.op == "load" and i.ty == "ptr":
            pl = place(f, i.ops[0])
            if pl and (pl[0] == "handlebars_value" and pl[1] == "v" or pl[0].startswith("handlebars_value") and pl[0] != "handlebars_value"
                       and pl[0] not in ("handlebars_value_handlers", "handlebars_value_iterator")):
                payload.add(i.res)
    ch = True
    while ch:
        ch = False
        for i in f.insts():
            if not i.res or i.res in payload:
                continue
            src = None
            if i.op in ("gep", "bitcast", "freeze"):
                src = [i.ops[0]]
            elif i.op == "phi" and i.ty == "ptr":
                src = [v for v, _ in i.ops]
            elif i.op == "select" and i.ty == "ptr":
                src = i.ops[1:]
            elif i.op == "call" and cname(i) in ("hbs_str_val", "handlebars_value_get_string", "handlebars_value_get_strval"):
                payload.add(i.res)
                ch = True
                continue
            if src and any(s in payload for s in src):
                payload.add(i.res)
                ch = True
    safe = set()
    flagl = set()
    for i in f.insts():
        if i.op == "load":
            pl = place(f, i.ops[0])
            if pl and pl[:2] == ("handlebars_value", "flags"):
                flagl.add(i.res)
        if i.op == "call" and cname(i) == "handlebars_value_get_flags":
            flagl.add(i.res)
    if [v for v in P.enum_type("handlebars_value_flags").values() if v] == [P.enum("HANDLEBARS_VALUE_FLAG_SAFE_STRING")]:
        safe |= flagl          # the only flag there is
        safe |= {u.res for v in flagl for u in f.users.get(v, []) if u.op in ("zext", "sext")}
    for i in f.insts():
        if i.op == "and" and (an.strip(f, i.ops[0]) in flagl) and const_int(i.ops[1]) == P.enum("HANDLEBARS_VALUE_FLAG_SAFE_STRING"):
            safe.add(i.res)

    def unescaped_ok(F, env):
        if F.val(esc, env) == 0:
            return True
        return any(F.val(s, env) not in (None, 0) for s in safe)
    bad = {}
    good = set()

    def tr(i, t, env):
        if i.op != "call":
            return t
        u = P.targets(i)
        tgt = [x for x in u if x in E]
        if tgt:
            a = i.ops[E[tgt[0]]]
            v = F.val(a, env)
            if an.strip(f, a) == esc or F.val(esc, env) == 0 or (v is not None and v != 0):
                good.add(("escape-passed", i))
            else:
                bad[("escape-passed", i)] = "passes another escape setting to %s()" % cname(i)
            return t
        n = cname(i)
        if "htmlspecialchars" in n:
            return t
        if sink(P, f, i, payload):
            if unescaped_ok(F, env):
                good.add(("payload-append", i))
            else:
                bad[("payload-append", i)] = "copies string payload unescaped although escaping may be on"
        return t
    F = Flow(f, 0, tr, keep=safe | {esc})
    F.run()
    for (r, i), m in bad.items():
        rep.bad(r, "%s:%s" % (i.origin(), cname(i)), i.where(), "%s() %s" % (i.origin(), m))
    for r, i in good - set(bad):
        rep.ok(r, "%s %s" % (i.where(), cname(i)))


def sink(P, f, i, payload):
    n = cname(i)
    if n.startswith("llvm.memcpy") or n in ("memcpy", "memmove", "strcpy", "strcat", "strncat"):
        return i.ops[1] in payload
    if an.ret_struct(f, i) != "handlebars_string":
        return False
    if any(a in payload for a in i.ops):
        return True
    # %s of a formatting append
    for a in i.ops:
        s = f.mod.cstr(a) if isinstance(a, str) and a.startswith("@") else None
        if s and b"%s" in s and "printf" in n:
            return True
    return False


# -- (3) ------------------------------------------------------------------------------------------

def vm(P, rep, E):
    D = Dispatch(P)
    n = D.num.get("append_escaped")
    f = D.fn
    env = {}
    for i in D.insts(n):
        if i.op == "load":
            pl = place(f, i.ops[0])
            if pl and pl[:2] == ("handlebars_opcode", "type"):
                env[i.res] = n
    F = Flow(f, 0, lambda i, t, e: t)
    hit = 0
    for i in D.insts(n):
        if i.op != "call":
            continue
        for u in P.targets(i):
            if u in E or u in ENTRY:
                hit += 1
                k = E.get(u, ENTRY.get(u))
                v = F.val(i.ops[k], env)
                rep.check(v not in (None, 0), "opcode-escapes", "append_escaped:%s" % i.origin(), i.where(),
                          "the escaping append opcode does not ask for escaping")
    if not hit:
        rep.bad("opcode-escapes", "append_escaped:none", "%s:%d" % (f.file, f.line),
                "the escaping append opcode never formats its value with escaping")


# -- (4) ------------------------------------------------------------------------------------------

def compiler(P, rep):
    app, esc = P.enum("handlebars_opcode_type_append"), P.enum("handlebars_opcode_type_append_escaped")
    must = P.enum("HANDLEBARS_AST_NODE_MUSTACHE")
    noesc = P.enum("handlebars_compiler_flag_no_escape")
    bad, good, escd = {}, set(), set()
    for f in P.functions.values():
        if f.mod.unit != "handlebars_compiler.c":
            continue
        ctors = [i for i in f.calls("handlebars_opcode_ctor")]
        if not any(const(f, i.ops[1]) & {app, esc} for i in ctors):
            continue
        types, raws, nos = {}, set(), set()
        for i in f.insts():
            if i.op == "load":
                pl = place(f, i.ops[0])
                if pl and pl[:2] == ("handlebars_ast_node", "type"):
                    types[i.res] = 1
                elif pl and pl[1] == "unescaped":
                    raws.add(i.res)
            elif i.op == "and" and const_int(i.ops[1]) == noesc:
                nos.add(i.res)
        nosz = set()
        for v in nos:
            nosz.add(v)
            nosz |= {u.res for u in f.users.get(v, []) if u.op in ("zext", "trunc", "sext") and u.res}

        def edge(b, s, t, env):
            # the node kind last dispatched on
            tm = b.term
            if tm.op == "switch" and tm.ops[0] in types:
                c = [int(v) for v, l in tm.x["cases"] if l == s.name]
                fr = f.mod.frames(tm.dbg)[0]
                return t | {fr} if c == [must] else t - {fr}
            return t

        def tr(i, t, env):
            if i.op == "call" and i.x["callee"] == "handlebars_opcode_ctor":
                if not (t and t & set(f.mod.frames(i.dbg))):
                    return t
                for ty, e in F.split(i.ops[1], env):
                    if ty is None and app not in const(f, i.ops[1]):
                        continue
                    if ty == esc:
                        escd.add((i.origin(), i.where()))
                    elif ty == app or ty is None:
                        if any(F.val(v, e) not in (None, 0) for v in raws | nosz):
                            good.add((i.origin(), i.where()))
                        else:
                            bad[i.origin()] = i
            return t
        F = Flow(f, frozenset(), tr, edge=edge, extra=[i.ops[1] for i in ctors], keep=raws | nosz)
        F.run()
    for o, i in bad.items():
        rep.bad("mustache-append", o, i.where(), "a mustache is compiled to the raw append opcode although it was not written "
                "raw and the no-escape flag is not known to be set")
    for o, w in good | escd:
        rep.ok("mustache-append", w)
    if not escd and not bad:
        rep.bad("mustache-append", "never", "src/handlebars_compiler.c", "no mustache is ever compiled to the escaping append opcode")


def const(f, v):
    return {const_int(x) for x in an.leaves(f, v) if const_int(x) is not None}


# -- (5) ------------------------------------------------------------------------------------------

def parser(P, rep):
    n = 0
    for f in P.functions.values():
        st = []
        for i in f.insts():
            if i.op == "store":
                pl = place(f, i.ops[1])
                if pl and pl[1] == "unescaped":
                    st.append(i)
        if not st or f.mod.unit == "handlebars_ast_printer.c":
            continue
        chars = set()
        for i in f.insts():
            if i.op in ("icmp",):
                if const_int(i.ops[1]) in (123, 38):
                    chars.add(i.ops[0])
            elif i.op == "switch":
                chars.add(i.ops[0])
        more = set(chars)
        for c in chars:
            d = f.defs.get(c)
            if d is not None and d.op in ("sext", "zext"):
                more.add(d.ops[0])
        bad, good = {}, set()

        def tr(i, t, env):
            if i in st:
                v = F.val(i.ops[0], env)
                if v == 0:
                    return t
                if any(F.val(c, env) in (123, 38) for c in more):
                    good.add(i)
                else:
                    bad[i] = 1
            return t
        F = Flow(f, 0, tr, extra=[i.ops[0] for i in st], keep=more)
        F.run()
        for i in bad:
            rep.bad("raw-mustache", i.origin(), i.where(), "a mustache is marked raw without its opening delimiter containing { or &")
        for i in good - set(bad):
            rep.ok("raw-mustache", i.where())


# -- (6) ------------------------------------------------------------------------------------------

def safe(P, rep):
    S = P.enum("HANDLEBARS_VALUE_FLAG_SAFE_STRING")
    for f in P.functions.values():
        if f.mod.unit == "bin/handlebarsc.c":
            continue
        for i in f.insts():
            if i.op == "store":
                pl = place(f, i.ops[1])
                if pl and pl[:2] == ("handlebars_value", "flags"):
                    v = i.ops[0]
                    c = const_int(v)
                    ok = (c is not None and not c & S) or f.name == "handlebars_value_set_flag" or copied(f, v)
                    rep.check(ok, "safe-flag", "%s:store" % i.origin(), i.where(),
                              "%s() marks a value as safe on its own" % i.origin())
            elif i.op == "call" and cname(i) == "handlebars_value_set_flag":
                v = const_int(i.ops[1])
                rep.check(v is not None and not v & S, "safe-flag", "%s:call" % i.origin(), i.where(),
                          "%s() marks a value as safe on its own" % i.origin())


def copied(f, v):
    ls = an.leaves(f, v)
    for x in ls:
        d = f.defs.get(an.strip(f, x))
        if d is None or d.op != "load":
            return False
        pl = place(f, d.ops[0])
        if not pl or pl[1] != "flags":
            return False
    return True
