"""C12: a serialized template is complete, self-contained and relocatable."""
from collections import Counter
from .. import an, summary
from ..an import const_int, path, place
from ..cachemod import size_of

RULE = ("Effect summaries, expanded through calls with their loops and conditions, of measuring, writing, relocating and un-relocating a "
        "template: the bytes counted are the bytes written, item by item; tables and data tile the buffer that is allocated; every "
        "pointer written into the buffer points into it and is adjusted by both relocations, in an order in which tables are only read "
        "while their address is valid; strings are hashed before and made immortal after they are copied; sub-programs are referred "
        "to by their number in the table, and every program ends in a return that its table entry counts.")
ASSUME = ["operands of kinds other than string and array hold no pointers", "handlebars_align_size rounds up"]
MOD, OPC, PROG, ENT = "handlebars_module", "handlebars_opcode", "handlebars_program", "handlebars_module_table_entry"
TOK = {OPC: "OPC", PROG: "PROG", MOD: "MOD", ENT: "ENT"}


def run(ctx, rep):
    P = ctx.raw
    root = P.need("handlebars_program_serialize")
    unit = root.mod.unit
    group = {f for f in P.functions.values() if f.mod.unit == unit and any(ty == "ptr" for ty, _, _ in f.params)}
    S = summary.Summary(P, TOK, group)
    off = offsets(P, root)
    try:
        W = writing(P, S, root, off, rep)
        for nm, to in (("handlebars_module_patch_pointers", True), ("handlebars_module_normalize_pointers", False)):
            relocation(P, S, P.need(nm), to, W, off, rep)
    except summary.Loop as e:
        raise an.AnalysisError("C12: %s" % e)
    rep.floor("bytes", 15, "items of a template")
    rep.floor("relocated", 20, "pointers in a template")
    rep.floor("strings", 8, "strings copied")
    rep.floor("program", 6, "facts about programs")


def offsets(P, f):
    M = f.mod
    out = {}
    for s in (MOD, OPC, ENT, PROG, "handlebars_operand", "handlebars_operand_array"):
        for k, m in enumerate(P.struct(s)):
            out[s, m[0]] = an.field_offset(M, "%struct." + s, k) if "%struct." + s in M.types else m[1]
    return out


def name(base, off):
    return base + ("+%d" % off if off else "")


class Ev:
    def __init__(self, f, i, env, frames, loops, guards, rec):
        self.f, self.i, self.env, self.frames, self.loops, self.guards, self.rec = f, i, dict(env), frames, loops, guards, rec
        self.at = frames + (i,)


def events(S, root):
    ev = []
    S.walk(root, {}, lambda *a: ev.append(Ev(*a)))
    return ev


def result(S, f, v, env, depth=0):
    """a pointer as a sum of addresses, looking into the functions of the group"""
    d = f.defs.get(v) if isinstance(v, str) else None
    g = S.callee(f, d) if d is not None else None
    if g is not None and depth < 4:
        rs = [b.term.ops[0] for b in g.order if b.term.op == "ret" and b.term.ops]
        if len(rs) == 1:
            return result(S, g, rs[0], S.bind(f, d, g, env), depth + 1)
    return S.ptrlin(f, v, env)


def writing(P, S, root, off, rep):
    o = lambda s, m: off[s, m]
    PC, OC, DO, SZ = (name("MOD", o(MOD, m)) for m in ("program_count", "opcode_count", "data_offset", "size"))
    zent, zopc, zmod = size_of(P, ENT), size_of(P, OPC), size_of(P, MOD)
    data = o(MOD, "data")
    ev = events(S, root)
    # the counts are reset between measuring and writing
    resets = [e for e in ev if not e.frames and e.i.op == "store" and S.place(e.f, e.i.ops[1], e.env) in (PC, OC) and const_int(e.i.ops[0]) == 0]
    if len({S.place(e.f, e.i.ops[1], e.env) for e in resets}) != 2:
        raise an.AnalysisError("C12: counts are not reset before writing")

    def phase(e):
        a = e.at[0]
        if all(summary.ibefore(a, r.i) for r in resets):
            return "M"
        if all(summary.ibefore(r.i, a) for r in resets):
            return "W"
        return None

    def selfadd(e):
        """(place, sum) of place = place + sum"""
        if e.i.op != "store":
            return None
        p = S.place(e.f, e.i.ops[1], e.env)
        a, c = S.lin(e.f, e.i.ops[0], e.env)
        if a.get("*(%s)" % p) == 1:
            r = {x: y for x, y in a.items() if x != "*(%s)" % p}
            return p, summary.show(r, c), c if not r else None
        return None

    def normal(items, recs):
        """what is done per program: items [(what, loops, guards, inside the recursion?)]"""
        if not recs:
            return Counter((w, l, g) for w, l, g, i in items), None
        kids = recs[0].loops
        per = Counter((w, l, g) for w, l, g, i in items if i)
        for w, l, g, i in items:
            if not i:
                k = (w, kids + l, g)
                if per[k] > 0:
                    per[k] -= 1
                    if not per[k]:
                        del per[k]
                else:
                    per["?", w] += 1
                per[w, l, g] += 1
        return per, kids
    KIDS = "*(%s)" % name("PROG", o(PROG, "children_length"))
    OPCS = "*(%s)" % name("PROG", o(PROG, "opcodes_length"))
    rec = {p: [e for e in ev if e.rec and phase(e) == p] for p in "MW"}
    recf = {p: {S.callee(e.f, e.i) for e in rec[p]} for p in "MW"}
    items = {}
    for ph in "MW":
        for e in rec[ph]:
            rep.check(e.loops == (KIDS,) and not e.guards, "program", "children|" + ph, e.i.where(), "not every sub-program is %s" % (
                "counted" if ph == "M" else "written"))
        if len(rec[ph]) != 1:
            rep.bad("program", "recursion|" + ph, root.order[0].insts[0].where(), "sub-programs are not %s once" % ("counted" if ph == "M" else "written"))

    def inside(e, ph):
        return any(S.callee(x.block.fn, x) in recf[ph] for x in e.frames)
    cnt = {}
    for ph in "MW":
        its = []
        for e in ev:
            sa = selfadd(e)
            if phase(e) == ph and sa and sa[0] in (PC, OC):
                its.append(((sa[0], sa[1]), e.loops, e.guards, inside(e, ph)))
        cnt[ph], _ = normal(its, rec[ph])
    where = root.order[0].insts[0].where()
    for k in set(cnt["M"]) | set(cnt["W"]):
        rep.check(cnt["M"][k] == cnt["W"][k], "bytes", "count|%s" % (k[0],), where, "%s: what is counted is not what is written (%s)" % (
            root.name, k[0][0] if isinstance(k[0], tuple) else k))
    # bytes
    sizes = [e for e in ev if not e.frames and e.i.op == "store" and S.place(e.f, e.i.ops[1], e.env) == SZ]
    if len(sizes) != 1:
        raise an.AnalysisError("C12: the size of a template is set %d times" % len(sizes))
    terms = []
    S._terms(root, sizes[0].i.ops[0], sizes[0].i.block, {}, (), frozenset(), (), terms, set())
    const, dyn, mrec = Counter(), Counter(), 0
    const[(), frozenset()] -= zmod
    for (k, v), l, g in terms:
        if k == "const":
            const[l, g] += v
        elif k == "rec":
            mrec += 1
            rep.check(l == (KIDS,), "bytes", "children", sizes[0].i.where(), "the size of sub-programs is not counted")
        else:
            dyn[v, l, g] += 1
    rep.check(mrec == 1, "bytes", "recursion", sizes[0].i.where(), "the size of sub-programs is not counted once")
    want = Counter()
    for (w, l, g), n in cnt["M"].items():
        if isinstance(w, tuple) and w[1] == "1":
            want[l, g] += n * (zent if w[0] == PC else zopc)
        else:
            rep.bad("bytes", "count", where, "%s: counts in steps other than one" % root.name)
    for k in set(want) | set(const):
        rep.check(want[k] == const[k], "bytes", "tables|%s" % (k[0],), sizes[0].i.where(),
                  "%s counts %d bytes where its tables take %d" % (root.name, const[k], want[k]))
    wr = []
    for e in ev:
        sa = selfadd(e)
        if phase(e) == "W" and sa and sa[0] == DO:
            wr.append((sa[1], e.loops, e.guards, inside(e, "W")))
    wrote, _ = normal(wr, rec["W"])
    for k in set(dyn) | set(wrote):
        rep.check(dyn[k] == wrote[k], "bytes", "data|%s" % (k,), sizes[0].i.where(),
                  "%s: %s bytes are counted %d times and written %d times" % (root.name, str(k[0])[:60], dyn[k], wrote[k]))
    # the layout of the buffer
    pl = {}
    for e in ev:
        if not e.frames and e.i.op == "store":
            p = S.place(e.f, e.i.ops[1], e.env)
            for m in ("programs", "opcodes"):
                if p == name("MOD", o(MOD, m)):
                    pl[m] = (S.ptrlin(e.f, e.i.ops[0], e.env), e)
            if p == DO:
                pl["data"] = (S.lin(e.f, e.i.ops[0], e.env), e)
    if len(pl) != 3:
        raise an.AnalysisError("C12: the layout of a template was not found")
    pc, oc = "*(%s)" % PC, "*(%s)" % OC
    lay = ({**pl["programs"][0][0], "MOD": 0}, pl["programs"][0][1]), ({**pl["opcodes"][0][0], "MOD": 0}, pl["opcodes"][0][1])
    lay = [({x: y for x, y in a.items() if y}, c) for a, c in lay]
    end = ({pc: zent, oc: zopc}, 0)
    ok = lay in ([({}, data), ({pc: zent}, data)], [({oc: zopc}, data), ({}, data)]) and (dict(pl["data"][0][0]), pl["data"][0][1]) == end
    rep.check(ok, "bytes", "layout", pl["data"][1].i.where(), "%s: the tables and the data of a template overlap or leave gaps" % root.name)
    for r in resets:
        for m in pl.values():
            rep.check(summary.ibefore(loadsof(S, m[1], (PC, OC)) or m[1].i, r.i), "bytes", "layout|order", r.i.where(), "%s lays out the tables after their counts are reset" % root.name)
    # the allocation
    full = S.expr(root, sizes[0].i.ops[0], {})
    al = [e for e in ev if not e.frames and e.i.op == "call" and summary.ibefore(e.i, pl["data"][1].i) and
          any(S.expr(e.f, unclamped(e.f, a), e.env) in (full, "*(%s)" % SZ) for a, ty in zip(e.i.ops, e.i.x["tys"]) if ty in ("i32", "i64"))]
    rep.check(bool(al), "bytes", "buffer", sizes[0].i.where(), "%s does not allocate the size it counted" % root.name)
    ad = [e for e in ev if not e.frames and e.i.op == "store" and S.place(e.f, e.i.ops[1], e.env) == name("MOD", o(MOD, "addr"))]
    new = {e.i.res for e in al}
    rep.check(any(base_of(e.f, e.i.ops[0]) == base_of(e.f, e.i.ops[1]) and base_of(e.f, e.i.ops[0]) in new for e in ad), "relocated", "addr",
              (ad[-1] if ad else al[0] if al else sizes[0]).i.where(), "%s does not record where the template is" % root.name)
    # what is written, and pointers to it
    DST = ({"MOD": 1, "*(%s)" % DO: 1}, data)
    internal = {}
    for e in ev:
        if phase(e) != "W":
            continue
        if e.i.op == "call" and e.i.x["callee"].startswith(("llvm.memcpy", "memcpy", "llvm.memmove", "memmove")):
            dst = S.ptrlin(e.f, e.i.ops[0], e.env)
            if dst == DST:
                n = S.expr(e.f, e.i.ops[2], e.env)
                adv = [selfadd(x)[1] for x in ev if x.frames == e.frames and selfadd(x) and selfadd(x)[0] == DO and x.f is e.f]
                rep.check(len(adv) == 1 and (adv[0] == n or adv[0].startswith("handlebars_align_size(%s," % n)), "bytes", "append|" + n, e.i.where(),
                          "%s does not move on by what it wrote" % e.f.name)
                if "hbs_str_len" in n:
                    string(S, ev, e, n, rep)
        if e.i.op == "store" and e.frames:
            v = e.i.ops[0]
            r = result(S, e.f, v, e.env)
            if r == DST:
                internal[S.place(e.f, e.i.ops[1], e.env), opl(e.loops, OPCS), e.guards] = e
    programs(P, S, ev, phase, off, KIDS, OPCS, rep)
    kinds(P, internal, off, rep)
    return internal


def unclamped(f, v):
    """the value behind a cut-off at the largest 32 bit number, which an allocation cannot satisfy"""
    for _ in range(6):
        d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
        if d is None:
            break
        if d.op == "phi":
            arms = [x for x, _ in d.ops]
        elif d.op == "select":
            arms = d.ops[1:3]
        elif d.op == "call" and (d.x.get("callee") or "").startswith("llvm.umin"):
            arms = d.ops[:2]
        elif d.op in ("trunc", "zext"):
            v = d.ops[0]
            continue
        else:
            break
        rest = [x for x in arms if x not in ("-1", "4294967295")]
        if len(rest) != 1 or len(arms) != 2:
            break
        v = rest[0]
    return v


def base_of(f, v):
    p = path(f, v)
    return an.strip(f, p.base)


def loadsof(S, e, places):
    """the last load of one of the places that the value of a store is made of"""
    best = None
    work, seen = [e.i.ops[0]], set()
    while work:
        v = work.pop()
        d = e.f.defs.get(v) if isinstance(v, str) else None
        if d is None or v in seen:
            continue
        seen.add(v)
        if d.op == "load" and S.place(e.f, d.ops[0], e.env) in places:
            if best is None or summary.ibefore(best, d):
                best = d
        elif d.op != "call":
            work += [x for x in d.ops if isinstance(x, str)]
    return best


def opl(loops, outer):
    return tuple(x for x in loops if x != outer)


def string(S, ev, e, n, rep):
    """a string being copied: hashed before, immortal after"""
    src = S.place(e.f, e.i.ops[1], e.env)
    hashed = [x for x in ev if x.i.op == "call" and x.i.x["callee"] == "hbs_str_hash" and x.loops == e.loops and x.guards == e.guards and
              S.place(x.f, x.i.ops[0], x.env) == src and summary.before(x.at, e.at)]
    rep.check(bool(hashed), "strings", "hash|" + src, e.i.where(), "a string is copied into a template without its hash")
    im = [x for x in ev if x.i.op == "call" and x.i.x["callee"] == "handlebars_string_immortalize" and x.loops == e.loops and
          x.guards <= e.guards and summary.before(e.at, x.at) and (S.place(x.f, x.i.ops[0], x.env) in (src,) or
          S.place(x.f, x.i.ops[0], x.env).endswith("()") or is_result(S, x, e))]
    rep.check(bool(im), "strings", "immortal|" + src, e.i.where(), "a string of a template can be freed on its own")


def is_result(S, x, e):
    return result(S, x.f, x.i.ops[0], x.env) == result(S, e.f, e.i.ops[0], e.env)


def kinds(P, internal, off, rep):
    st, ar = P.enum("handlebars_operand_type_string"), P.enum("handlebars_operand_type_array")
    pl = {k[0]: k for k in internal}
    ty, dt = off["handlebars_operand", "type"], off["handlebars_operand", "data"]
    acount, aarr = off["handlebars_operand_array", "count"], off["handlebars_operand_array", "array"]
    for m in ("op1", "op2", "op3", "op4"):
        b = off[OPC, m]
        t = "*(%s)" % name("OPC", b + ty)
        arr = name("OPC", b + dt + aarr)
        for p, lo, kind, what in ((name("OPC", b + dt), (), st, "string"), (arr, (), ar, "array"),
                                  ("*(%s)[i]" % arr, ("*(%s)" % name("OPC", b + dt + acount),), ar, "array's strings")):
            k = (p, lo, frozenset({("eq", t, str(kind))}))
            rep.check(k in internal, "relocated", "written|%s|%s" % (m, what), (internal[pl[p]].i.where() if p in pl else "src/handlebars_opcode_serializer.c"),
                      "the %s of operand %s is not written into the template whenever there is one" % (what, m))


def programs(P, S, ev, phase, off, KIDS, OPCS, rep):
    o = lambda s, m: off[s, m]
    guid, ocnt, ooff = (name("ENT", o(ENT, m)) for m in ("guid", "opcode_count", "opcode_offset"))
    PC, OC = (name("MOD", o(MOD, m)) for m in ("program_count", "opcode_count"))
    pushp, ret, lng = (P.enum(x) for x in ("handlebars_opcode_type_push_program", "handlebars_opcode_type_return", "handlebars_operand_type_long"))
    W = [e for e in ev if phase(e) == "W"]
    where = W[0].i.where()
    # numbers of programs
    n = 0
    for e in W:
        if e.i.op == "store" and S.place(e.f, e.i.ops[1], e.env) == guid:
            n += 1
            r = S.expr(e.f, e.i.ops[0], e.env)
            p = path(e.f, e.i.ops[1])
            d = e.f.defs.get(p.base)
            idx = [S.expr(e.f, x, e.env) for x, z in p.sym]
            rep.check(r == "*(%s)" % PC and (idx == [r] or not p.sym), "program", "number|" + str(e.loops), e.i.where(),
                      "%s gives a program a number other than its place in the table" % e.f.name)
    rep.check(n > 0, "program", "number", where, "programs get no number")
    # references to sub-programs
    pidx = o(OPC, "op1") + o("handlebars_operand", "data")
    refs = []
    for e in W:
        if e.i.op == "store" and S.place(e.f, e.i.ops[1], e.env) == name("OPC", pidx) and ("eq", "*(OPC)", str(pushp)) in e.guards:
            refs.append(e)
            d = e.f.defs.get(an.strip(e.f, e.i.ops[0]))
            ok = d is not None and d.op == "load" and not path(e.f, d.ops[0]).sym and path(e.f, d.ops[0]).off == o(ENT, "guid")
            if ok:
                t = e.f.defs.get(path(e.f, d.ops[0]).base)
                sub = "[*(%s)]" % name("OPC", pidx)
                tp = S.place(e.f, t.ops[0], e.env) if t is not None and t.op == "load" else ""
                ok = tp.endswith(sub) and any(x.i.op == "store" and x.loops == (KIDS,) and S.place(x.f, x.i.ops[1], x.env) == tp[:-len(sub)] + "[i]" and
                                              (result(S, x.f, x.i.ops[0], x.env)[0] == {"ENT": 1} or S.token(x.f, x.i.ops[0]) == "ENT") for x in W)
            rep.check(ok, "program", "reference|" + str(e.loops), e.i.where(), "%s: a sub-program is not referred to by its number in the table" % e.f.name)
            extra = {g for g in e.guards if g[1] not in ("*(OPC)", "*(%s)" % name("OPC", o(OPC, "op1"))) and
                     "*(%s)" % name("OPC", o(OPC, "op4") + o("handlebars_operand", "data")) not in g[1]}
            rep.check(not extra and (("eq", "*(%s)" % name("OPC", o(OPC, "op1")), str(lng)) in e.guards or
                                     not any(g[1] == "*(%s)" % name("OPC", o(OPC, "op1")) for g in e.guards)),
                      "program", "reference when|" + str(e.loops), e.i.where(), "%s: not every reference to a sub-program is adjusted" % e.f.name)
    rep.check(any(OPCS in e.loops for e in refs), "program", "reference", where, "references to sub-programs are not adjusted")
    # the entry of a program: where its opcodes are and how many
    st = [e for e in W if e.i.op == "store" and S.place(e.f, e.i.ops[1], e.env) == ooff]
    cp = [e for e in W if e.i.op == "store" and S.place(e.f, e.i.ops[1], e.env) == OC and e.frames]
    for e in st:
        first = all(summary.before(e.at, c.at) for c in cp if c.frames[:len(e.frames)] == e.frames)
        rep.check(S.expr(e.f, e.i.ops[0], e.env) == "*(%s)" % OC and first, "program", "offset", e.i.where(),
                  "%s records another place than where the opcodes start" % e.f.name)
    rep.check(bool(st), "program", "offset none", where, "the place of a program's opcodes is not recorded")
    total = Counter()
    for e in W:
        if e.i.op == "store" and S.place(e.f, e.i.ops[1], e.env) == ocnt:
            a, c = S.lin(e.f, e.i.ops[0], e.env)
            for x, k in a.items():
                if x != "*(%s)" % ocnt:
                    total[x] += k
            total[1] += c
    per = Counter()
    for e in cp:
        per[OPCS if OPCS in e.loops else 1] += 1
    rep.check(total == Counter({OPCS: 1, 1: per[1]}), "program", "length", where, "the number of a program's opcodes is not recorded right")
    rets = [e for e in W if e.i.op == "store" and S.place(e.f, e.i.ops[1], e.env) == "OPC" and const_int(e.i.ops[0]) == ret and not e.loops and not e.guards]
    last = [e for e in cp if OPCS not in e.loops]
    ok = bool(rets) and bool(last) and all(not any(summary.before(l.at, x.at) for x in cp if OPCS in x.loops and x.frames[:-1] == l.frames[:-1]) for l in last) and \
        all(summary.before(rets[0].at, l.at) for l in last)
    rep.check(ok, "program", "return", (rets[0].i.where() if rets else where), "a program does not end in a return")


def relocation(P, S, f, to_itself, internal, off, rep):
    o = lambda s, m: off[s, m]
    ADDR = "*(%s)" % name("MOD", o(MOD, "addr"))
    OC = "*(%s)" % name("MOD", o(MOD, "opcode_count"))
    ev = events(S, f)
    base = "MOD" if to_itself else "%s:%s" % (f.name, f.params[1][1])
    done, last = {}, []
    for e in ev:
        if e.i.op != "store":
            continue
        p = S.place(e.f, e.i.ops[1], e.env)
        v, c = S.ptrlin(e.f, e.i.ops[0], e.env)
        if p == name("MOD", o(MOD, "addr")):
            last.append(e)
            rep.check((v, c) == ({base: 1}, 0), "relocated", f.name + "|addr", e.i.where(), "%s records another address" % f.name)
            continue
        want = {"*(%s)" % p: 1, ADDR: -1, base: 1}
        gd = frozenset(g for g in e.guards if ADDR not in g)
        rep.check(v == want and c == 0 and (not p.startswith(("OPC", "*(OPC")) or e.loops[:1] == (OC,)), "relocated", f.name + "|value|" + p, e.i.where(),
                  "%s does not move every %s by the distance" % (f.name, p))
        k = (p, e.loops[1:] if e.loops[:1] == (OC,) else e.loops, gd)
        rep.check(k not in done, "relocated", f.name + "|twice|" + p, e.i.where(), "%s moves a pointer twice" % f.name)
        done[k] = e
    need = set(internal) | {(name("MOD", o(MOD, m)), (), frozenset()) for m in ("programs", "opcodes")}
    for k in need:
        rep.check(k in done, "relocated", "%s|%s" % (f.name, k[0]), (done.get(k) or ev[0]).i.where(), "%s leaves a pointer (%s) as it was" % (f.name, k[0]))
    for k in set(done) - need:
        rep.bad("relocated", "%s|extra|%s" % (f.name, k[0]), done[k].i.where(), "%s changes something that is not a pointer into the template (%s)" % (f.name, k[0]))
    rep.check(len(last) == 1 and all(not (summary.before(last[0].at, e.at)) for e in done.values()), "relocated", f.name + "|addr last",
              (last[0] if last else ev[0]).i.where(), "%s does not record the new address last" % f.name)
    # tables are read while their address is good
    for (p, l, g), s in done.items():
        for e in ev:
            if e.i.op != "load" or S.place(e.f, e.i.ops[0], e.env) != p or not followed(e):
                continue
            if p.startswith(("OPC", "*(")) and e.frames != s.frames and e.frames[:-1] != s.frames[:-1]:
                continue
            ok = summary.before(s.at, e.at) if to_itself else summary.before(e.at, s.at)
            rep.check(ok, "relocated", "%s|order|%s" % (f.name, p), e.i.where(), "%s reads through a pointer (%s) %s moving it" % (f.name, p, "before" if to_itself else "after"))


def followed(e):
    """is the pointer loaded used to reach memory"""
    v = e.i.res
    for i in e.f.insts():
        if i.op in ("gep", "load") and i.ops and i.ops[0] == v:
            if i.op == "gep" and i.x == "i8":
                continue
            return True
        if i.op == "store" and i.ops[1] == v:
            return True
        if i.op == "call" and v in i.ops:
            return True
    return False
