"""C27: containers own what they hold."""
from .. import an, loops, valflow
from ..an import cname, const_int, path
from ..flow import Flow
from .c07 import S, Cow, exempt, UNITS

RULE = ("Ownership typestate over every function of the container modules: (key) a key stored into a map entry is referenced "
        "exactly once; (slot) a value slot is cleared before its first assignment and never copied raw from another container; "
        "(remove) an element is released exactly once before its slot is cleared or the count lowered; (destroy) the loop that "
        "releases the elements covers all of them, skipping only absent ones, before the memory is freed; (copy) the copy loops "
        "cover all elements; (replace) where a copy takes the place of a container of reference count 1, 2 or 5, the copy gains "
        "and the original loses exactly one reference; (adopt) the object returned by an operation that may replace its argument "
        "is the one used afterwards.")
ASSUME = ["loops of an unrecognised form are accepted",
          "handlebars_map_get_kv_at_index and the count accessors report what the map holds"]
COUNTS = {"handlebars_map": ({"vec_offset"}, {"handlebars_map_sparse_array_count"}),
          "handlebars_stack": ({"i"}, {"handlebars_stack_count"}),
          "handlebars_closure": ({"localc"}, set())}
KIND = {"handlebars_map": "map", "handlebars_stack": "stack", "handlebars_string": "string"}


def place(f, addr):
    """an.place, and the key at the start of an entry reached through untyped memory"""
    d = f.defs.get(addr)
    if d is not None and d.op == "gep" and "handlebars_map_entry" in d.x and len(d.ops) == 2:
        return "handlebars_map_entry", "key", path(f, addr).base
    return an.place(f, addr)


def run(ctx, rep):
    P = ctx.inl
    V = valflow.VF(P)
    rel = {(u, n) for u, n in V.rel if V.sum.get(u, {}).get(n) == V.tags["NULL"]}
    assign = {u for u, n in V.rel if n == 0 and (u, 0) not in rel} | {"handlebars_value_value", "handlebars_value_boolean"}
    fns = [f for f in P.functions.values() if f.mod.unit in
           ("handlebars_map.c", "handlebars_stack.c", "handlebars_closure.c", "handlebars_string.c", "handlebars_ptr.c",
            "handlebars_value_handlers.c") and not f.avail]
    keys(fns, rep)
    slots(P, fns, rel, assign, rep)
    removal(P, fns, rel, rep)
    destroy(P, fns, rel, rep)
    copies(P, fns, assign, rep)
    replace(P, fns, rep)
    adopt(P, rep)


def alias_key(f, v, entry_store):
    """v is the key held at the stored address"""
    d = f.defs.get(v)
    if d is not None and d.op == "load":
        return path(f, d.ops[0]).key() == path(f, entry_store.ops[1]).key()
    return v == entry_store.ops[0]


def keys(fns, rep):
    for f in fns:
        for s in f.insts():
            if s.op != "store" or s.ops[0] == "null" or not place(f, s.ops[1]) or \
                    place(f, s.ops[1])[:2] != ("handlebars_map_entry", "key"):
                continue
            d = f.defs.get(s.ops[0])
            if d is not None and d.op == "load" and place(f, d.ops[0]) and place(f, d.ops[0])[:2] == ("handlebars_map_entry", "key"):
                rep.ok("key", s.where())       # an entry moved within its map
                continue

            def tr(i, t, env):
                st, n = t
                if i is s:
                    return (min(st + 1, 2), n)
                if i.op == "call" and i.ops and alias_key(f, i.ops[0], s):
                    if i.x["callee"].startswith("handlebars_string_addref"):
                        return (st, min(n + 1, 3))
                    if i.x["callee"].startswith("handlebars_string_delref"):
                        return (st, n - 1)
                return t
            F = Flow(f, (0, 0), tr).run()
            bad = [t for _, t, _ in F.exits if t[0] != t[1]]
            rep.check(not bad, "key", f.name, s.where(), "%s: a key is stored %d time(s) but referenced %d time(s)" % (
                f.name, bad[0][0] if bad else 0, bad[0][1] if bad else 0))
    rep.floor("key", 1, "key stores")


def elem(f, addr):
    """(container struct, base, index term) of the address of an element value"""
    p = path(f, addr)
    st = p.steps
    for s, fld in (("handlebars_stack", "v"), ("handlebars_closure", "localv"), ("handlebars_map_entry", "value")):
        if (s, fld) in st:
            return s, p.base, term(f, p)
    return None


def term(f, p):
    out = []
    for v, z in p.sym:
        v = an.strip(f, v)
        d = f.defs.get(v)
        pl = place(f, d.ops[0]) if d is not None and d.op == "load" else None
        out.append((pl[:2] if pl else v, z))
    return (p.off, tuple(out))


def base_term(f, b):
    """the same memory reached through a recomputed base"""
    d = f.defs.get(b)
    if d is not None and d.op == "load":
        pl = place(f, d.ops[0])
        return pl[:2] if pl else b
    return b


def slots(P, fns, rel, assign, rep):
    for f in fns:
        cl = {}
        for i in f.insts():
            if i.op == "call" and i.ops:
                e = elem(f, i.ops[0]) if isinstance(i.ops[0], str) else None
                if e:
                    cl[id(i)] = (i, e)
        for i, e in cl.values():
            if P.uname(f.mod, i.x["callee"]) not in assign:
                continue
            where = i.where()
            d = f.defs.get(e[1])
            fresh = d is not None and d.op == "call"
            zeroed = fresh and ("talloc_zero" in cname(d))
            grown = False
            cs = "handlebars_map" if e[0] == "handlebars_map_entry" else e[0]
            cnt = COUNTS[cs][0]
            after = an.reach_blocks(f, i.block)
            for s in f.insts():
                if s.op == "store" and place(f, s.ops[1]) and place(f, s.ops[1])[0] == cs and place(f, s.ops[1])[1] in cnt and \
                        (s.block in after and (s.block is not i.block or s.idx > i.idx)):
                    src = loops.source(f, s.ops[0])
                    if src and src[0] == "field" and src[-1] > 0:
                        grown = True
            if zeroed or not (fresh or grown):
                rep.ok("slot", where)
                continue
            if fresh and d.x["callee"].endswith("_rehash"):
                fresh = False
            ini = [j for j, e2 in cl.values() if is_init(j) and e2[0] == e[0] and base_term(f, e2[1]) == base_term(f, e[1]) and
                   e2[2] == e[2]]
            ok = any(an.inst_dominates(j, i) for j in ini)
            if not ok and not grown and not fresh:
                ok = True
            rep.check(ok, "slot", f.name, where, "%s assigns to an element that was never cleared" % f.name)
        # raw copies between containers
        for i in f.insts():
            if i.op == "call" and i.x["callee"].startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")):
                a, b = path(f, i.ops[0]), path(f, i.ops[1])
                sa, sb = an.pointee(f, a.base), an.pointee(f, b.base)
                own = ("handlebars_map", "handlebars_stack", "handlebars_map_entry", "handlebars_value")
                n = const_int(i.ops[2])
                e = elem(f, i.ops[0])
                if e and e[0] != "handlebars_map_entry" and n == 16 and not (sb == sa and a.base == b.base):
                    rep.bad("slot", f.name + "|raw", i.where(), "%s copies a value into a container without referencing it" % f.name)
                if sa in own[:2] and sb in own[:2] and a.base != b.base and (n is None or n >= 16):
                    rep.bad("slot", f.name + "|raw", i.where(), "%s copies elements between containers without referencing them" % f.name)
    rep.floor("slot", 4, "element assignments")


def is_init(i):
    c = i.x["callee"]
    return c == "handlebars_value_init" or c.startswith(("llvm.memset", "memset")) and const_int(i.ops[1]) == 0


def keyload(f, v, base):
    """v was loaded from the key field of entry `base`"""
    d = f.defs.get(v)
    if d is None or d.op != "load" or path(f, d.ops[0]).base != base:
        return False
    p = path(f, d.ops[0])
    pl = place(f, d.ops[0])
    return p.off == 0 and not p.sym or bool(pl) and pl[:2] == ("handlebars_map_entry", "key")


def removal(P, fns, rel, rep):
    for f in fns:
        # entries overwritten by an empty one
        for i in f.insts():
            ent = None
            if i.op == "call" and i.x["callee"].startswith(("llvm.mem", "mem")) and len(i.ops) > 2 and const_int(i.ops[2]) == 32:
                src = i.ops[1]
                g = isinstance(src, str) and src.startswith("@") and f.mod.globals.get(src[1:])
                if g and "zeroinitializer" in (g[2] or "") and "map_entry" in (g[1] or "") or const_int(src) == 0 and "set" in i.x["callee"]:
                    ent = path(f, i.ops[0]).base
            elif i.op == "store" and i.ops[0] == "null" and place(f, i.ops[1]) and place(f, i.ops[1])[:2] == ("handlebars_map_entry", "key"):
                ent = path(f, i.ops[1]).base
            if ent is None or f.defs.get(ent) is None:
                continue
            d = f.defs.get(ent)
            if d.op in ("alloca", "call") or an.pointee(f, ent) not in (None, "handlebars_map", "handlebars_map_entry"):
                continue
            x0 = i

            def tr(i, t, env):
                k, v, x, c = t
                if i.op == "call" and i.ops:
                    if i.x["callee"].startswith("handlebars_string_delref") and keyload(f, i.ops[0], ent):
                        return (min(k + 1, 3), v, x, c)
                    if any((g, 0) in rel for g in P.targets(i)) and isinstance(i.ops[0], str) and path(f, i.ops[0]).base == ent:
                        return (k, min(v + 1, 3), x, c)
                if i is x0:
                    if (k, v) != (1, 1):
                        return (k, v, "bad%d%d" % (k, v), c)
                    return (k, v, "ok", c)
                if i.op == "store" and place(f, i.ops[1]) and place(f, i.ops[1])[:2] == ("handlebars_map", "i"):
                    s = loops.source(f, i.ops[0])
                    return (k, v, x, c + (s[-1] if s and s[0] == "field" else -9))
                return t
            F = Flow(f, (0, 0, "", 0), tr).run()
            bad = None
            for _, t, _ in F.exits:
                if t[2].startswith("bad"):
                    bad = "an entry is cleared after its key was released %s time(s) and its value %s time(s)" % (t[2][3], t[2][4])
                elif t[2] == "ok" and t[3] != -1:
                    bad = "an entry is removed but the element count changes by %d" % t[3]
                elif t[2] == "" and (t[0] or t[1] or t[3]):
                    bad = "an entry is released but not cleared"
            rep.check(bad is None, "remove", f.name, x0.where(), "%s: %s" % (f.name, bad))
        # arrays: the count is lowered
        for s in f.insts():
            if s.op == "store" and place(f, s.ops[1]) and place(f, s.ops[1])[:2] == ("handlebars_stack", "i"):
                src = loops.source(f, s.ops[0])
                if not (src and src[0] == "field" and src[-1] < 0):
                    continue

                def tr2(i, t, env):
                    n, r = t
                    if i is s:
                        return (min(n + 1, 2), r)
                    if i.op == "call" and i.ops and isinstance(i.ops[0], str) and elem(f, i.ops[0]) and \
                            any((g, 0) in rel for g in P.targets(i)):
                        return (n, min(r + 1, 3))
                    return t
                F = Flow(f, (0, 0), tr2).run()
                bad = [t for _, t, _ in F.exits if t[0] != t[1]]
                rep.check(not bad, "remove", f.name, s.where(),
                          "%s lowers the element count %d time(s) but releases %d element(s)" % (f.name, *(bad[0] if bad else (0, 0))))
    rep.floor("remove", 2, "removals")


def index_of(f, call, n):
    """index value behind operand n of a call on an element, and the container struct"""
    v = call.ops[n]
    e = elem(f, v) if isinstance(v, str) else None
    if e and e[0] != "handlebars_map_entry":
        p = path(f, v)
        return (p.sym[-1][0] if p.sym else None), e[0]
    if e:
        p = path(f, v)
        if p.sym:
            return p.sym[-1][0], "handlebars_map"
    d = f.defs.get(v)
    if d is not None and d.op == "phi":
        for l in an.leaves(f, v):
            e = elem(f, l)
            if e:
                return None, "handlebars_map" if e[0] == "handlebars_map_entry" else e[0]
    b = path(f, v).base if isinstance(v, str) else None
    if b in f.defs and f.defs[b].op == "phi" and "handlebars_map_entry" in (x for x, _ in path(f, v).steps):
        return None, "handlebars_map"
    if d is not None and d.op == "load":
        b = path(f, d.ops[0])
        if place(f, d.ops[0]) and place(f, d.ops[0])[:2] == ("handlebars_map_entry", "key"):
            return (b.sym[-1][0] if b.sym else None), "handlebars_map"
        for i in f.insts():
            if i.op == "call" and i.x["callee"] == "handlebars_map_get_kv_at_index" and b.base in i.ops[2:]:
                return i.ops[1], "handlebars_map"
    if d is not None and d.op == "call" and d.x["callee"] in ("handlebars_map_get_key_at_index", "handlebars_stack_get"):
        return d.ops[1], "handlebars_map" if "map" in d.x["callee"] else "handlebars_stack"
    return None, None


def frees(f, i):
    return i.op == "call" and cname(i) in ("talloc_free", "_talloc_free")


def destroy(P, fns, rel, rep):
    want = {"handlebars_map": ("key", "value"), "handlebars_stack": ("value",), "handlebars_closure": ("value",)}
    found = {}
    for f in fns:
        fr = [(i, an.pointee(f, path(f, i.ops[0]).base) or casted(f, i.ops[0])) for i in f.insts() if frees(f, i)]
        for i, s in fr:
            if s not in want:
                continue
            got = {}
            for c in f.insts():
                if c.op != "call" or not c.ops:
                    continue
                what = None
                if c.x["callee"].startswith("handlebars_string_delref"):
                    what = "key"
                elif any((g, 0) in rel for g in P.targets(c)):
                    what = "value"
                if what is None:
                    continue
                idx, cs = index_of(f, c, 0)
                if cs == s:
                    got.setdefault(what, []).append((c, idx))
            for w in want[s]:
                if w not in got:
                    rep.bad("destroy", "%s|%s" % (s, w), i.where(), "%s frees a container without releasing its %ss" % (f.name, w))
                    continue
                bad = None
                for c, idx in got[w]:
                    m = loops.cover(f, c, idx, *COUNTS[s]) if idx is not None else None
                    bad = bad or m
                    z = loops.header_phi(f, idx) if idx is not None else None
                    if z and not an.dominates(f, z[0].block, i.block):
                        if not only_alloc_flag(f, i, z[0].block):
                            bad = bad or "the elements are not released on every path that frees the container"
                if len(got[w]) > 1:
                    bad = bad or "an element's %s is released more than once" % w if all(
                        an.inst_dominates(got[w][0][0], c) for c, _ in got[w][1:]) else bad
                rep.check(bad is None, "destroy", "%s|%s" % (s, w), i.where(), "%s: %s" % (f.name, bad))
            found[s] = True
    for s in want:
        if s not in found:
            raise an.AnalysisError("C27: destruction of %s not found" % s)
    # single-owner objects
    ptr = P.need("handlebars_ptr_delref")
    pins = {i.res for i in ptr.insts() if i.op == "load" and place(ptr, i.ops[0]) and place(ptr, i.ops[0])[1] == "nofree"}
    for flag in (0, 1):
        def tr(i, t, env):
            u, o = t
            if i.res in pins:
                return [("@env", t, {i.res: flag})]
            if frees(ptr, i):
                d = ptr.defs.get(i.ops[0])
                if d is not None and d.op == "load" and place(ptr, d.ops[0]) and place(ptr, d.ops[0])[1] == "uptr":
                    return (min(u + 1, 2), o)
                return (u, min(o + 1, 2))
            return t
        F = Flow(ptr, (0, 0), tr, extra=tuple(pins), keep=pins).run()
        bad = [t for _, t, _ in F.exits if t[1] and t != (1 - flag, 1)]
        rep.check(not bad and any(t[1] for _, t, _ in F.exits), "destroy", "ptr%d" % flag, ptr.name,
                  "releasing a pointer value %s the memory it wraps" % ("frees" if flag else "does not free exactly once"))
    usr = P.need("handlebars_user_delref")

    def tru(i, t, env):
        d, o = t
        if i.op == "call":
            if frees(usr, i):
                return (d, min(o + 1, 2))
            c = usr.defs.get(i.x["callee"])
            if c is not None and c.op == "load" and place(usr, c.ops[0]) and place(usr, c.ops[0])[:2] == ("handlebars_value_handlers", "dtor"):
                return (min(d + 1, 2), o) if not o else (9, o)
        return t
    F = Flow(usr, (0, 0), tru).run()
    rep.check(all(t in ((0, 0), (1, 1)) for _, t, _ in F.exits) and any(t == (1, 1) for _, t, _ in F.exits), "destroy", "user", usr.name,
              "releasing a user object does not run its destructor exactly once before freeing it")


def only_alloc_flag(f, i, block):
    return False


def casted(f, v):
    d = f.defs.get(v)
    if d is not None and d.op == "call" and d.x["callee"] == "_talloc_get_type_abort":
        s = d.ops[1]
        g = f.mod.globals.get(s[1:]) if isinstance(s, str) and s.startswith("@") else None
        if g and g[2] and g[2].startswith('c"'):
            n = g[2][2:].split("\\00")[0].strip('"')
            return n.replace("struct ", "")
    return None


def copies(P, fns, assign, rep):
    for f in fns:
        if not (f.name.endswith("_copy_ctor") or f.name == "handlebars_closure_ctor") or f.mod.unit == "handlebars_string.c":
            continue
        n = 0
        for c in f.insts():
            if c.op != "call":
                continue
            if P.uname(f.mod, c.x["callee"]) in assign and elem(f, c.ops[0]):
                idx, s = index_of(f, c, 0)
                sidx = path(f, c.ops[1]).sym[-1][0] if path(f, c.ops[1]).sym else None
                n += 1
                bad = loops.cover(f, c, idx, *COUNTS[s]) if idx is not None else None
                z1, z2 = (loops.header_phi(f, x) if x is not None else None for x in (idx, sidx))
                if z1 and z2 and z1[0] is z2[0] and z1[3] != z2[3]:
                    bad = bad or "elements are shifted"
                rep.check(bad is None, "copy", f.name, c.where(), "%s: %s" % (f.name, bad))
            elif c.x["callee"] in ("handlebars_map_add", "handlebars_map_update", "handlebars_stack_push"):
                k = len(c.ops) - 1
                idx, s = index_of(f, c, k)
                n += 1
                bad = loops.cover(f, c, idx, *COUNTS[s]) if idx is not None else None
                rep.check(bad is None, "copy", f.name, c.where(), "%s: %s" % (f.name, bad))
        # the count of the copy
        if f.name == "handlebars_stack_copy_ctor":
            st = [s for s in f.insts() if s.op == "store" and place(f, s.ops[1]) and place(f, s.ops[1])[:2] == ("handlebars_stack", "i")]
            if st:
                for s in st:
                    src = loops.source(f, s.ops[0])
                    ok = src is None or src[0] == "field" and src[2] == "i" and src[3] == 0 or src[0] == "call" or src[0] == "field" and src[3] == 1
                    rep.check(ok, "copy", f.name + "|count", s.where(), "%s: the copy's element count is not the original's" % f.name)
            elif not any(c.op == "call" and c.x["callee"] == "handlebars_stack_push" for c in f.insts()):
                rep.bad("copy", f.name + "|count", f.name, "%s: the copy's element count is never set" % f.name)
        if n == 0 and not any(c.op == "call" and "cpy" in c.x["callee"] for c in f.insts()):
            rep.bad("copy", f.name + "|none", f.name, "%s copies no elements" % f.name)
    rep.floor("copy", 3, "copy loops")


def replace(P, fns, rep):
    for f in fns:
        for c in f.insts():
            if c.op != "call" or not c.x["callee"].endswith("_copy_ctor") or f.name.endswith("_copy_ctor"):
                continue
            s = an.ret_struct(f, c)
            if s not in KIND:
                continue
            prev = next((o for o in c.ops if isinstance(o, str) and an.pointee(f, o) == s), None)
            if prev is None:
                continue
            pins = {i.res for i in f.insts() if i.op == "load" and i.ty.startswith("i") and
                    (any(x == "rc" for _, x in path(f, i.ops[0]).steps) or (place(f, i.ops[0]) or ("", ""))[1] in ("rc", "refcount")) and
                    path(f, i.ops[0]).base == prev}
            for n in (1, 2, 5):
                def tr(i, t, env):
                    if i.res in pins:
                        return [("@env", t, {i.res: n})]
                    if i is c:
                        return (1, 0, 0)
                    if i.op == "call" and i.ops and t[0]:
                        if i.x["callee"].startswith("handlebars_%s_addref" % KIND[s]) and c.res in an.leaves(f, i.ops[0]):
                            return (1, min(t[1] + 1, 3), t[2])
                        if i.x["callee"].startswith("handlebars_%s_delref" % KIND[s]) and i.ops[0] == prev:
                            return (1, t[1], min(t[2] + 1, 3))
                    return t
                F = Flow(f, (0, 0, 0), tr, extra=tuple(pins), keep=pins).run()
                got = {t for r, t, _ in F.exits if t[0]}
                bad = [t for t in got if t[1:] != (1, 1)]
                rep.check(not bad, "replace", "%s|%s|%d" % (f.name, s, n), c.where(),
                          "%s: a copy replacing a %s of reference count %d gains %d reference(s) and the original loses %d" % (
                              f.name, KIND[s], n, *(bad[0][1:] if bad else (0, 0))))
    rep.floor("replace", 9, "replacements")


def adopt(P, rep):
    C = Cow(P, rep)
    n = 0
    for f in P.functions.values():
        if f.mod.unit.startswith("bin"):
            continue
        used = {}
        for i in f.insts():
            for o in ([x for x, _ in i.ops] if i.op == "phi" else i.ops):
                if isinstance(o, str):
                    used.setdefault(o, []).append(i)
        for i in f.insts():
            if i.op != "call":
                continue
            s = an.ret_struct(f, i)
            if s not in S:
                continue
            g = P.functions.get(P.uname(f.mod, i.x["callee"]))
            if g is None or g.mod.unit not in UNITS or g.name.endswith(("_copy_ctor", "_init", "_ctor", "_ctor_ex")):
                continue
            ps = [m for m in C.params(g) if m < len(i.ops) and an.ptr_struct(g.mod, an.fn_sig(g.mod, g)[1][m]) == s]
            if not ps:
                continue
            m = ps[0]
            if not consumes(P, C, g, m):
                continue
            a = i.ops[m]
            where = i.where()
            key = "%s|%s" % (f.name, g.name)
            n += 1
            if i.res is None or i.res not in used:
                rep.bad("adopt", key, where, "%s ignores the object returned by %s, which may have replaced its argument" % (f.name, g.name))
                continue
            d = f.defs.get(a)
            bad = None
            # the argument, afterwards
            for u in used.get(a, []):
                if u is i or u.op in ("icmp", "phi", "ret"):
                    continue
                if u.op == "call" and ("addref" in u.x["callee"] or "delref" in u.x["callee"]):
                    continue
                if after(f, i, u, d):
                    bad = "uses the argument of %s after the call (%s)" % (g.name, u.where())
            if d is not None and d.op == "load" and not bad:
                pl = place(f, d.ops[0])
                if pl and pl[0] not in (None,) and path(f, d.ops[0]).base != i.res:
                    st = [u for u in reach_uses(f, i.res) if u.op in ("store", "ret") or u.op == "call"]
                    if not st:
                        bad = "does not store the object returned by %s back" % g.name
                    elif not any(u.op == "store" and (place(f, u.ops[1]) or (0, 0))[:2] == pl[:2] for u in st) and \
                            any(u.op == "load" and u is not d and place(f, u.ops[0]) and place(f, u.ops[0])[:2] == pl[:2] and
                                path(f, u.ops[0]).base == path(f, d.ops[0]).base and after(f, i, u, d) for u in f.insts()):
                        bad = "keeps using %s.%s after %s may have replaced it" % (pl[0], pl[1], g.name)
                    elif not any(u.op in ("store", "ret") or u.op == "call" and ("value" in u.x["callee"] or True) for u in st):
                        bad = "drops the object returned by %s" % g.name
            rep.check(bad is None, "adopt", key, where, "%s %s" % (f.name, bad))
    rep.floor("adopt", 60, "calls of replacing operations")


def consumes(P, C, g, m, seen=None):
    """g may change, reallocate or give up the object passed as its m-th argument"""
    seen = set() if seen is None else seen
    if (g.uname, m) in seen:
        return False
    seen.add((g.uname, m))
    if C.writes(g.uname, m):
        return True
    p = g.params[m][1]
    for i in g.insts():
        if i.op == "call":
            for k, o in enumerate(i.ops):
                if o == p:
                    if "delref" in i.x["callee"]:
                        return True
                    h = P.functions.get(P.uname(g.mod, i.x["callee"]))
                    if h is not None and h is not g and k in C.params(h) and an.ret_struct(g, i) in S and consumes(P, C, h, k, seen):
                        return True
    return False


def reach_uses(f, v):
    seen, out, work = {v}, [], [v]
    while work:
        x = work.pop()
        for i in f.insts():
            ops = [y for y, _ in i.ops] if i.op == "phi" else i.ops
            if x in ops:
                out.append(i)
                if i.op in ("phi", "select", "bitcast") and i.res not in seen:
                    seen.add(i.res)
                    work.append(i.res)
    return out


def after(f, i, u, d):
    """u can execute after i without the argument being redefined"""
    if u.block is i.block and u.idx > i.idx:
        return True
    stop = d.block if d is not None else None
    seen, work = set(), list(i.block.succs)
    while work:
        b = work.pop()
        if b in seen or b is stop:
            continue
        seen.add(b)
        if b is u.block:
            return True
        work += b.succs
    return False
