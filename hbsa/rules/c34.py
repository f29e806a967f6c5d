"""C34: imported JSON and YAML data keeps its kinds, elements and order."""
from .. import an, loops
from ..an import const_int, path
from ..flow import Flow
from ..linear import lin, comb

RULE = ("For every function branching on the kind of a JSON or YAML node, path analysis with the kind pinned to each enumerator in "
        "turn: the output value is assigned exactly the setter of that kind, with the result of the accessor of that kind and no "
        "narrowing conversion on the way. Conversion loops visit every element once, convert it and store it under its own key. "
        "Iterator steps: every path reporting an element has stored the element at the position one further, and only where that "
        "position lies inside the container; every path reporting the end has established that it does not.")
ASSUME = ["json-c's and libyaml's accessors return what their documentation says", "keys contain no NUL byte"]

JKIND = {"null": ("handlebars_value_null", None), "boolean": ("handlebars_value_boolean", "json_object_get_boolean"),
         "double": ("handlebars_value_float", "json_object_get_double"), "int": ("handlebars_value_integer", "json_object_get_int64"),
         "string": ("handlebars_value_str", "json_object_get_string"), "object": ("handlebars_value_user", "handlebars_json"),
         "array": ("handlebars_value_user", "handlebars_json")}
SETTERS = {"handlebars_value_null", "handlebars_value_boolean", "handlebars_value_float", "handlebars_value_integer", "handlebars_value_str",
           "handlebars_value_user", "handlebars_value_map", "handlebars_value_array", "handlebars_value_closure", "handlebars_value_helper",
           "handlebars_value_ptr", "handlebars_value_value", "handlebars_value_str_steal", "handlebars_value_cstr_steal", "handlebars_value_dtor"}


def run(ctx, rep):
    P = ctx.inl
    J = {k.replace("json_type_", ""): v for k, v in P.enum_type("json_type").items()}
    T = P.enum_type("handlebars_value_type")
    f = P.need("handlebars_value_init_json_object")
    for k, n in J.items():
        json_node(P, f, k, n, rep)
    slot = lambda n: [P.functions[u] for u in sorted(P.slots.get(("handlebars_value_handlers", n), ()))
                      if u in P.functions and P.functions[u].mod.unit == "handlebars_json.c"]
    for g in slot("convert"):
        for k in ("object", "array"):
            json_convert(P, g, k, J[k], rep)
    for g in slot("type"):
        for k, w in (("object", "MAP"), ("array", "ARRAY")):
            ret_of(g, J[k], lambda f, v: const_int(v) == T["HANDLEBARS_VALUE_TYPE_" + w], k,
                   "a JSON %s is not reported as %s" % (k, w.lower()), rep)
    for g in slot("count"):
        for k, w in (("object", "json_object_object_length"), ("array", "json_object_array_length")):
            ret_of(g, J[k], lambda f, v: is_call(f, v, w), k, "the element count of a JSON %s is not its length" % k, rep)
    for g in slot("map_find"):
        lookup(g, "json_object_object_get", rep)
    for g in slot("array_find"):
        lookup(g, "json_object_array_get_idx", rep)
    rep.floor("lookup", 2, "lookup functions")
    yaml(P, rep)
    its = set(P.slots.get(("handlebars_value_iterator", "next"), ()))
    init = set(P.slots.get(("handlebars_value_handlers", "iterator"), ())) | {"handlebars_value_iterator_init"}
    for u in sorted(its | init):
        g = P.functions.get(u)
        if g is not None:
            iterator(P, g, u in init, J, rep)
    rep.floor("iterate", 8, "iterator paths")


def is_call(f, v, name):
    d = f.defs.get(widen(f, v))
    return d is not None and d.op == "call" and d.x["callee"] == name


def widen(f, v):
    """through conversions that lose nothing"""
    for _ in range(6):
        d = f.defs.get(v)
        if d is not None and d.op in ("zext", "sext", "freeze"):
            v = d.ops[0]
        elif d is not None and d.op == "trunc" and f.defs.get(d.ops[0]) is not None and f.defs[d.ops[0]].op == "zext" and \
                f.defs[f.defs[d.ops[0]].ops[0]].ty == d.ty:
            v = f.defs[d.ops[0]].ops[0]
        else:
            return v
    return v


def truth(f, v):
    """the integer whose truth v is"""
    v = widen(f, v)
    d = f.defs.get(v)
    if d is not None and d.op == "icmp" and d.x == "ne" and const_int(d.ops[1]) == 0:
        return widen(f, d.ops[0])
    return v


def pin(f, name, k, ev, extra=None):
    def tr(i, t, env):
        t2 = ev(i, t, env) if ev else t
        if i.op == "call" and i.x["callee"] == name and t2 is not None:
            return [("@env", t2, {i.res: k})]
        return t2
    res = [i.res for i in f.insts() if i.op == "call" and i.x["callee"] == name]
    kp = res + returned(f)
    F = Flow(f, (), tr, extra, extra=kp, keep=kp).run()
    if F.widened:
        raise an.AnalysisError("C34: too many paths in " + f.name)
    return F


def json_node(P, f, kind, num, rep):
    out, node = f.params[1][1], f.params[2][1]

    def ev(i, t, env):
        if i.op == "call" and i.ops and i.ops[0] == out and i.x["callee"] in SETTERS:
            return t + (("set", i),)
        if i.op == "call" and i.x["callee"] == "json_object_get":
            return t + (("get", i),)
        if i.op == "call" and i.x["callee"] == "json_object_put":
            return t + (("put", i),)
        return t
    F = pin(f, "json_object_get_type", num, ev)
    want, acc = JKIND[kind]
    for r, t, env in F.exits:
        sets = [i for e, i in t if e == "set"]
        msg = None
        if not sets:
            msg = "no value is assigned for a JSON %s" % kind
        else:
            s = sets[-1]
            c = s.x["callee"]
            if kind == "boolean" and c == "handlebars_value_boolean":
                v = truth(f, s.ops[1])
                if not is_call(f, v, acc):
                    msg = "a JSON boolean is not taken from its accessor"
            elif c != want:
                msg = "a JSON %s is assigned by %s" % (kind, c)
            elif kind in ("int", "double"):
                if not is_call(f, s.ops[1], acc):
                    msg = "a JSON %s is not read unchanged with %s" % (kind, acc)
            elif kind == "string":
                d = f.defs.get(s.ops[1])
                if d is None or d.op != "call" or not d.x["callee"].startswith("handlebars_string_ctor") or \
                        not is_call(f, d.ops[1], acc) or not is_call(f, d.ops[2], "json_object_get_string_len"):
                    msg = "a JSON string is not copied with its own length"
            elif kind in ("object", "array"):
                held = [x for x in f.insts() if x.op == "store" and x.ops[0] == node and
                        (an.place(f, x.ops[1]) or ("", ""))[:2] == ("handlebars_json", "object")]
                gets = [e for e, i in t if e in ("get", "put")]
                if not held:
                    msg = "a JSON %s is not kept for later access" % kind
                elif gets != ["get"]:
                    msg = "the reference taken on a JSON %s is not exactly one" % kind
        if msg is None:
            for d in [f.defs.get(widen(f, s.ops[1]))] if len(s.ops) > 1 else []:
                if d is not None and d.op == "call" and d.x["callee"].startswith("json_") and d.ops[0] != node:
                    msg = "a JSON %s is read from another node" % kind
        rep.check(msg is None, "kind", "json|%s" % kind, "%s (%s)" % (f.name, kind), msg)


def ret_of(f, num, ok, kind, msg, rep):
    F = pin(f, "json_object_get_type", num, None)
    if not F.exits:
        rep.bad("kind", f.name + "|" + kind, f.name, "no result for a JSON " + kind)
    for r, t, env in F.exits:
        vals = reaching(F, r, env)
        rep.check(all(ok(f, v) for v in vals), "kind", f.name + "|" + kind, r.where(), msg)


def returned(f):
    """the values a return statement's result goes through"""
    out, work = [], [i.ops[0] for i in f.insts() if i.op == "ret" and i.ops]
    while work:
        v = work.pop()
        d = f.defs.get(v)
        if v in out or d is None:
            continue
        out.append(v)
        if d.op == "phi":
            work += [o for o, _ in d.ops if isinstance(o, str)]
        elif d.op in ("zext", "sext", "trunc", "freeze"):
            work.append(d.ops[0])
    return out


def reaching(F, r, env):
    """values the return can have in this environment"""
    f = F.fn
    v = r.ops[0]
    for _ in range(8):
        c = F.val(v, env)
        if isinstance(c, int):
            return [str(c)]
        n = env.get(("=", v))
        d = f.defs.get(v)
        if n is None and d is not None and d.op in ("zext", "sext", "freeze"):
            n = d.ops[0]
        if n is None or n == v:
            break
        v = n
    return [v]


def lookup(f, acc, rep):
    calls = [i for i in f.insts() if i.op == "call" and i.x["callee"] == acc]
    if not calls:
        raise an.AnalysisError("C34: %s not used in %s" % (acc, f.name))
    key, rv = f.params[1][1], f.params[2][1]
    for i in calls:
        a = i.ops[1]
        if acc.endswith("_idx"):
            ok = widen(f, a) == key
        else:
            d = f.defs.get(a)
            ok = d is not None and d.op == "call" and d.x["callee"] == "hbs_str_val" and d.ops[0] == key or \
                (path(f, a).base == key and path(f, a).steps and path(f, a).steps[-1][1] == "val")
        rep.check(ok, "lookup", f.name + "|key", i.where(), "%s does not look up exactly what it is asked for" % f.name)
    item = calls[0].res

    def tr(i, t, env):
        if i.op == "call" and i.x["callee"] == "handlebars_value_init_json_object":
            return t + ((i.ops[1], i.ops[2]),)
        return t
    kp = [item] + returned(f)
    F = Flow(f, (), tr, extra=kp, keep=kp).run()
    for r, t, env in F.exits:
        got = F.val(item, env)
        for v in reaching(F, r, env):
            n = const_int(v) == 0 or v in ("null", "0") or F.val(v, env) == 0
            if n:
                ok = got == 0
            else:
                ok = got != 0 and v == rv and (rv, item) in t
            rep.check(ok, "lookup", f.name, r.where(), "%s does not return exactly the element found" % f.name)


def json_convert(P, f, kind, num, rep):
    out = f.params[0][1]
    want = {"object": "handlebars_value_map", "array": "handlebars_value_array"}[kind]

    def ev(i, t, env):
        if i.op == "call" and i.ops and i.ops[0] == out and i.x["callee"] in SETTERS:
            return t + (i.x["callee"],)
        return t
    F = pin(f, "json_object_get_type", num, ev)
    for r, t, env in F.exits:
        rep.check(t[-1:] == (want,), "convert", f.name + "|" + kind, r.where(), "converting a JSON %s does not produce a %s" % (kind, want[17:]))
    live = set(F.seen)
    stores = [i for i in f.insts() if i.op == "call" and i.block in live and i.x["callee"] in
              ("handlebars_map_str_update", "handlebars_map_str_add", "handlebars_map_update", "handlebars_map_add", "handlebars_stack_push",
               "handlebars_stack_set")]
    loop = [i for i in stores if i.block in an.reach_blocks(f, i.block.succs[0])] if stores else []
    rep.check(bool(loop), "convert", f.name + "|loop|" + kind, f.name, "the elements of a JSON %s are not converted" % kind)
    for i in loop:
        element(P, f, i, kind, rep)


def element(P, f, i, kind, rep):
    """one element stored by the conversion loop"""
    val = i.ops[-1]
    inits = [c for c in f.insts() if c.op == "call" and c.x["callee"] == "handlebars_value_init_json_object" and
             c.ops[1] == val and c.block in an.reach_blocks(f, i.block.succs[0])]
    w = i.where()
    if not inits:
        rep.bad("convert", f.name + "|" + kind, w, "the element stored was not initialised from the document")
        return
    c = inits[-1]
    src = f.defs.get(c.ops[2])
    msg = None
    if kind == "array":
        if src is None or src.op != "call" or src.x["callee"] != "json_object_array_get_idx":
            msg = "the element stored is not an element of the array"
        else:
            msg = loops.cover(f, i, src.ops[1], set(), {"json_object_array_length"})
            z = loops.header_phi(f, src.ops[1])
            if msg is None and z is None:
                msg = "the same element is stored every time"
    else:
        e = entry_of(f, c.ops[2], "v")
        k = entry_of(f, i.ops[1], "k") or (i.x["callee"].find("_str_") < 0 and key_entry(f, i.ops[1]))
        n = i.ops[2] if "_str_" in i.x["callee"] else None
        if not e or not k or e != k:
            msg = "the value of one entry is stored under the key of another"
        elif n and not whole(f, n, i.ops[1]):
            msg = "the key stored is not the whole key"
        else:
            ph = f.defs.get(e)
            if ph is None or ph.op != "phi" or not linked(f, ph):
                msg = "the entries of the object are not all visited"
            else:
                sk = loops.skipped(f, ph, i.block, lambda f, a: getattr(a, "op", "") == "icmp" and a.ty == "ptr")
                if sk:
                    msg = "some entries are skipped (condition at %s)" % sk[0]
    rep.check(msg is None, "convert", f.name + "|" + kind, w, msg)
    # nested data is converted on the same terms
    if len(f.params) > 1:
        rec = [x for x in f.insts() if x.op == "call" and x.ops and x.ops[0] == val and len(x.ops) > 1 and
               (P.uname(f.mod, x.x["callee"]) == f.uname or "convert" in x.x["callee"])]
        ok = any(widen(f, x.ops[1]) == f.params[1][1] or const_int(x.ops[1]) == 1 for x in rec)
        rep.check(ok, "convert", f.name + "|nested|" + kind, w, "nested elements of a JSON %s are not converted" % kind)


def key_entry(f, v):
    d = f.defs.get(v)
    return entry_of(f, d.ops[1], "k") if d is not None and d.op == "call" and d.x["callee"].startswith("handlebars_string_ctor") else None


def whole(f, n, s):
    d = f.defs.get(widen(f, n))
    return d is not None and d.op == "call" and d.x["callee"] == "strlen" and (d.ops[0] == s or entry_of(f, d.ops[0], "k") == entry_of(f, s, "k") is not None)


def entry_of(f, v, field):
    """the lh_entry whose field v was read from (directly or through json-c's accessors)"""
    v = widen(f, v)
    d = f.defs.get(v)
    if d is None:
        return None
    if d.op == "phi":
        s = {entry_of(f, l, field) for l in an.leaves(f, v) if l not in ("null", "undef", "poison") and getattr(f.defs.get(l), "op", "") != "phi"}
        return s.pop() if len(s) == 1 else None
    if d.op == "load":
        pl = an.place(f, d.ops[0])
        if pl and pl[:2] == ("lh_entry", field):
            return canon(f, pl[2])
        p = path(f, d.ops[0])
        if field == "k" and p.off == 0 and not p.sym and an.pointee(f, p.base) in ("lh_entry", None):
            return canon(f, p.base)
        return None
    if d.op == "call" and d.x["callee"].startswith("lh_entry_"):
        return canon(f, d.ops[0])
    if d.op in ("bitcast", "inttoptr", "ptrtoint"):
        return entry_of(f, d.ops[0], field)
    return None


def canon(f, e):
    return e


def linked(f, ph):
    """phi walking head, next, next ... and leaving the loop only at null"""
    src = set()
    for o, lab in ph.ops:
        for l in an.leaves(f, o):
            if l == ph.res:
                continue
            d = f.defs.get(l)
            pl = an.place(f, d.ops[0]) if d is not None and d.op == "load" else None
            if pl is None and l in ("null", "undef", "poison"):
                continue
            src.add(pl[:2] if pl else None)
    return src == {("lh_table", "head"), ("lh_entry", "next")}


# -- YAML ----------------------------------------------------------------------------------------
def yaml(P, rep):
    f = P.need("handlebars_value_init_yaml_node")
    Y = P.enum_type("yaml_node_type_e")
    out, node = f.params[1][1], f.params[3][1]
    kinds = [i.res for i in f.insts() if i.op == "load" and (an.place(f, i.ops[0]) or ("", ""))[:2] == ("yaml_node_s", "type") and
             path(f, i.ops[0]).base == node]
    if not kinds:
        raise an.AnalysisError("C34: kind of the YAML node not found")
    for k, want in (("MAPPING", {"handlebars_value_map"}), ("SEQUENCE", {"handlebars_value_array"}), ("SCALAR", None)):
        n = Y["YAML_%s_NODE" % k]

        def tr(i, t, env):
            if i.op == "call" and i.ops and i.ops[0] == out and i.x["callee"] in SETTERS:
                t = t + (i,)
            if i.res in kinds:
                return [("@env", t, {i.res: n})]
            return t
        F = Flow(f, (), tr, extra=kinds, keep=kinds).run()
        for r, t, env in F.exits:
            msg = None
            if not t:
                msg = "no value is assigned for a YAML %s" % k.lower()
            elif want and t[-1].x["callee"] not in want:
                msg = "a YAML %s is assigned by %s" % (k.lower(), t[-1].x["callee"])
            elif not want:
                msg = scalar(f, t[-1], node)
            rep.check(msg is None, "kind", "yaml|%s" % k, t[-1].where() if t else f.name, msg)
        for i in [i for b in F.seen for i in b.insts if i.op == "call"]:
            c = i.x["callee"]
            if c in ("handlebars_map_str_update", "handlebars_map_str_add", "handlebars_stack_push") and want:
                yaml_element(f, i, k, node, rep)
    rep.floor("kind", 14, "node kinds")


def scalar_text(f, v, node):
    d = f.defs.get(widen(f, v))
    if d is None or d.op != "load":
        return None
    p = path(f, d.ops[0])
    if p.base != node or p.sym:
        return None
    return SCALAR.get(p.off)


# layout of libyaml's public yaml_node_t: the members of the data union
SCALAR = {16: "value", 24: "length"}
LIST = {16: "start", 32: "top"}


def scalar(f, s, node):
    c = s.x["callee"]
    fs = an.dom_facts(s)

    def cmp_with(text, pred):
        for pr, a, b in [x[:3] for x in fs]:
            d = f.defs.get(a) if isinstance(a, str) else None
            if d is not None and d.op == "call" and d.x["callee"] in ("strcmp", "strncmp", "memcmp") and const_int(b) == 0 and pr == pred:
                for x, y in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
                    if scalar_text(f, x, node) == "value" and isinstance(y, str) and y.startswith("@") and f.mod.cstr(y) == text.encode():
                        return True
        return False
    if c == "handlebars_value_boolean":
        k = const_int(s.ops[1])
        if k is None:
            return None if cmp_with("true", "ne") or any(True for _ in ()) else "a YAML boolean of unknown text"
        if not cmp_with("true" if k else "false", "eq"):
            return "a scalar that is not '%s' becomes that boolean" % ("true" if k else "false")
        return None
    if c in ("handlebars_value_integer", "handlebars_value_float"):
        fn, base = ("strtol", "10") if c.endswith("integer") else ("strtod", None)
        d = f.defs.get(widen(f, s.ops[1]))
        if d is None or d.op != "call" or not (d.x["callee"].replace("__isoc23_", "") in (fn, fn + "l")):
            return "a YAML number is not the one its text spells (%s)" % c
        if base and const_int(d.ops[2]) != 10:
            return "a YAML integer is not read as decimal"
        if scalar_text(f, d.ops[0], node) != "value":
            return "a YAML number is read from something else than the scalar"
        end = False
        size = False
        for pr, a, b in [x[:3] for x in fs]:
            q = f.defs.get(an.strip(f, a)) if isinstance(a, str) else None
            if q is not None and q.op == "load" and pr == "eq" and const_int(b) == 0:
                z = f.defs.get(q.ops[0])
                if z is not None and z.op == "load" and path(f, z.ops[0]).base == path(f, d.ops[1]).base and an.inst_dominates(d, z):
                    end = True
            if scalar_text(f, a, node) == "length" and (pr in ("ugt", "ne", "sgt") and const_int(b) == 0 or pr == "uge" and const_int(b) == 1):
                size = True
            if pr in ("ne", "ult", "ugt") and isinstance(b, str) and {scalar_text(f, a, node), scalar_text(f, b, node)} & {"value"}:
                size = True
        if not end:
            return "a scalar that is not entirely a number becomes a number"
        if not size:
            return "an empty scalar becomes a number"
        if c.endswith("float") and not any(x.op == "call" and "strtol" in x.x["callee"] and an.inst_dominates(x, s) for x in f.insts()):
            return "an integer is read as floating point"
        return None
    if c == "handlebars_value_str":
        d = f.defs.get(s.ops[1])
        if d is None or d.op != "call" or not d.x["callee"].startswith("handlebars_string_ctor") or \
                scalar_text(f, d.ops[1], node) != "value" or scalar_text(f, d.ops[2], node) != "length":
            return "a YAML string is not copied with its own length"
        if not (cmp_with("true", "ne") and cmp_with("false", "ne")):
            return "a YAML boolean becomes a string"
        return None
    return "a YAML scalar is assigned by %s" % c


def yaml_element(f, i, kind, node, rep):
    w = i.where()
    val = i.ops[-1]
    src = [c for c in f.insts() if c.op == "call" and c.x["callee"] == f.name and c.ops[1] == val and an.inst_dominates(c, i)]
    msg = None
    if not src:
        msg = "the element stored was not read from the document"
    else:
        vn = src[-1].ops[3]
        d = f.defs.get(vn)
        if d is None or d.op != "call" or d.x["callee"] != "yaml_document_get_node":
            msg = "the element stored is not a node of the document"
        else:
            ph, field = cursor(f, d.ops[1])
            if ph is None:
                msg = "the elements are not visited in order"
            elif kind == "MAPPING" and field != "value":
                msg = "the value stored is not the value of the pair"
            else:
                arr = "pairs" if kind == "MAPPING" else "items"
                msg = walk(f, ph, arr, node)
                sk = loops.skipped(f, ph, i.block, lambda f, a: getattr(a, "op", "") == "icmp" and (a.ty == "ptr" or keytest(f, a)))
                if not msg and sk:
                    msg = "some elements are skipped (condition at %s)" % sk[0]
        if msg is None and kind == "MAPPING":
            msg = key(f, i, ph)
    rep.check(msg is None, "convert", "yaml|" + kind, w, msg)


def keytest(f, a):
    """a comparison of the kind of the key node, which must be a scalar"""
    for o in a.ops:
        d = f.defs.get(o)
        if d is not None and d.op == "load" and (an.place(f, d.ops[0]) or ("", ""))[:2] == ("yaml_node_s", "type"):
            return True
    return False


def cursor(f, v):
    """(phi of the loop, field) from which a node number was read"""
    d = f.defs.get(widen(f, v))
    if d is None or d.op != "load":
        return None, None
    p = path(f, d.ops[0])
    ph = f.defs.get(p.base)
    if ph is None or ph.op != "phi":
        return None, None
    field = p.steps[-1][1] if p.steps else ("key" if p.off == 0 else None)
    return ph, field if field else {0: "key", 4: "value"}.get(p.off)


def walk(f, ph, arr, node):
    starts, steps = [], []
    for o, lab in ph.ops:
        p = path(f, o)
        if p.base == ph.res:
            steps.append(p.off)
        else:
            d = f.defs.get(o)
            q = path(f, d.ops[0]) if d is not None and d.op == "load" else None
            starts.append(LIST.get(q.off) if q is not None and q.base == node and not q.sym else None)
    size = 8 if arr == "pairs" else 4
    if any(s != size for s in steps):
        return "the loop does not advance by one element"
    if starts != ["start"] * len(starts):
        return "the loop does not start at the first element"
    for b in f.order:
        if b.term.op == "br" and len(b.term.x) == 2 and an.dominates(f, ph.block, b):
            for s in b.succs:
                if ph.block in an.reach_blocks(f, s):
                    for pr, x, y in [z[:3] for z in an.edge_facts(b, s)]:
                        if not isinstance(y, str):
                            continue
                        if y == ph.res:
                            x, y, pr = y, x, loops.SWAP.get(pr, pr)
                        if x == ph.res or path(f, x).base == ph.res:
                            d = f.defs.get(y)
                            q = path(f, d.ops[0]) if d is not None and d.op == "load" else path(f, y)
                            if not (pr in ("ult", "ne", "slt") and d is not None and d.op == "load" and q.base == node and LIST.get(q.off) == "top") or \
                                    path(f, x).off != 0:
                                return "the loop does not end at the last element"
    return None


def key(f, i, ph):
    d = f.defs.get(widen(f, i.ops[1]))
    n = f.defs.get(widen(f, i.ops[2]))
    if d is None or n is None or d.op != "load" or n.op != "load":
        return "the key stored is not the key of the pair"
    p, q = path(f, d.ops[0]), path(f, n.ops[0])
    kn = f.defs.get(p.base)
    if p.base != q.base or kn is None or kn.op != "call" or kn.x["callee"] != "yaml_document_get_node" or \
            SCALAR.get(p.off) != "value" or SCALAR.get(q.off) != "length":
        return "the key stored is not the whole key of the pair"
    c, field = cursor(f, kn.ops[1])
    if c is not ph or field != "key":
        return "the key stored is not the key of the pair"
    # the node is a scalar here
    for pr, a, b in [x[:3] for x in an.dom_facts(i)]:
        x = f.defs.get(a) if isinstance(a, str) else None
        if x is not None and x.op == "load" and pr == "eq" and path(f, x.ops[0]).base == p.base and \
                (an.place(f, x.ops[0]) or ("", ""))[:2] == ("yaml_node_s", "type") and const_int(b) == 1:
            return None
    return "a key is read as a scalar without testing that it is one"


# -- iterators -----------------------------------------------------------------------------------
IT = "handlebars_value_iterator"
COUNT = {"handlebars_stack_count", "handlebars_map_count", "json_object_array_length", "handlebars_value_count", "handlebars_map_sparse_array_count"}
ELEM = {"handlebars_stack_get": 1, "handlebars_map_get_kv_at_index": 1, "json_object_array_get_idx": 1}


def iterator(P, f, init, J, rep):
    it = f.params[0][1]

    def field(i, a):
        pl = an.place(f, a)
        p = path(f, a)
        return pl[1] if pl and pl[0] == IT and pl[2] == it else "value" if False else None

    # state: (offset of index from its entry value (or ("abs", n)), loads seen, cur assigned, key assigned, next stored, facts)
    def tr(i, t, env):
        idx, loads, cur, key, nxt, facts, ent = t
        if i.op == "load":
            n = field(i, i.ops[0])
            if n == "index":
                loads = loads | {(i.res, idx)}
            if n == "usr":
                ent = ent | {(i.res, "usr")}
        elif i.op == "store":
            n = field(i, i.ops[1])
            if n == "index":
                idx = position(f, i.ops[0], loads)
            elif n == "next":
                nxt = i.ops[0]
            elif n == "key":
                key = key + (("store", i.ops[0]),)
            elif n == "usr":
                ent = ent | {(i.ops[0], "now")}
        elif i.op == "call":
            c = i.x["callee"]
            if c.startswith("llvm.memset") or c == "memset":
                if path(f, i.ops[0]).base == it:
                    idx = ("abs", 0)
            if c in ELEM:
                cur = cur + (("elem", i, position(f, i.ops[1], loads)),)
                if c.endswith("kv_at_index") and field(i, i.ops[2]) == "key":
                    key = key + (("elem", i.ops[2]),)
            if c in ("handlebars_value_value", "handlebars_value_init_json_object"):
                k = 0 if c == "handlebars_value_value" else 1
                if is_cur(f, i.ops[k], it):
                    cur = cur + (("set", i, i.ops[k + 1]),)
            if P.uname(f.mod, c) == "handlebars_value_dtor" and is_cur(f, i.ops[0], it):
                cur = cur + (("clear", i, None),)
        return (idx, loads, cur, key, nxt, facts, ent)

    def edge(b, s, t, env):
        fs = t[5]
        if b.term.op == "br" and len(b.term.x) == 2 and b.term.x[0] != b.term.x[1]:
            for pr, x, y in [z[:3] for z in an.edge_facts(b, s)]:
                if isinstance(x, str) and isinstance(y, str):
                    a = bound(f, pr, x, y, t[1])
                    if a:
                        fs = fs | {a}
                e = f.defs.get(x) if isinstance(x, str) else None
                if e is not None and e.op == "load" and (y == "null" or const_int(y) == 0) and (an.place(f, e.ops[0]) or ("", ""))[:2] in \
                        (("lh_entry", "next"), ("lh_table", "head")):
                    own = an.place(f, e.ops[0])[2]
                    if pr != "eq":
                        fs = fs | {("ptr", "more")}
                    elif init or any(an.strip(f, x) == own for x, _ in t[6]):
                        fs = fs | {("ptr", "end")}
                elif e is not None and e.op == "load" and (y == "null" or const_int(y) == 0) and pr == "eq" and field(e, e.ops[0]) == "usr":
                    fs = fs | {("ptr", "end")}
        return t[:5] + (fs,) + t[6:]
    start = (("abs", 0) if init else ("rel", 0), frozenset(), (), (), None, frozenset(), frozenset())
    kp = returned(f)
    F = Flow(f, start, tr, edge, cap=400, extra=kp, keep=kp).run()
    if F.widened:
        raise an.AnalysisError("C34: too many paths in " + f.name)
    for r, t, env in F.exits:
        idx, loads, cur, key, nxt, facts, ent = t
        for v in reaching(F, r, env):
            c = F.val(v, env)
            if not isinstance(c, int):
                d = f.defs.get(v)
                if d is not None and d.op == "call":
                    rep.ok("iterate", f.name)
                    continue
                raise an.AnalysisError("C34: result of %s not understood" % f.name)
            msg = more(P, f, init, t) if c else done(P, f, init, t)
            rep.check(msg is None, "iterate", "%s|%s" % (f.name, "more" if c else "end"), r.where(), "%s: %s" % (f.name, msg))


def is_cur(f, v, it):
    d = f.defs.get(v)
    if d is not None and d.op == "load":
        pl = an.place(f, d.ops[0])
        return bool(pl and pl[0] == IT and pl[1] == "cur")
    return isinstance(v, str) and path(f, v).base == it and bool(path(f, v).off or path(f, v).sym)


def position(f, v, loads):
    a = lin(f, v)
    m = dict(loads)
    off = a[1]
    if not a[0]:
        return ("abs", off)
    if len(a[0]) == 1:
        (x, k), = a[0].items()
        for l, p in m.items():
            if k == 1 and (x == l or lin(f, l)[0] == a[0]):
                return (p[0], p[1] + off)
    return ("?", 0)


def bound(f, pr, x, y, loads):
    """('bound', position, strict upper bound relation): position < count, or position >= count"""
    for p, a, b in ((pr, x, y), (loads and loops.SWAP.get(pr, pr) or loops.SWAP.get(pr, pr), y, x)):
        src = loops.source(f, b)
        if not (src and src[0] == "call" and src[1] in COUNT):
            continue
        pos = position(f, a, loads)
        if pos[0] == "?":
            continue
        k = pos[1] - src[2]          # pos < count + off  <=>  pos - off < count
        if p in ("ult", "slt"):
            return ("lt", pos[0], k)
        if p in ("ule", "sle"):
            return ("lt", pos[0], k - 1)
        if p in ("uge", "sge"):
            return ("ge", pos[0], k)
        if p in ("ugt", "sgt"):
            return ("ge", pos[0], k + 1)
        if p == "eq" and pos[0] == "abs":
            return ("ge", "abs", k)
        if p == "ne" and pos[0] == "abs":
            return ("lt", "abs", k)
    return None


def more(P, f, init, t):
    idx, loads, cur, key, nxt, facts, ent = t
    sets = [c for c in cur if c[0] in ("set", "clear")]
    if not sets or sets[-1][0] != "set":
        return "an element is reported without storing it"
    src = f.defs.get(sets[-1][2])
    if init:
        if nxt is None:
            return "iteration starts without a way to continue"
        if nxt.startswith("@") and "void" in nxt:
            return "iteration stops after the first element"
    want = ("abs", 0) if init else ("rel", 1)
    # array-like
    el = [c for c in cur if c[0] == "elem"]
    if el:
        if el[-1][2] != want:
            return "the element stored is not the next one"
        if idx != want:
            return "the position does not advance by one"
        b = [x for x in facts if x[0] == "lt"]
        if ("lt",) + want not in b:
            return "an element is reported without the position being inside the container"
        i = el[-1][1]
        if i.x["callee"].endswith("kv_at_index"):
            if not key or key[-1] != ("elem", i.ops[2]):
                return "the key of the element is not stored"
            if src is None or src.op != "load" or src.ops[0] != i.ops[3]:
                return "the value stored is not that of the element"
        elif sets[-1][2] != i.res:
            return "the value stored is not the element"
        return None
    # linked entries
    e = entry_of(f, sets[-1][2], "v")
    if e is None:
        if f.mod.unit == "handlebars_partial_loader.c":
            return None
        return "the value stored is not an element"
    d = f.defs.get(e)
    pl = an.place(f, d.ops[0]) if d is not None and d.op == "load" else None
    if not pl or pl[:2] != (("lh_table", "head") if init else ("lh_entry", "next")):
        return "the element stored is not the next one"
    if not init and not any(x == pl[2] or an.strip(f, x) == pl[2] for x, _ in ent):
        return "the element stored does not follow the previous one"
    if (e, "now") not in ent:
        return "the position does not advance"
    if ("ptr", "more") not in facts:
        return "an element is reported without testing that there is one"
    ks = [k for k in key if k[0] == "store"]
    kd = f.defs.get(ks[-1][1]) if ks else None
    if kd is None or kd.op != "call" or not kd.x["callee"].startswith("handlebars_string_ctor") or entry_of(f, kd.ops[1], "k") != e or \
            not whole(f, kd.ops[2], kd.ops[1]):
        return "the key of the element is not stored"
    return None


def done(P, f, init, t):
    idx, loads, cur, key, nxt, facts, ent = t
    if init:
        if nxt is None:
            return "an empty iteration cannot be continued safely"
        return None if not [c for c in cur if c[0] == "set"] else "an element is stored but not reported"
    if [c for c in cur if c[0] == "set"]:
        return "an element is stored but not reported"
    b = [x for x in facts if x[0] in ("ge", "ptr")]
    if f.name.endswith("_void") or not any(i.op == "call" and (i.x["callee"] in ELEM or "init_json" in i.x["callee"]) for i in f.insts()):
        return None
    if ("ge", "rel", 1) not in b and ("ptr", "end") not in b:
        return "the end is reported although elements may remain"
    return None
