"""C02: absent data never leads to a null dereference."""
from .. import an, linear
from ..an import cname, path
from ..nullness import KIND_ACCESSORS, argv_params, Nullness
from .c01 import root_name, sinkname, valname

RULE = ("Interprocedural null-flow over the inlined view of every library function: results of lookups that can be absent "
        "(map/array/value/JSON lookups, data-dependent stack reads, helper and partial lookups, payload accessors of values "
        "whose kind was not tested, and every function that can hand such a null on) must be tested on every path before "
        "being dereferenced, passed to a parameter that is dereferenced, or returned from a helper; container reads by "
        "index are discharged by linear reasoning over the dominating comparisons; helper arguments argv[k] must be "
        "dominated by a test establishing argc > k.")
ASSUME = ["the operand stacks of a compiled program are balanced (checked separately by the opcode rules)",
          "AST accessors are called on nodes of the kind their caller dispatched on",
          "json-c and libyaml return nodes of the kind their type query reports",
          "a null parse or lex result comes with a recorded error"]
TRUST_ROOT = {"null:" + n for n in KIND_ACCESSORS} | {"null:handlebars_parse_ex", "null:handlebars_lex", "alloc"}
TRUST_CALL = {"yaml_document_get_node", "json_object_get_object", "json_object_get_string"}
# reviewed: depth captured when the closure was pushed on the same stack, which is at least as deep while it runs
TRUST_SITE = {("invoke_partial_block_closure", "handlebars_stack_get")}
UNITS_SKIP = {"bin/handlebarsc.c", "handlebars.lex.c", "handlebars.tab.c", "handlebars_memory.c"}


def run(ctx, rep):
    P = ctx.inl
    N = Nullness(P, ctx.contracts)
    nfun = 0
    helpers = 0
    for f in P.functions.values():
        if f.mod.unit in UNITS_SKIP:
            continue
        nfun += 1
        bad = {}
        ap = argv_params(f)
        for i, v, r, how in N.check(f, None):
            if v == "null" or "declared nonnull" in how:
                continue
            if "declared to return non-null" in how and not ap:
                continue
            r = {k: x for k, x in r.items() if k not in TRUST_ROOT and not (k == "find" and trusted(x))}
            if not r:
                continue
            rn = root_name(f, v)
            if any(i.origin() == a and b in rn for a, b in TRUST_SITE):
                continue
            bad.setdefault((i.origin(), rn), (i, v, r, how))
        for (o, rn), (i, v, r, how) in bad.items():
            rep.bad("absent", "%s:%s:%s" % (o, rn, sinkname(i)), i.where(),
                    "in %s(), %s may be absent (%s) and is %s" % (o, valname(f, v), "; ".join(sorted(r.values())), how))
        for i in f.calls():
            if i.ty == "ptr":
                q = N.call_nullness(i)
                if q and set(q) - TRUST_ROOT:
                    rep.ok("lookup-site", "%s %s" % (i.where(), cname(i)))
                elif q is None and cname(i) in ("handlebars_stack_top", "handlebars_stack_get", "handlebars_stack_pop"):
                    rep.ok("stack-read-bounded", "%s %s" % (i.where(), cname(i)))
        if ap and len(f.params) == 5:      # closures have an internal calling convention
            helpers += 1
            check_args(N, rep, f, *ap)
    rep.info["functions"] = nfun
    rep.info["helper_functions"] = helpers
    rep.floor("lookup-site", 30)
    rep.floor("helper-arg", 5)


def trusted(reason):
    return any(("result of " + t) in reason for t in TRUST_CALL)


def check_args(N, rep, f, argc, argv):
    vs = an.sizealign(f.mod, "%struct.handlebars_value")[0]
    for i in f.insts():
        uses = []
        if i.op == "load":
            uses.append(path(f, i.ops[0]))
        elif i.op == "store":
            uses.append(path(f, i.ops[1]))
        elif i.op == "call":
            if argc in i.ops and argv in i.ops:
                continue
            for k, a in enumerate(i.ops):
                if k < len(i.x["tys"]) and i.x["tys"][k] == "ptr" and path(f, a).base == argv and N.arg_deref(i, k):
                    uses.append(path(f, a))
        for p in uses:
            if p.base != argv:
                continue
            need = ({argc: 1}, -1 - p.off // vs)
            for s, sz in p.sym:
                if sz != vs:
                    continue
                need = linear.comb(need, linear.lin(f, s), -1)
            fs = an.dom_facts(i)
            key = "%s:argv[%d%s]" % (i.origin(), p.off // vs, "+i" if p.sym else "")
            rep.check(linear.prove(f, need, fs), "helper-arg", key, i.where(),
                      "%s() reads its argument %d without establishing that it was passed" % (i.origin(), p.off // vs + 1))
