"""C21: text is never a format, and formats get the arguments they call for."""
import re
from .. import an
from ..an import const_int, path

RULE = ("Functions that hand a parameter on as a format are found (fixpoint over the call graph); every call giving one a format must give a "
        "constant string, whose conversions, parsed from the constant, agree in number, order and machine type with the arguments passed. "
        "Formatted output goes to a buffer with its true size, measured first with the same format and arguments where computed; an argument "
        "list is walked once only.")
ASSUME = ["the C library's formatting functions"]

BASE = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "syslog": 1, "talloc_asprintf": 1, "talloc_asprintf_append": 1,
        "talloc_asprintf_append_buffer": 1, "asprintf": 1, "__isoc23_sscanf": 1, "sscanf": 1, "__isoc99_sscanf": 1, "fscanf": 1}
VBASE = {"vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2, "talloc_vasprintf": 1, "talloc_vasprintf_append": 1,
         "talloc_vasprintf_append_buffer": 1, "vasprintf": 1}
CONV = re.compile(rb"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|z|t|j|L|q)?([a-zA-Z%])")
SCAN = re.compile(rb"%(\*)?(\d+)?(hh|h|ll|l|z|t|j|L|q)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])")


def run(ctx, rep):
    P = ctx.raw
    lib = [f for f in P.functions.values() if not f.avail]
    fm = dict(BASE)
    for h in ("talloc_asprintf", "talloc_asprintf_append", "talloc_asprintf_append_buffer"):
        fm[an.hook_name("*_handlebars_" + h)] = 1
    vf = dict(VBASE)
    ch = True
    while ch:
        ch = False
        for f in lib:
            for i in f.insts():
                if i.op != "call":
                    continue
                for t in P.targets(i):
                    k = vf.get(t, fm.get(t))
                    if k is None or k >= len(i.ops):
                        continue
                    for n, p in enumerate(f.params):
                        if i.ops[k] == p[1]:
                            tab = fm if f.varargs else vf
                            if f.uname not in tab and (f.varargs or t in vf):
                                tab[f.uname] = n
                                ch = True
    if not {"handlebars_throw", "handlebars_throw_ex", "handlebars_string_asprintf_append"} <= set(fm):
        raise an.AnalysisError("C21: formatting functions not recognised")
    for f in lib:
        for i in f.insts():
            if i.op != "call":
                continue
            for t in sorted(P.targets(i)):
                if t in fm or t in vf:
                    one(P, f, i, t, fm, vf, rep)
    for f in lib:
        lists(f, vf, P, rep)
    rep.floor("format", 60, "formats")


def one(P, f, i, t, fm, vf, rep):
    va = t in vf
    k = vf[t] if va else fm[t]
    if k >= len(i.ops):
        return
    v = i.ops[k]
    if v in [p[1] for p in f.params] and (f.uname in vf or f.uname in fm):
        if not va and f.uname not in fm:
            rep.bad("format", "%s|%s" % (f.name, t), i.where(), "%s passes its format on with other arguments" % f.name)
        else:
            rep.ok("format", i.where())
        buffer(f, i, t, None, rep)
        return
    cs = [f.mod.cstr(o) if isinstance(o, str) and o.startswith("@") else None for o in an.leaves(f, v)]
    if not rep.check(all(c is not None for c in cs), "format", "%s|%s" % (f.name, t), i.where(), "%s formats with text that is not a fixed string" % f.name):
        return
    for c in cs:
        if va:
            continue
        want = parse_scan(c) if "scanf" in t else parse(c)
        got = i.x["tys"][k + 1:]
        ok = want is not None and len(want) == len(got) and all(w in (g, "any") for w, g in zip(want, got))
        rep.check(ok, "args", "%s|%s" % (f.name, t), i.where(), "%s formats %s with arguments of types %s" % (
            f.name, c.decode(errors="replace"), ", ".join(got)))
        buffer(f, i, t, c, rep)
        if ok and want and "scanf" not in t:
            strings(P, f, i, k, c, rep)
        if ok and "scanf" in t:
            widths(P, f, i, k, c, rep)


def parse(c):
    out = []
    pos = 0
    while True:
        j = c.find(b"%", pos)
        if j < 0:
            return out
        m = CONV.match(c, j)
        if not m:
            return None
        pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == b"%":
            continue
        if w == b"*":
            out.append("i32")
        if pr == b"*":
            out.append("i32")
        if cv in b"diuxXoc":
            out.append("i64" if ln in (b"l", b"ll", b"z", b"t", b"j", b"q") else "i32")
        elif cv in b"eEfFgGaA":
            out.append("x86_fp80" if ln == b"L" else "double")
        elif cv in b"sp":
            out.append("ptr")
        else:
            return None               # %n has no place here


def parse_scan(c):
    out = []
    pos = 0
    while True:
        j = c.find(b"%", pos)
        if j < 0:
            return out
        m = SCAN.match(c, j)
        if not m:
            return None
        pos = m.end()
        if m[4] == b"%" or m[1]:
            continue
        out.append("ptr")


def widths(P, f, i, k, c, rep):
    """what is scanned fits where it goes"""
    size = {b"": 4, b"h": 2, b"hh": 1, b"l": 8, b"ll": 8, b"z": 8, b"t": 8, b"j": 8, b"q": 8}
    n = k + 1
    for m in SCAN.finditer(c):
        if m[4] == b"%" or m[1]:
            continue
        p = path(f, i.ops[n])
        n += 1
        d = f.defs.get(p.base)
        if d is None or d.op != "alloca":
            continue
        have = an.sizealign(f.mod, d.ty if d.ty else d.x)[0] if isinstance(d.ty, str) and d.ty != "ptr" else allocsize(f, d)
        use = [x for x in f.insts() if x.op == "load" and path(f, x.ops[0]).base == p.base]
        init = [x for x in f.insts() if x.op == "store" and path(f, x.ops[1]).base == p.base and an.inst_dominates(x, i)]
        done = all(not an.inst_dominates(i, x) and not reaches(i, x) or any(
            fc[0] in ("eq", "sgt", "sge", "ugt") and an.strip(f, fc[1]) == i.res and (const_int(fc[2]) or 0) + (fc[0] in ("sgt", "ugt")) >= n - k - 1
            for fc in an.dom_facts(x)) for x in use)
        # a number literal always scans: the lexer only makes number nodes of digits
        done = done or any(fc[0] == "eq" and const_int(fc[2]) == P.enum("HANDLEBARS_AST_NODE_NUMBER") and f.defs.get(an.strip(f, fc[1])) is not None and
                           f.defs[an.strip(f, fc[1])].op == "load" and
                           (an.place(f, f.defs[an.strip(f, fc[1])].ops[0]) or ("", ""))[:2] == ("handlebars_ast_node", "type") for fc in an.dom_facts(i))
        rep.check(bool(init) or done, "scan", f.name + "|set", i.where(), "%s uses a number that may not have been scanned" % f.name)
        if m[4][:1] in b"diuxo":
            want = size[m[3] or b""]
            rep.check(have == want, "scan", f.name, i.where(), "%s scans a number of %d bytes into %s" % (f.name, want, have))
        elif m[4][:1] in b"s[":
            rep.check(m[2] is not None and int(m[2]) < (have or 0), "scan", f.name, i.where(), "%s scans text without a bound" % f.name)


def reaches(i, x):
    return x.block is i.block and x.idx > i.idx or any(x.block in an.reach_blocks(i.fn, s) for s in i.block.succs)


def allocsize(f, d):
    t = d.x if isinstance(d.x, str) else (d.x or {}).get("ty") if isinstance(d.x, dict) else None
    n = const_int(d.ops[0]) if d.ops else 1
    try:
        return an.sizealign(f.mod, t)[0] * (1 if n is None else n)
    except Exception:
        return None


def buffer(f, i, t, c, rep):
    """snprintf: the size is the buffer's; sprintf: the longest output fits"""
    base = t
    if base not in ("snprintf", "vsnprintf", "sprintf", "vsprintf"):
        return
    dst = i.ops[0]
    if const_int(dst) == 0 or dst == "null":
        rep.check(base in ("snprintf", "vsnprintf") and const_int(i.ops[1]) == 0, "buffer", f.name, i.where(), "%s formats into nothing" % f.name)
        return
    p = path(f, dst)
    d = f.defs.get(p.base)
    if base == "vsprintf":
        rep.bad("buffer", f.name, i.where(), "%s formats without a bound" % f.name)
        return
    if base == "sprintf":
        ln = longest(f, i, c)
        rep.check(ln is not None and (d is not None and d.op == "alloca" and not p.sym and ln + p.off <= (allocsize(f, d) or 0) or ln <= 4),
                  "buffer", f.name, i.where(), "%s formats without a bound" % f.name)
        return
    n = const_int(i.ops[1])
    if d is not None and d.op == "alloca" and not p.sym:
        have = allocsize(f, d)
        rep.check(have is not None and n is not None and n + p.off <= have, "buffer", f.name, i.where(),
                  "%s allows %s bytes of output in a buffer of %s" % (f.name, n, have))
        result(f, i, c, n, rep)
        return
    if base == "vsnprintf" and c is None:
        # measured first: size is (measured length + 1), the buffer was extended by it
        ok = any(x.op == "call" and x is not i and x.x["callee"].lstrip("@") == "vsnprintf" and const_int(x.ops[1]) == 0 and x.ops[2] == i.ops[2]
                 and an.inst_dominates(x, i) and plus1(f, i.ops[1], x.res) and extended(f, i, x) for x in f.insts())
        rep.check(ok, "buffer", f.name, i.where(), "%s formats into a buffer not measured for it" % f.name)
        return
    rep.ok("buffer", i.where())


def result(f, i, c, n, rep):
    """the length a bounded formatting call returns is that of the whole output, not of what fitted"""
    al, todo, use = {i.res}, [i.res], []
    while todo:
        v = todo.pop()
        for x in f.insts():
            if v in [o[0] if isinstance(o, tuple) else o for o in x.ops]:
                if x.op in ("sext", "zext", "trunc") and x.res not in al:
                    al.add(x.res)
                    todo.append(x.res)
                elif x.op != "icmp" and x.op != "sext" and x.op != "zext" and x.op != "trunc":
                    use.append(x)
    if not use or not i.res:
        return
    ln = longest(f, i, c) if c is not None else None
    for x in use:
        ok = ln is not None and n is not None and ln <= n or n is not None and any(
            an.strip(f, fc[1]) in al and const_int(fc[2]) is not None and
            (fc[0] in ("slt", "ult") and const_int(fc[2]) <= n or fc[0] in ("sle", "ule") and const_int(fc[2]) < n)
            for fc in an.dom_facts(x))
        rep.check(ok, "buffer", f.name + "|result", x.where(), "%s uses the length of formatted text that may not have fitted" % f.name)


def plus1(f, v, r):
    d = f.defs.get(an.strip(f, v))
    if d is None or d.op != "add":
        return an.strip(f, v) == r
    cs = [const_int(o) for o in d.ops]
    os = [an.strip(f, o) for o in d.ops if const_int(o) is None]
    return 1 in cs and os == [r]


def extended(f, i, x):
    """a call between the two is told the measured length"""
    for y in f.insts():
        if y.op == "call" and an.inst_dominates(x, y) and an.inst_dominates(y, i):
            for o in y.ops:
                d = f.defs.get(an.strip(f, o)) if isinstance(o, str) else None
                if d is not None and d.op == "add" and any(an.strip(f, q) == x.res for q in d.ops):
                    return True
    return False


def longest(f, i, c):
    """longest output of a format with only numbers of known width"""
    n = 0
    k = 2
    pos = 0
    for m in CONV.finditer(c):
        n += m.start() - pos
        pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == b"%":
            n += 1
            continue
        if w == b"*" or pr == b"*" or cv not in b"diuxXoc":
            return None
        bits = width(f, i.ops[k])
        if ln in (b"l", b"ll", b"z", b"j", b"t", b"q") and f.defs.get(i.ops[k]) is None or bits[0] < 64 and ln in (b"l", b"ll", b"z", b"j", b"t", b"q") \
                and f.defs[i.ops[k]].op != "zext":
            bits = (64, bits[1])
        k += 1
        digits = {b"o": -(-bits[0] // 3), b"x": -(-bits[0] // 4), b"X": -(-bits[0] // 4), b"c": 1}.get(cv, len(str(1 << bits[0])) + (0 if bits[1] else 1))
        n += max(digits, int(w or 0), int(pr or 0))
    return n + len(c) - pos + 1


def width(f, v):
    """(bits, unsigned) of an integer argument"""
    d = f.defs.get(v)
    if d is not None and d.op == "zext":
        src = f.defs.get(d.ops[0])
        t = d.x if isinstance(d.x, str) else None
        m = re.match(r"i(\d+)", t or (src.ty if src is not None and isinstance(src.ty, str) else "i32"))
        return (int(m[1]), True)
    return (32, False)


def strings(P, f, i, k, c, rep):
    """%s is given text that ends: not the bytes of a slice, nor a null constant"""
    n = k + 1
    for m in CONV.finditer(c):
        fl, w, pr, ln, cv = m.groups()
        if cv == b"%":
            continue
        n += (w == b"*") + (pr == b"*")
        v = i.ops[n]
        n += 1
        if cv == b"s" and const_int(v) == 0:
            rep.bad("args", "%s|null" % f.name, i.where(), "%s formats a null string" % f.name)
        if pr == b"*" and cv == b"s":
            # the length given must be the length of the text given
            a = length_of(f, i.ops[n - 2])
            b = text_of(f, v)
            if a and b:
                rep.check(a == b, "length", f.name, i.where(), "%s prints one text with the length of another" % f.name)


def length_of(f, v):
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    if d is not None and d.op == "call" and d.x["callee"].lstrip("@") in ("hbs_str_len",):
        return source(f, d.ops[0])
    return None


def text_of(f, v):
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    if d is not None and d.op == "call" and d.x["callee"].lstrip("@") in ("hbs_str_val",):
        return source(f, d.ops[0])
    return None


def source(f, v):
    d = f.defs.get(an.strip(f, v)) if isinstance(v, str) else None
    if d is not None and d.op == "load":
        return ("load",) + path(f, d.ops[0]).key()
    return ("val", an.strip(f, v))


def lists(f, vf, P, rep):
    """no argument list is walked twice: each use of a list by a consumer follows its own start or copy"""
    uses = {}
    for i in f.insts():
        if i.op != "call":
            continue
        c = i.x["callee"].lstrip("@")
        if c.startswith("llvm.va_start"):
            uses.setdefault(path(f, i.ops[0]).base, []).append((i, "start"))
        elif c.startswith("llvm.va_copy"):
            uses.setdefault(path(f, i.ops[0]).base, []).append((i, "start"))
        elif any(t in vf for t in P.targets(i)):
            uses.setdefault(path(f, i.ops[-1]).base, []).append((i, "use"))
    for base, us in uses.items():
        par = base in [p[1] for p in f.params]
        cons = [i for i, k in us if k == "use"]
        for a in cons:
            seen = set()
            work = [(a.block, a.idx + 1)]
            hit = None
            while work and hit is None:
                b, k = work.pop()
                stop = False
                for x in b.insts[k:]:
                    if any(x is s for s, kk in us if kk == "start"):
                        stop = True
                        break
                    if any(x is c2 for c2 in cons):
                        hit = x
                        break
                if stop or hit:
                    continue
                for s in b.succs:
                    if s not in seen:
                        seen.add(s)
                        work.append((s, 0))
            rep.check(hit is None, "list", f.name, a.where(), "%s uses an argument list a second time" % f.name)
        if not par and cons:
            ok = all(any(k == "start" and an.inst_dominates(s, a) for s, k in us) for a in cons)
            rep.check(ok, "list", f.name + "|start", cons[0].where(), "%s uses an argument list it did not start" % f.name)
