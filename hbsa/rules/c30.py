"""C30: files are read whole, and the command line tool reports every failure."""
from .. import an, linear
from ..an import const_int, path, strip
from ..flow import Flow

RULE = ("Typestate of every file over every function that opens or reads one, and of the command line tool from its start to its exit: a file "
        "that cannot be opened, measured or read in full leads to an error on every path; an opened file is closed once on every way out and "
        "not used after; a size is used only after it was found valid and small enough for what it is used in; text made from a file has "
        "the length that was read. The tool returns or exits with zero only on paths on which no error was caught, no option refused, and the "
        "output was flushed and found free of errors; otherwise it has printed a message. Mode and flag options select what they name.")
ASSUME = ["the C library's file functions report failures as documented", "closing a file opened for reading does not fail in a way that matters"]
CHAR = {"lex": "handlebars_lex_ex", "parse": "handlebars_ast_print", "compile": "handlebars_program_print",
        "module": "handlebars_module_print", "execute": "handlebars_vm_execute"}
OUT = {"fwrite": 3, "fprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "puts": None, "putchar": None, "printf": None, "vfprintf": 0}
SCAN = {"__isoc23_sscanf", "sscanf", "__isoc99_sscanf"}
THROW = {"handlebars_throw", "handlebars_throw_ex", "handlebars_rethrow"}
FILEFN = {"fread": 3, "fseek": 0, "fseeko": 0, "ftell": 0, "ftello": 0, "ferror": 0, "feof": 0, "fclose": 0, "rewind": 0, "fgets": 2, "fgetc": 0,
          "getc": 0}


def run(ctx, rep):
    P = ctx.inl
    tool = [f for f in P.functions.values() if f.name == "main" and f.mod.unit.startswith("bin")]
    if not tool:
        raise an.AnalysisError("C30: no command line tool")
    main = tool[0]
    fs = [f for f in P.functions.values() if not f.avail and f.mod.unit != main.mod.unit and
          any(i.op == "call" and i.x["callee"] in ("fopen", "fopen64", "fdopen", "fread", "fgets") for i in f.insts())]
    for f in fs:
        File(P, f, rep, None).go()
    Tool(P, main, rep).go()
    rep.floor("opened", 2, "files opened")
    rep.floor("size", 1, "uses of file sizes")
    rep.floor("read", 2, "reads")
    rep.floor("status", 6, "exits of the tool")
    rep.floor("mode", 5, "modes")
    rep.floor("flag", 8, "compiler flags by name")


def stream(f, v):
    """'stdout', 'stderr', 'stdin', or the handles v may be"""
    out = set()
    for l in an.leaves(f, v):
        d = f.defs.get(strip(f, l))
        if d is not None and d.op == "load":
            b = path(f, d.ops[0]).base
            if b in ("@stdout", "@stderr", "@stdin"):
                out.add(b[1:])
                continue
        out.add(strip(f, l))
    return out


class File:
    """t: (open handles, handles whose reads may have failed unnoticed, dirty output bits, failed, said)"""

    def __init__(self, P, f, rep, summ):
        self.P, self.f, self.rep, self.summ = P, f, rep, summ
        self.bad, self.seen = {}, set()
        self.exits = set()

    def note(self, i, m):
        self.bad.setdefault((i.where(), m), i)

    def hs(self, i, k):
        return stream(self.f, i.ops[k]) if k is not None and k < len(i.ops) else {"stdout"}

    def tr(self, i, t, env):
        f = self.f
        op, unc, dirty, failed, said = t
        if i.op == "icmp":
            for k in unc:
                if isinstance(k, tuple) and i in self.full(k[1]):
                    return ("@env", t, {i.res: int((i.x in ("eq", "uge")) == (k[0] == "full"))})
            return t
        if i.op != "call":
            return t
        c = i.x["callee"]
        up = lambda facts, **k: ("@env", tuple(k.get(n, v) for n, v in zip(("op", "unc", "dirty", "failed", "said"), t)), facts)
        if c in ("fopen", "fopen64", "fdopen"):
            self.seen.add(("opened", i.where()))
            return [up({i.res: 0}, failed=True), up({i.res: "nn"}, op=op | {i.res})]
        if c in FILEFN:
            h = self.hs(i, FILEFN[c])
            mine = h & op
            std = h & {"stdin"}
            if not mine and not std:
                self.note(i, "uses a file that is not open")
                return t
            if c == "fclose":
                for x in mine & unc:
                    self.note(i, "closes a file without having looked whether reading it failed")
                return up({}, op=op - mine)
            if c in ("fseek", "fseeko"):
                return [up({i.res: 0}), up({i.res: -1}, failed=True)]
            if c in ("ftell", "ftello"):
                return t
            if c == "fread":
                self.seen.add(("read", i.where()))
                n = const_int(i.ops[2])
                if n == 1:
                    return [up({i.res: 1}), up({i.res: 0}, failed=True)]
                if self.full(i):
                    return [up({}, unc=unc | {("full", i)}), up({}, unc=unc | {("short", i)}, failed=True)]
                return up({}, unc=unc | mine | std)
            if c in ("fgets", "fgetc", "getc"):
                self.seen.add(("read", i.where()))
                return up({}, unc=unc | mine | std)
            if c == "ferror":
                return [up({i.res: 0}, unc=unc - mine - std), up({i.res: 1}, unc=unc - mine - std, failed=True)]
            return t
        if c in THROW:
            for x in op:
                self.note(i, "raises an error with a file still open")
            return None
        if c in ("_setjmp", "setjmp", "__sigsetjmp"):
            return [up({i.res: 0}), up({i.res: 1}, failed=True)]
        return t

    def full(self, r):
        """comparisons of the number of elements read with the number asked for"""
        f = self.f
        if const_int(r.ops[2]) is not None:
            return ()
        n = linear.lin(f, r.ops[2])
        return [j for j in f.insts() if j.op == "icmp" and j.x in ("eq", "ne", "ult", "uge") and
                any(strip(f, j.ops[k]) == r.res and linear.lin(f, j.ops[1 - k]) == n for k in ((0, 1) if j.x in ("eq", "ne") else (0,)))]

    def go(self):
        f = self.f
        fl = Flow(f, (frozenset(), frozenset(), 0, False, False), self.tr, extra=self.keeps()).run()
        for i, t, env in fl.exits:
            op, unc, dirty, failed, said = t
            v = i.ops[0] if i.ops else None
            x = fl.val(v, env) if v is not None else None
            self.at_exit(i, t, x)
        self.sizes()
        self.lengths()
        self.report()

    def at_exit(self, i, t, x):
        op, unc, dirty, failed, said = t
        if op:
            self.note(i, "returns with a file still open")
        if any(isinstance(k, str) for k in unc):
            self.note(i, "returns without having looked whether reading failed")
        if failed:
            self.note(i, "returns as if nothing had happened after a file could not be opened or read")

    def keeps(self):
        return [i.ops[0] for b in self.f.order for i in [b.term] if i.op == "ret" and i.ops] + \
            [i.res for i in self.f.insts() if i.op == "call" and i.res and i.x["callee"] in FILEFN]

    def report(self):
        f = self.f
        for k, w in sorted(self.seen):
            if not any(x == w for x, _ in self.bad):
                self.rep.ok(k, w)
        for (w, m) in sorted(self.bad):
            self.rep.bad("status" if "zero" in m or "message" in m else "read" if "read" in m else "opened", "%s:%s" % (f.name, m[:60]), w, "%s: %s" % (f.name, m))

    # -- sizes ------------------------------------------------------------------------------------
    def sizes(self):
        """a size measured is used only where it is known to be valid, and fits what it is used in"""
        f = self.f
        for i in f.insts():
            if i.op == "call" and i.x["callee"] in ("ftell", "ftello"):
                self.size(i)

    def size(self, i):
        f = self.f
        atoms, work = {i.res}, [i.res]
        uses = []
        while work:
            v = work.pop()
            for j in f.insts():
                if j.op == "store" and j.ops[0] == v:
                    p = path(f, j.ops[1])
                    for k in f.insts():
                        if k.op == "load" and path(f, k.ops[0]).key() == p.key() and k.res not in atoms:
                            atoms.add(k.res)
                            work.append(k.res)
                if j.op == "phi":
                    if any(o == v for o, _ in j.ops) and j.res not in atoms:
                        atoms.add(j.res)
                        work.append(j.res)
                elif v in [o for o in j.ops if isinstance(o, str)]:
                    if j.op in ("add", "sub", "mul", "shl", "sext", "zext", "trunc"):
                        uses.append((j, v))
                        if j.res not in atoms:
                            atoms.add(j.res)
                            work.append(j.res)
                    elif j.op in ("getelementptr", "call"):
                        uses.append((j, v))
        for j, v in uses:
            if j.op in ("sext", "zext"):
                continue
            fs = an.dom_facts(j)
            e = linear.lin(f, v)
            low = linear.prove(f, e, fs)
            high = True
            if j.op == "trunc":
                n = int(j.ty[1:])
                high = linear.prove(f, linear.comb(({}, (1 << n) - 1), e, -1), fs)
            elif j.op in ("add", "mul", "shl"):
                high = linear.prove(f, linear.comb(({}, 1 << 62), e, -1), fs)
            self.rep.check(low and high, "size", "%s:size" % f.name, j.where(),
                           "%s: the size of a file is used %s" % (f.name, "where it may be negative (not everything that can be opened has a size)" if not low
                                                                  else "where it may be too large for what it is used in"))

    def lengths(self):
        """a text made from what was read has the length that was read"""
        f = self.f
        for i in f.insts():
            if i.op != "call" or i.x["callee"] != "handlebars_string_ctor":
                continue
            b = path(f, i.ops[1])
            for r in f.insts():
                if r.op == "call" and r.x["callee"] == "fread" and path(f, r.ops[0]).base == b.base:
                    n = linear.lin(f, i.ops[2])
                    ok = [linear.lin(f, r.ops[1])] if const_int(r.ops[2]) == 1 else [linear.lin(f, r.ops[2]), linear.lin(f, r.res)]
                    if const_int(r.ops[1]) == 1 or const_int(r.ops[2]) == 1:
                        self.rep.check(n in ok and b.off == 0 and not b.sym, "length", "%s:length" % f.name, i.where(),
                                       "%s: makes a text of another length than was read" % f.name)


class Tool(File):
    """the command line tool: main and the functions of its unit that could not be folded into it"""

    def __init__(self, P, main, rep):
        File.__init__(self, P, main, rep, None)
        self.main = main
        self.memo = {}
        self.opts = options(main.mod)
        self.stat = set()

    def hit(self, i):
        return [g for g in (self.P.functions.get(n) for n in self.P.targets(i)) if g is not None and not g.avail and
                g.mod.unit == self.main.mod.unit]

    def summary(self, g):
        if g not in self.memo:
            self.memo[g] = set()
            s = Sub(self.P, g, self.rep, self)
            fl = Flow(g, (frozenset(), frozenset(), 0, False, False), s.tr, extra=s.keeps()).run()
            for i, t, env in fl.exits:
                op, unc, dirty, failed, said = t
                if op:
                    s.note(i, "returns with a file still open")
                self.memo[g].add((fl.val(i.ops[0], env) if i.ops else None, "stdin" in unc, dirty, failed, said))
            s.sizes()
            s.lengths()
            s.report()
        return self.memo[g]

    def tr(self, i, t, env):
        return self.step(self, i, t, env)

    def step(self, who, i, t, env):
        op, unc, dirty, failed, said = t
        f = who.f
        if i.op != "call":
            return File.tr(who, i, t, env)
        c = i.x["callee"]
        up = lambda facts, **k: ("@env", tuple(k.get(n, v) for n, v in zip(("op", "unc", "dirty", "failed", "said"), t)), facts)
        if c in ("exit", "_exit", "abort"):
            n = const_int(i.ops[0]) if i.ops else 1
            self.leave(who, i, t, n)
            return None
        if c in OUT:
            h = stream(f, i.ops[OUT[c]]) if OUT[c] is not None else {"stdout"}
            if h == {"stderr"}:
                return up({}, said=True)
            if "stdout" in h:
                return up({}, dirty=3, said=said or not failed)
            return t
        if c in ("perror",):
            return up({}, said=True)
        if c in ("fflush", "fclose") and (stream(f, i.ops[0]) == {"stdout"} or i.ops[0] == "null"):
            return [up({i.res: 0}, dirty=dirty & 2), up({i.res: -1}, dirty=3, said=False)]
        if c == "ferror" and stream(f, i.ops[0]) == {"stdout"}:
            return [up({i.res: 0}, dirty=dirty & 1), up({i.res: 1}, failed=True, said=False)]
        if c in SCAN:
            return [up({i.res: 0}, failed=True, said=False), up({i.res: len(i.ops) - 2})]
        if c in ("getopt_long", "getopt"):
            out = [up({i.res: -1}), up({i.res: 63}, failed=True, said=True)]
            return out + [up({i.res: v}) for v in sorted(set(self.opts.values()))]
        for g in self.hit(i):
            out = []
            for v, un, d, fa, sa in self.summary(g):
                facts = {} if v is None or i.res is None else {i.res: v}
                out.append(up(facts, dirty=dirty | d, failed=failed or fa, said=sa or said and not fa,
                              unc=unc | ({"stdin"} if un else frozenset())))
            return out
        r = File.tr(who, i, t, env)
        # a failure is yet to be told
        if isinstance(r, list):
            return [("@env", x[1][:4] + (False,), x[2]) if isinstance(x, tuple) and x[0] == "@env" and x[1][3] and not failed else x for x in r]
        return r

    def leave(self, who, i, t, n):
        op, unc, dirty, failed, said = t
        w = i.where()
        self.seen.add(("status", w))
        if n == 0 or not isinstance(n, int) and n != "nn":
            if failed:
                who.note(i, "the tool ends with status zero after something failed")
            elif any(isinstance(k, str) for k in unc):
                who.note(i, "the tool ends with status zero without having looked whether reading failed")
            elif dirty:
                who.note(i, "the tool ends with status zero without having made sure that its output was written")
        elif not said:
            who.note(i, "the tool fails without a message")

    def at_exit(self, i, t, x):
        self.leave(self, i, t, x)

    def go(self):
        File.go(self)
        self.modes()
        self.flags()
        self.texts()

    # -- options -----------------------------------------------------------------------------------
    def modes(self):
        f = self.main
        gets = [i for i in f.insts() if i.op == "call" and i.x["callee"] in ("getopt_long", "getopt")]
        if not gets:
            raise an.AnalysisError("C30: no option parsing in the tool")
        for name, fn in sorted(CHAR.items()):
            if name not in self.opts:
                self.rep.bad("mode", "mode:" + name, f.name, "the tool has no option --%s" % name)
                continue
            eff = self.effect(gets, self.opts[name])
            reach = set()
            for g, c in eff:
                reach |= self.reached(gets, g, c)
            self.rep.check(reach & set(CHAR.values()) == {fn}, "mode", "mode:" + name, gets[0].where(),
                           "--%s leads to %s" % (name, ", ".join(sorted(reach & set(CHAR.values()))) or "nothing"))

    def effect(self, gets, v):
        """constants stored in variables for this option"""
        out = set()
        g = gets[0]

        def tr(i, t, env):
            if i in gets:
                return ("@env", 1, {i.res: v}) if t == 0 else None
            if t == 1 and i.op == "store" and i.ops[1].startswith("@") and const_int(i.ops[0]) is not None:
                out.add((i.ops[1], const_int(i.ops[0])))
            return t
        Flow(self.main, 0, tr, extra=[x.res for x in gets]).run()
        return out

    def reached(self, gets, g, c):
        """functions of the library called when this variable has this value"""
        out = set()

        def tr(i, t, env):
            if i in gets:
                return ("@env", t, {i.res: -1})
            if i.op == "load" and i.ops[0] == g:
                return ("@env", t, {i.res: c})
            if i.op == "call":
                hs = self.hit(i)
                if hs:
                    for h in hs:
                        for j in h.insts():
                            if j.op == "call":
                                out.add(j.x["callee"])
                else:
                    out.add(i.x["callee"])
                if i.x["callee"] == "exit":
                    return None
            return t
        Flow(self.main, 0, tr, extra=[i.res for i in self.main.insts() if i.op == "load" and i.ops[0] == g]).run()
        return out

    def flags(self):
        M = self.main.mod
        f = self.main
        en = {k[len("handlebars_compiler_flag_"):]: v for N in self.P.mods.values() for d in N.enums.values() for k, v in d.items()
              if k.startswith("handlebars_compiler_flag_")}
        for i in f.insts():
            if i.op == "call" and i.x["callee"] in ("strstr", "strcmp", "strcasecmp", "strcasestr") and i.ops[1].startswith("@"):
                name = text(M, i.ops[1])
                if name not in en:
                    continue
                got = set()
                sense = "ne" if "str" in i.x["callee"][3:] else "eq"
                for j in f.insts():
                    if j.op != "or" or j.ty == "i1":
                        continue
                    for k, o in enumerate(j.ops):
                        n = const_int(o)
                        if n is not None and self.under(j, i, sense):
                            got.add(n)
                        d = f.defs.get(strip(f, o)) if n is None else None
                        if d is not None and d.op == "select":
                            for a, tr in ((1, True), (2, False)):
                                n = const_int(d.ops[a])
                                if n and any(x[0] == sense and strip(f, x[1]) == i.res and const_int(x[2]) in (0, "null") for x in an.facts(f, d.ops[0], tr)):
                                    got.add(n)
                self.rep.check(got == {en[name]}, "flag", "flag:" + name, i.where(), "the flag named %s sets %s" % (name, sorted(got) or "nothing"))

    def under(self, j, i, sense):
        """j is executed because of what i found, and of no later test of the same kind"""
        last = None
        for x in an.dom_facts(j):
            d = self.main.defs.get(strip(self.main, x[1]))
            if d is not None and d.op == "call" and d.x["callee"] == i.x["callee"] and x[0] == sense and const_int(x[2]) in (0, "null"):
                if last is None or an.inst_dominates(last, d):
                    last = d
        return last is i

    def texts(self):
        """the text worked on has the length that was read, whatever bytes it holds"""
        for f in [self.main] + list(self.memo):
            for i in f.insts():
                if i.op != "call" or i.x["callee"] not in ("handlebars_string_ctor", "handlebars_value_init_json_stringl"):
                    continue
                p, n = (i.ops[1], i.ops[2]) if i.x["callee"] == "handlebars_string_ctor" else (i.ops[2], i.ops[3])
                d = f.defs.get(strip(f, n))
                if not self.fromfile(f, p):
                    continue
                self.rep.check(not (d is not None and d.op == "call" and d.x["callee"] in ("strlen", "strnlen")), "length", "%s:strlen" % f.name,
                               i.where(), "%s: what was read is cut off at its first NUL byte" % f.name)

    def fromfile(self, f, v, depth=0):
        for l in an.leaves(f, v):
            d = f.defs.get(strip(f, l))
            if d is None or depth > 6:
                continue
            if d.op == "call":
                if d.x["callee"].startswith(("_talloc", "talloc", "malloc", "realloc", "%")) or self.hit(d):
                    return True
            elif d.op == "load":
                g = path(f, d.ops[0]).base
                if g.startswith("@") and g not in ("@optarg",):
                    for h in self.P.functions.values():
                        if h.mod.unit == self.main.mod.unit:
                            for j in h.insts():
                                if j.op == "store" and path(h, j.ops[1]).base == g and self.fromfile(h, j.ops[0], depth + 1):
                                    return True
        return False


class Sub(File):
    def __init__(self, P, f, rep, tool):
        File.__init__(self, P, f, rep, None)
        self.tool = tool

    def tr(self, i, t, env):
        return self.tool.step(self, i, t, env)


def options(M):
    """name of a long option -> its value"""
    out = {}
    for n, g in M.globals.items():
        if "%struct.option" not in g[1]:
            continue
        for t, v in an.parse_aggregate(g[2]):
            if not v.startswith("{"):
                continue
            x = an.parse_aggregate(v)
            if len(x) == 4 and x[0][1].startswith("@"):
                out[text(M, x[0][1])] = int(x[3][1])
    if not out:
        raise an.AnalysisError("C30: no table of options")
    return out


def text(M, g):
    x = M.globals.get(g[1:])
    if x is None:
        return None
    s = x[2]
    if not s.startswith('c"'):
        return None
    s = s[2:-1]
    return s[:-3] if s.endswith("\\00") else s
