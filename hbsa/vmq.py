"""Opcode dispatch of the virtual machine: opcode number -> handler region."""
import re
from . import an
from .an import AnalysisError, parse_aggregate, place


class Dispatch:
    """entry[n]: handler entry block of opcode n; region[n]: its blocks, up to the next dispatch"""

    def __init__(self, P):
        self.P = P
        self.ops = {v: k.replace("handlebars_opcode_type_", "") for k, v in P.enum_type("handlebars_opcode_type").items() if v >= 0}
        self.num = {k: v for v, k in self.ops.items()}
        self.fn = None
        self.entry = {}
        self.kind = None
        for f in P.functions.values():
            if self._goto(f) or self._switch(f):
                break
        if self.fn is None:
            raise AnalysisError("opcode dispatch not found")
        self.region = {n: self._region(b) for n, b in self.entry.items()}

    def _goto(self, f):
        ib = [b for b in f.order if b.term.op == "indirectbr"]
        if not ib:
            return False
        tab = None
        for i in f.insts():
            if i.op == "load":
                p = an.path(f, i.ops[0])
                if p.base.startswith("@") and p.sym:
                    g = f.mod.globals.get(p.base[1:])
                    if g and "blockaddress(@%s" % f.name in (g[2] or "") and self._is_type(f, p.sym[0][0]):
                        tab = g
        if tab is None:
            return False
        self.fn, self.kind, self.table_len = f, "goto", 0
        for n, (_, v) in enumerate(parse_aggregate(tab[2])):
            self.table_len += 1
            m = re.match(r"blockaddress\(@[\w.]+, %([\w.\"-]+)\)", v)
            if m:
                self.entry[n] = f.blocks[m[1].strip('"')]
        self.stop = set(ib)
        return True

    def _is_type(self, f, v):
        d = f.defs.get(an.strip(f, v))
        if d is None:
            return False
        if d.op == "phi":
            return any(self._is_type(f, x) for x, _ in d.ops)
        if d.op != "load":
            return False
        pl = place(f, d.ops[0])
        return bool(pl and pl[:2] == ("handlebars_opcode", "type"))

    def _switch(self, f):
        best = None
        for b in f.order:
            t = b.term
            if t.op == "switch" and f.mod.unit == "handlebars_vm.c" and self._is_type(f, t.ops[0]):
                if best is None or len(t.x["cases"]) > len(best.x["cases"]):
                    best = t
        if best is None or len(best.x["cases"]) < 10:
            return False
        self.fn, self.kind = f, "switch"
        self.default = f.blocks[best.x["default"]]
        for v, l in best.x["cases"]:
            self.entry[int(v)] = f.blocks[l]
        self.table_len = None
        self.stop = {best.block}
        return True

    def _region(self, b):
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen or (x in self.stop and x is not b):
                continue
            seen.add(x)
            if x in self.stop:
                continue
            work += x.succs
        return seen

    def insts(self, n):
        r = self.region[n]
        for b in self.fn.order:
            if b in r:
                yield from b.insts
