"""write hbsa/functions.txt: the functions of the reviewed tree, by unit and type"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from hbsa import build
out = os.path.join(os.path.dirname(os.path.abspath(build.__file__)), "functions.txt")
open(out, "a").close()
build.Tree._absorb = lambda self: None
from hbsa import ctx
c = ctx.Ctx()
c.raw
T = c.tree
lines = []
for u in T.objs:
    txt = build.run([build.OPT, "-S", "-passes=verify", T.objs[u], "-o", "-"]).stdout
    for m in T.DEFINE.finditer(txt):
        lines.append("%s %s %s" % (u, m[2], T.signature(m)))
open(out, "w").write("\n".join(sorted(lines)) + "\n")
print(len(lines))
