"""Front end: turn /repo's current working tree into LLVM IR text.

Nothing of the program under test is ever executed.  Sources are copied to a scratch directory,
generated sources (flex/bison/re2c/gperf) are regenerated there from their inputs, every
translation unit of the library and the CLI is lowered by clang to unoptimised IR with debug
info, the library units are linked, and a fixed normalisation pipeline is applied:

  raw view    : mem2reg/sroa + trivial simplification, functions as written
  inline view : as above, after inlining every static (internal-linkage) helper that is not
                address-taken-only/recursive, so that extracting or merging helpers is invisible
"""
import os, re, shutil, subprocess, sys, tempfile, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("HBSA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
LLVM = "/usr/lib/llvm-18/bin"
CLANG = LLVM + "/clang"
OPT = LLVM + "/opt"
LINK = LLVM + "/llvm-link"


class AnalysisError(Exception):
    """analysis-broken: neither pass nor violation"""


def run(cmd, cwd=None, ok=True):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if ok and p.returncode != 0:
        raise AnalysisError("command failed: %s ... %s\n%s" % (" ".join(cmd[:4]), cmd[-1], p.stderr[:1500]))
    return p


CFLAGS = ["-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-std=gnu11", "-I/usr/include/json-c", "-pthread",
          "-fno-strict-aliasing", "-fno-discard-value-names", "-w",
          "-DNVALGRIND", "-g", "-gdwarf-4", "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm"]


class Tree:
    """scratch copy of the sources plus the IR derived from it"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="hbsa.")
        atexit.register(self.cleanup)
        self.src = os.path.join(self.dir, "src")
        self.units = []
        self._copy()
        self._generate()
        self._compile()

    def cleanup(self):
        if os.environ.get("HBSA_KEEP"):
            return
        if os.path.basename(self.dir).startswith("hbsa."):
            shutil.rmtree(self.dir, ignore_errors=True)

    def _copy(self):
        os.makedirs(self.src)
        for sub in ("src", "bin"):
            d = os.path.join(self.dir, sub)
            os.makedirs(d, exist_ok=True)
            base = os.path.join(REPO, sub)
            if not os.path.isdir(base):
                raise AnalysisError("missing directory %s" % base)
            for f in sorted(os.listdir(base)):
                if f == "handlebars_config.h":
                    continue
                if re.search(r"\.(c|h|l|y|re|gperf)$", f):
                    shutil.copy(os.path.join(base, f), os.path.join(d, f))
        ven = os.path.join(REPO, "vendor")
        if os.path.isdir(ven):
            shutil.copytree(ven, os.path.join(self.dir, "vendor"))
        for f in ("config.h", "handlebars_config.h"):
            shutil.copy(os.path.join(HERE, "config", f), self.src)

    # sha256 of the generator inputs at the pinned commit.  As in the project's own build, the tracked
    # output is what is compiled while its input is unchanged; otherwise it is regenerated.
    PINNED = {"handlebars.l": "aae0092c1676d987eeaab0023642e8837936713a0714c361c5d43215fc1eedd4", "handlebars.y": "fe4f81a09e02b7d64ea86a84ccccd8ae16b354c913fbb23790e0763833361f2d", "handlebars_scanners.re": "286aac3ace8969cc535364f96c3392e8485f32253b9cd7d84ad92932a2de645c",
              "handlebars_helpers_ht.gperf": "c61629d0b4faf33e05556628ca4deaa299f688cced98d962e32559f1f7d94cf4"}

    def _generate(self):
        s = self.src
        self.regenerated = []
        for inp, cmd in (
            ("handlebars.l", ["flex", "--noreject", "--fast", "--align", "-o", "handlebars.lex.c", "handlebars.l"]),
            ("handlebars.y", ["bison", "-b", "handlebars", "handlebars.y"]),
            ("handlebars_scanners.re", ["re2c", "--no-generation-date", "-s8", "-o", "handlebars_scanners.c",
                                        "handlebars_scanners.re"]),
            ("handlebars_helpers_ht.gperf",
             ["gperf", "--struct-type", "--readonly-tables", "--compare-strncmp", "--compare-lengths",
              "--global-table", "--output-file=handlebars_helpers_ht.h", "handlebars_helpers_ht.gperf"]),
        ):
            path = os.path.join(s, inp)
            if not os.path.exists(path):
                continue
            if hashlib.sha256(open(path, "rb").read()).hexdigest() == self.PINNED[inp]:
                continue
            p = run(cmd, cwd=s, ok=False)
            if p.returncode != 0:
                raise AnalysisError("generator failed: %s\n%s" % (" ".join(cmd), p.stderr[-2000:]))
            self.regenerated.append(inp)

    def _compile(self):
        units = sorted(f for f in os.listdir(self.src) if f.endswith(".c"))
        inc = ["-I" + self.src, "-I" + os.path.join(self.dir, "vendor/sort_r"),
               "-I" + os.path.join(self.dir, "vendor/xxhash")]
        self.bc = os.path.join(self.dir, "bc")
        os.makedirs(self.bc)
        jobs = []
        for u in units:
            jobs.append((os.path.join(self.src, u), os.path.join(self.bc, u + ".bc")))
        binc = os.path.join(self.dir, "bin/handlebarsc.c")
        jobs.append((binc, os.path.join(self.bc, "handlebarsc.bin.bc")))

        # two lowerings: one that keeps every null comparison exactly as written (analysed), and one that
        # carries the declared nonnull contracts (only the function signatures are read from it)
        def one(j):
            run([CLANG] + CFLAGS + ["-fno-delete-null-pointer-checks"] + inc + ["-c", j[0], "-o", j[1]], cwd=self.src)
            run([CLANG] + CFLAGS + ["-S"] + inc + ["-c", j[0], "-o", j[1] + ".sig.ll"], cwd=self.src)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        self.units = units
        self.objs = {u: os.path.join(self.bc, u + ".bc") for u in units}
        self.objs["bin/handlebarsc.c"] = os.path.join(self.bc, "handlebarsc.bin.bc")
        self.sig = {u: o + ".sig.ll" for u, o in self.objs.items()}
        self._absorb()

    DEFINE = re.compile(r"(?m)^define ([^@\n]*)@([\w.$]+)\((.*?)\)[^()\n]*?(#\d+)")

    @staticmethod
    def signature(m):
        """the types of a definition, without its attributes"""
        ty = lambda x: re.findall(r"(?<![\w%])(?:void|ptr|float|double|x86_fp80|i\d+|%[\w.]+(?=$| ))", x)
        return "%s:%s:%s" % ("internal" if "internal" in m[1] else "", ty(re.sub(r"\([^)]*\)", "", m[1]))[-1:],
                             [(ty(re.sub(r"\([^)]*\)", "", a)) or ["?"])[0] for a in m[3].split(", ") if a])

    def _absorb(self):
        """a function the reviewed tree did not have is read as part of the functions that call it; where it replaces one of
        the same unit and type, it goes by the name of that one"""
        known = {}
        for line in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "functions.txt")):
            u, n, s = line.rstrip("\n").split(" ", 2)
            known.setdefault(u, {})[n] = s
        names = {n for d in known.values() for n in d}

        def one(u):
            txt = run([OPT, "-S", "-passes=verify", self.objs[u], "-o", "-"]).stdout
            defs = {m[2]: (self.signature(m), m[4]) for m in self.DEFINE.finditer(txt)}
            new = [n for n in defs if n not in names]
            if not new:
                return
            gone = [n for n in known.get(u, ()) if n not in defs]
            for n in gone:
                same = [x for x in new if defs[x][0] == known[u][n]]
                if len(same) == 1 and known[u][n].startswith("internal") and sum(known[u][g] == known[u][n] for g in gone) == 1:
                    ren = lambda s: re.sub(r"@%s\b(?![\w.$])" % re.escape(same[0]), "@" + n, s)
                    txt = ren(txt)
                    sig = self.sig[u]
                    s = ren(open(sig).read())
                    open(sig, "w").write(s)
                    new.remove(same[0])
            attrs = {defs[n][1] for n in new}
            txt = re.sub(r"(?m)^attributes (#\d+) = \{.*?\bnoinline\b", lambda m: m[0][:-8].rstrip() if m[1] in attrs else m[0], txt)
            pre, out = self.objs[u] + ".new.ll", self.objs[u][:-3] + ".abs.bc"
            open(pre, "w").write(txt)
            run([OPT, "-passes=forceattrs,always-inline", pre, "-o", out] + ["-force-attribute=%s:alwaysinline" % n for n in new])
            self.objs[u] = out
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, list(self.objs)))

    # IR as text -------------------------------------------------------------------------------
    NORMAL = ("function(sroa,lower-expect,early-cse<memssa>,instsimplify,simplifycfg<no-switch-to-lookup;no-sink-common-insts;"
              "no-hoist-common-insts>,instsimplify)")
    OPTFLAGS = ["-two-entry-phi-node-folding-threshold=0", "-speculate-one-expensive-inst=false",
                "-simplifycfg-merge-cond-stores=false"]

    def raw_view(self):
        """{unit: path of the IR text}; functions as written"""
        def one(u):
            out = self.objs[u] + ".raw.ll"
            run([OPT, "-S"] + self.OPTFLAGS + ["-passes=" + self.NORMAL, self.objs[u], "-o", out])
            return u, out
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, self.objs))

    def plain_view(self, units):
        """{unit: path}; as lowered, local variables still in memory"""
        def one(u):
            out = self.objs[u] + ".o0.ll"
            run([OPT, "-S", "-passes=verify", self.objs[u], "-o", out])
            return u, out
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, units))

    def inline_view(self, keep=()):
        """{unit: path}; internal functions (not in keep) inlined bottom-up into their callers"""
        def one(u):
            pre = self.objs[u] + ".pre.ll"
            run([OPT, "-S", "-passes=function(sroa,lower-expect)", self.objs[u], "-o", pre])
            txt = open(pre, errors="replace").read()
            open(pre, "w").write(re.sub(r"(?m)^(attributes #\d+ = \{.*?)\bnoinline\b ?", r"\1", txt))
            names = []
            for line in open(pre, errors="replace"):
                m = re.match(r"define (?:internal|available_externally|linkonce_odr) .*?@([\w.$]+)\(", line)
                if m and m[1] not in keep:
                    names.append(m[1])
            out = self.objs[u] + ".inl.ll"
            cmd = [OPT, "-S"] + self.OPTFLAGS + ["-passes=forceattrs,always-inline," + self.NORMAL, pre, "-o", out]
            for n in names:
                cmd.append("-force-attribute=%s:alwaysinline" % n)
            run(cmd)
            return u, out
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, self.objs))

    def sigs(self):
        return dict(self.sig)
