"""Facts about /repo's current sources: every function (AST + CFG), record, enum
and global of the translation units that make up the program."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HX = os.path.join(VERIF, "build", "hx")
BASE_ARGS = [
    "-std=c11", "-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE", "-fwrapv",
    "-fno-strict-aliasing", "-w", "-resource-dir=/usr/lib/llvm-18/lib/clang/18",
]


class Broken(Exception):
    """the analysis cannot be carried out (never a verdict)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, check=True, **kw)


def build_tool():
    if os.path.exists(HX):
        return
    sh([os.path.join(VERIF, "setup.sh")], stdout=subprocess.DEVNULL)


def makefile_modules(repo):
    """MOD_C.<target> lists of the *.mk files"""
    out = {}
    for mk in sorted(glob.glob(os.path.join(repo, "*.mk"))):
        text = open(mk).read().replace("\\\n", " ")
        cond = 0
        for line in text.split("\n"):
            if re.match(r"\s*(ifeq|ifneq|ifdef|ifndef)\b", line):
                cond += 1
            elif re.match(r"\s*endif\b", line):
                cond -= 1
            m = re.match(r"MOD_C\.(\S+)\s*[:+]?=\s*(.*)$", line)
            if m and not cond:
                out.setdefault(m.group(1), []).extend(m.group(2).split())
    return out


LIBS = ["libhob3lbase.a", "libhob3lmat.a", "libhob3lop.a", "libhob3l.a", "hob3l.x"]


def tus(repo):
    mods = makefile_modules(repo)
    res = []
    for lib in LIBS:
        for m in mods.get(lib, []):
            if m.endswith("-test.c"):
                continue
            p = os.path.join(repo, "src", m)
            if os.path.exists(p):
                res.append(p)
    if len(res) < 30:
        raise Broken("only %d translation units found from the makefiles" % len(res))
    return res


def gen_inc(repo, d):
    for s in glob.glob(os.path.join(repo, "src", "*", "*.sieve")):
        o = os.path.join(d, os.path.basename(s)[:-6] + ".inc")
        with open(o, "wb") as f:
            sh([os.path.join(repo, "script", "mksieve"), s], stdout=f, cwd=d)
    for s in glob.glob(os.path.join(repo, "src", "*", "*.switch")):
        o = os.path.join(d, os.path.basename(s)[:-7] + ".inc")
        with open(o, "wb") as f:
            sh([os.path.join(repo, "script", "mkswitch"), s], stdout=f, cwd=d)


class Type:
    __slots__ = ("tu", "i", "raw")

    def __init__(self, tu, i, raw):
        self.tu, self.i, self.raw = tu, i, raw

    def __getattr__(self, n):
        return self.raw.get(n)

    @property
    def to_t(self):
        i = self.raw.get("to")
        return self.tu.types[i] if i is not None and i >= 0 else None

    @property
    def kind(self):
        return self.raw["k"]

    def __repr__(self):
        return self.raw["s"]

    @property
    def rec(self):
        return self.raw.get("rd")

    def ptr_rec(self):
        """record name of pointee, or None"""
        p = self.to_t
        return p.raw.get("rd") if p is not None else None


class Decl:
    __slots__ = ("tu", "i", "raw")

    def __init__(self, tu, i, raw):
        self.tu, self.i, self.raw = tu, i, raw

    def __getattr__(self, n):
        return self.raw.get(n)

    @property
    def name(self):
        return self.raw.get("n", "")

    @property
    def type(self):
        i = self.raw.get("t")
        return self.tu.types[i] if i is not None else None

    def __repr__(self):
        return "<%s %s>" % (self.raw.get("k"), self.raw.get("n"))


class Node:
    __slots__ = ("f", "i", "raw", "ch", "par")

    def __init__(self, f, i, raw):
        self.f, self.i, self.raw, self.ch, self.par = f, i, raw, (), None

    @property
    def k(self):
        return self.raw["k"]

    @property
    def line(self):
        return self.raw.get("l", 0)

    @property
    def op(self):
        return self.raw.get("op")

    @property
    def val(self):
        v = self.raw.get("v")
        return v

    @property
    def type(self):
        i = self.raw.get("t")
        return self.f.tu.types[i] if i is not None and i >= 0 else None

    @property
    def decl(self):
        i = self.raw.get("d")
        return self.f.tu.decls[i] if i is not None else None

    @property
    def name(self):
        return self.raw.get("n")

    @property
    def fn(self):
        """callee Decl of a direct call"""
        i = self.raw.get("fn")
        return self.f.tu.decls[i] if i is not None else None

    @property
    def callee(self):
        d = self.fn
        return d.raw["n"] if d is not None else None

    @property
    def args(self):
        return self.ch[1:]

    @property
    def macro(self):
        return self.raw.get("m")

    def walk(self):
        st = [self]
        seen = set()
        while st:
            n = st.pop()
            if n is None or n.i in seen:
                continue
            seen.add(n.i)
            yield n
            st.extend(reversed(n.ch))

    def parents(self):
        p = self.par
        while p is not None:
            yield p
            p = p.par

    def strip(self):
        """skip casts"""
        n = self
        while n is not None and n.k in ("ImplicitCastExpr", "CStyleCastExpr"):
            n = n.ch[0]
        return n

    def strip_implicit(self):
        n = self
        while n is not None and n.k == "ImplicitCastExpr":
            n = n.ch[0]
        return n

    def where(self):
        return "%s:%d" % (self.f.relfile, self.line or self.f.line)

    def __repr__(self):
        return "<%s@%s>" % (self.k, self.line)

    def src(self, depth=6):
        return show(self, depth)


def show(n, depth=6):
    if n is None:
        return ""
    if depth == 0:
        return "..."
    d = depth - 1
    k = n.k
    if k in ("ImplicitCastExpr",):
        return show(n.ch[0], depth)
    if k == "CStyleCastExpr":
        return "(%s)%s" % (n.type, show(n.ch[0], d))
    if k == "DeclRefExpr":
        return n.decl.name
    if k == "MemberExpr":
        return show(n.ch[0], d) + ("->" if n.raw.get("arrow") else ".") + n.name
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        return "(%s %s %s)" % (show(n.ch[0], d), n.op, show(n.ch[1], d))
    if k == "UnaryOperator":
        return (show(n.ch[0], d) + n.op) if n.raw.get("post") else n.op + show(n.ch[0], d)
    if k == "CallExpr":
        return "%s(%s)" % (show(n.ch[0], d), ", ".join(show(a, d) for a in n.args))
    if k == "ArraySubscriptExpr":
        return "%s[%s]" % (show(n.ch[0], d), show(n.ch[1], d))
    if k == "IntegerLiteral" or k == "CharacterLiteral":
        return str(n.val)
    if k == "FloatingLiteral":
        return str(n.raw.get("fv"))
    if k == "StringLiteral":
        return json.dumps(n.raw.get("str"))
    if k == "ConditionalOperator":
        return "(%s ? %s : %s)" % tuple(show(c, d) for c in n.ch)
    if k == "ReturnStmt":
        return "return " + (show(n.ch[0], d) if n.ch else "")
    if k == "UnaryExprOrTypeTraitExpr":
        return "sizeof"
    if k == "StmtExpr":
        return "({...})"
    return "<%s>" % k


class Block:
    __slots__ = ("id", "elems", "term", "cond", "succs", "preds", "nr", "label", "f")

    def __repr__(self):
        return "<B%d>" % self.id


class Function:
    def __init__(self, tu, raw):
        self.tu = tu
        self.raw = raw
        self.name = raw["n"]
        self.file = raw["file"]
        self.line = raw["line"]
        self.static = raw["static"]
        self.decl = tu.decls[raw["d"]]
        self.relfile = os.path.relpath(self.file, tu.prog.repo)
        self.key = fkey(self.decl, tu.prog.repo)
        self._nodes = None
        self._blocks = None

    @property
    def params(self):
        return [self.tu.decls[i] for i in self.raw["params"]]

    @property
    def ret(self):
        return self.tu.types[self.raw["ret"]]

    @property
    def nodes(self):
        if self._nodes is None:
            ns = [Node(self, i, r) for i, r in enumerate(self.raw["nodes"])]
            for n in ns:
                c = n.raw.get("c")
                if c:
                    n.ch = tuple(ns[i] if i >= 0 else None for i in c)
                if "ds" in n.raw:
                    n.ch = tuple(ns[p[1]] for p in n.raw["ds"] if p[1] >= 0)
                for x in n.ch:
                    if x is not None and x.par is None:
                        x.par = n
            self._nodes = ns
        return self._nodes

    @property
    def body(self):
        return self.nodes[self.raw["body"]]

    @property
    def blocks(self):
        if self._blocks is None:
            ns = self.nodes
            bs = {}
            for r in self.raw.get("cfg", ()):
                b = Block()
                b.f = self
                b.id = r["id"]
                b.elems = [ns[i] for i in r["e"] if i >= 0]
                b.term = ns[r["t"]] if r.get("t", -1) >= 0 else None
                b.cond = ns[r["tc"]] if r.get("tc", -1) >= 0 else None
                b.label = ns[r["lb"]] if r.get("lb", -1) >= 0 else None
                b.nr = r.get("nr", False)
                b.preds = []
                bs[b.id] = b
            for r in self.raw.get("cfg", ()):
                b = bs[r["id"]]
                b.succs = [bs[i] if i is not None else None for i in r["s"]]
                if b.nr:
                    b.succs = []
                for s in b.succs:
                    if s is not None:
                        s.preds.append(b)
            self._blocks = bs
        return self._blocks

    @property
    def entry(self):
        return self.blocks[self.raw["entry"]]

    @property
    def exit(self):
        return self.blocks[self.raw["exit"]]

    def calls(self):
        for n in self.body.walk():
            if n.k == "CallExpr":
                yield n

    def __repr__(self):
        return "%s:%s" % (self.relfile, self.name)


def fkey(d, repo):
    if d.raw.get("static"):
        return os.path.relpath(d.raw.get("file", ""), repo) + ":" + d.raw["n"]
    return d.raw["n"]


class Global:
    def __init__(self, tu, raw):
        self.tu, self.raw = tu, raw
        self.name = raw["n"]
        self.file = raw["file"]
        self.line = raw["line"]
        self.relfile = os.path.relpath(self.file, tu.prog.repo)
        ns = [Node(self, i, r) for i, r in enumerate(raw["nodes"])]
        for n in ns:
            c = n.raw.get("c")
            if c:
                n.ch = tuple(ns[i] if i >= 0 else None for i in c)
            for x in n.ch:
                if x is not None and x.par is None:
                    x.par = n
        self.nodes = ns
        self.init = ns[raw["init"]]


class TU:
    def __init__(self, prog, path, raw):
        self.prog, self.path, self.raw = prog, path, raw
        self.types = [Type(self, i, t) for i, t in enumerate(raw["types"])]
        self.decls = [Decl(self, i, d) for i, d in enumerate(raw["decls"])]
        self.functions = [Function(self, r) for r in raw["functions"]]
        self.globals = [Global(self, r) for r in raw["globals"]]
        self.records = {r["n"]: r for r in raw["records"]}


class Program:
    def __init__(self, repo="/repo"):
        self.repo = repo
        build_tool()
        self.paths = tus(repo)
        d = tempfile.mkdtemp(prefix="hx.")
        try:
            gen_inc(repo, d)
            args = BASE_ARGS + ["-I" + os.path.join(repo, "include"), "-I" + d]
            self.incs = {os.path.basename(p): open(p, errors="replace").read()
                         for p in glob.glob(d + "/*.inc")}

            def one(p):
                r = subprocess.run([HX, repo + "/:" + d + "/", p, "--"] + args, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE)
                if r.returncode != 0:
                    raise Broken("cannot parse %s: %s" % (p, r.stderr.decode()[-600:]))
                return json.loads(r.stdout.decode("utf-8", "replace")
                                  .replace(d + "/", repo + "/src/hob3l/"))

            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                raws = list(ex.map(one, self.paths))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.tus = [TU(self, p, r) for p, r in zip(self.paths, raws)]
        self.functions = {}
        self.records = {}
        self.enums = {}
        for tu in self.tus:
            for f in tu.functions:
                self.functions.setdefault(f.key, f)
            for n, r in tu.records.items():
                self.records.setdefault(n, (tu, r))
            for i in tu.raw["enums"]:
                e = tu.decls[i]
                self.enums.setdefault(e.name, [(tu.decls[c].name, tu.decls[c].raw["v"])
                                               for c in e.raw["es"]])
        self.by_name = {}
        for f in self.functions.values():
            self.by_name.setdefault(f.name, []).append(f)

    def resolve(self, call):
        """Function object of a direct call, or None"""
        d = call.fn
        if d is None:
            return None
        return self.functions.get(fkey(d, self.repo))

    def fn(self, name, required=True):
        r = self.by_name.get(name, [])
        if not r:
            if required:
                raise Broken("anchor function %s has vanished" % name)
            return None
        return r[0]

    def own(self):
        """functions in .c files (not header inlines)"""
        return [f for f in self.functions.values() if f.file.endswith(".c")]
