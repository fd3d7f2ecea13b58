"""P13: every documented call form of a functor is read as documented."""
import os
import re
from fractions import Fraction

from facts import Broken, fkey
from flow import Env, NZ, truth, path, norm
from inline import InlineExplorer, reach

DOC = "doc/scadformat.md"


# ---------------------------------------------------------------- documentation
class Functor:
    def __init__(self, name):
        self.name = name
        self.pos, self.named, self.mand = [], [], set()
        self.block = False
        self.type, self.default, self.derive = {}, {}, {}
        self.excl = set()

    def all(self):
        return self.pos + self.named


def parse_doc(repo):
    t = open(os.path.join(repo, DOC), encoding="utf-8").read()
    i = t.find("\n## Functors\n")
    if i < 0:
        raise Broken("no functor documentation in " + DOC)
    r = {}
    for sec in re.split(r"\n### ", t[i:])[1:]:
        name = sec.split("\n", 1)[0].strip()
        m = re.search(r"\n```\n(.*?)\n```", sec, re.S)
        if not m or not re.match(re.escape(name) + r"\s*\(", m.group(1)):
            continue
        f = r[name] = Functor(name)
        sig = m.group(1)
        a = sig[sig.index("(") + 1:sig.index(")")]
        f.block = "{" in sig[sig.index(")"):]
        mode = []
        for tok in re.findall(r"[$\w]+|[\[\]{}]", a):
            if tok in "[{":
                mode.append(tok)
            elif tok in "]}":
                mode.pop()
            elif "{" in mode:
                f.named.append(tok)
            else:
                f.pos.append(tok)
                if not mode:
                    f.mand.add(tok)
        for b in re.finditer(r"\n  \* `([$\w]+)` ::((?:.|\n(?!  \*|\n))*)", sec):
            n, d = b.group(1), " ".join(b.group(2).split())
            # the same parameter twice: its meaning depends on others
            f.type[n] = None if n in f.type else d
            q = re.search(r"default\s*=\s*(\"[^\"]*\"|[-\w.]+)", d)
            if q:
                f.default[n] = q.group(1).rstrip(".")
        for b in re.finditer(r"`([$\w]+)` and `([$\w]+)` must not both be specified", sec):
            f.excl.add((b.group(1), b.group(2)))
        for b in re.finditer(r"\* If `([$\w]+)` is specified, (?:both )?((?:`[$\w]+`(?: and |, )?)+)"
                             r" will be set to\s+`([$\w]+)`(?:/(\d+))?", sec):
            for k in re.findall(r"`([$\w]+)`", b.group(2)):
                f.derive.setdefault(b.group(1), {})[k] = (b.group(3), Fraction(1, int(b.group(4) or 1)))
    return r


def kinds_of(ty):
    """documented type -> (kinds that must be accepted, kinds that may be, array sizes)"""
    if ty is None:
        return None
    ty = re.split(r",\s*(?:default|ignored)|\. ", ty)[0]
    must, may, sizes = set(), set(), None
    known = False
    m = re.search(r"array\[(\d*)(?:\.\.(\d*))?\]", ty)
    if m:
        must.add("ARRAY")
        known = True
        if m.group(1):
            lo = int(m.group(1))
            hi = lo if m.group(2) is None else int(m.group(2)) if m.group(2) else None
            if hi is not None:
                sizes = (lo, hi)
        ty0 = re.sub(r"array\[[\d.]*\] of (?:array\[[\d.]*\] of )?(?:\([^)]*\)|\w+)", "", ty)
    else:
        ty0 = ty
    if re.search(r"\bfloat\b|\d\.\d*\.\.", ty0):
        must |= {"INT", "FLOAT"}
        may.add("ID")
        known = True
    if re.search(r"\binteger\b", ty0):
        must.add("INT")
        may |= {"ID", "FLOAT"}
        known = True
    if re.search(r"\bbool(ean)?\b", ty0):
        must.add("ID")
        may |= {"INT", "FLOAT"}
        known = True
    if re.search(r"\bstring\b", ty0):
        must.add("STRING")
        known = True
    if re.search(r"\bundef\b", ty0):
        must.add("ID")
        known = True
    return (must, may | must, sizes) if known else None


# ---------------------------------------------------------------- reader tables
class Param:
    pass


def param_rec(prog):
    """the record that describes a parameter: a name, a getter, a destination, a 'given' flag"""
    for tu in prog.tus:
        for nm, r in tu.records.items():
            fs = {f["n"]: tu.types[f["t"]] for f in r["f"] if f.get("t") is not None}
            kinds = sorted(t.kind for t in fs.values())
            strs = [n for n, t in fs.items() if t.raw["s"].replace(" ", "") in
                    ("constchar*", "charconst*")]
            fps = [n for n, t in fs.items() if t.kind == "ptr" and t.raw.get("to") is not None and
                   tu.types[t.raw["to"]].kind == "fun"]
            vps = [n for n, t in fs.items() if t.raw["s"] == "void *"]
            bps = [n for n, t in fs.items() if t.raw["s"] in ("_Bool *", "bool *")]
            if len(strs) == 1 and len(fps) == 1 and len(vps) == 1 and len(bps) == 1:
                order = [f["n"] for f in r["f"]]
                return nm, {"name": order.index(strs[0]), "get": order.index(fps[0]),
                            "data": order.index(vps[0]), "have": order.index(bps[0])}
    raise Broken("no record describes the parameters of a functor")


def lit(n):
    for m in n.walk():
        if m.k == "StringLiteral":
            return m.raw.get("str")
    return None


def addr(n):
    """path of the object whose address expression n yields; 'none' for null, 'dummy' for an
    anonymous place"""
    n = n.strip() if n is not None else None
    while n is not None and n.k == "ConditionalOperator":
        c = n.ch[0].val
        if c is None:
            return None
        n = n.ch[1 if c else 2].strip()
    if n is None or n.val == 0:
        return "none"
    if n.k == "CompoundLiteralExpr":
        return "dummy"
    p = path(n)
    if p is None:
        return None
    p = norm(p)
    return p[:-1] if p[-1] == "&" else p + ("*",)


def params_of(f, init, ix):
    r = []
    for e in init.ch:
        if e is None or e.strip().k != "InitListExpr":
            continue
        e = e.strip()
        p = Param()
        p.node = e
        p.name = lit(e.ch[ix["name"]])
        g = [m for m in e.ch[ix["get"]].walk() if m.k == "DeclRefExpr"]
        p.get = fkey(g[0].decl, f.tu.prog.repo) if g else None
        p.data = addr(e.ch[ix["data"]])
        p.datan = e.ch[ix["data"]]
        h = addr(e.ch[ix["have"]])
        p.mand = h == "none"
        p.have = h if isinstance(h, tuple) else None
        r.append(p)
    return r


def float_t(t):
    return t is not None and t.kind == "float"


class Handler(InlineExplorer):
    """reads one functor; `shared` = (given names or None for 'anything', record, index, log)"""
    carry = ("body", "read")
    initial = frozenset()
    writeback = True
    MAX_INLINE = 3

    def inline(self, g, call):
        return g.relfile == self.f.relfile and not self.consumer(g) and len(g.blocks) < 60 and \
            g.key not in self.shared.stop

    def consumer(self, g):
        return [i for i, p in enumerate(g.params)
                if p.type.kind == "ptr" and p.type.ptr_rec() == self.shared.rec]

    def child(self, g):
        c = super().child(g)
        return c

    # values of floating type: constants and multiples of a parameter
    def ev(self, n, env):
        if n is None:
            return None
        if n.k == "FloatingLiteral":
            return ("p", "", Fraction(n.raw["fv"]).limit_denominator(10**9))
        if n.k in ("ImplicitCastExpr", "CStyleCastExpr"):
            v = self.ev(n.ch[0], env)
            if isinstance(v, tuple) and v and v[0] in ("p", "s"):
                return v
            if isinstance(v, int) and n.raw.get("ck") == "IntegralToFloating":
                return ("p", "", Fraction(v))
        if n.k == "StringLiteral":
            return ("s", n.raw.get("str"))
        if n.k == "BinaryOperator" and float_t(n.type) and n.op in ("*", "/"):
            a, b = self.ev(n.ch[0], env), self.ev(n.ch[1], env)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "p":
                if n.op == "*" and a[1] == "":
                    a, b = b, a
                if b[1] == "" and b[2] != 0:
                    return ("p", a[1], a[2] * b[2] if n.op == "*" else a[2] / b[2])
            return None
        return super().ev(n, env)

    def refine(self, n, c, eq, env):
        p = path(n.strip()) if n is not None else None
        if p is not None and isinstance(env.get(norm(p)), tuple) and env.get(norm(p))[0] in ("p", "s"):
            return
        super().refine(n, c, eq, env)

    def kill_memory(self, call, env):
        """values read stay what they are unless their address is handed over"""
        keep = {k: v for k, v in env.m.items() if k[0] not in ("n", "x") and
                (sym(v) or k in self.initial and isinstance(v, int))}
        flags = {k: v for k, v in env.m.items() if k[0] not in ("n", "x") and len(k) > 1 and
                 isinstance(v, int) and k not in keep and len(k) == 2 and v in (0, 1)}
        super().kill_memory(call, env)
        for a in call.args:
            q = path(a)
            if q is not None and norm(q)[-1] != "&":
                for k in list(flags):
                    if k[:len(norm(q))] == norm(q):
                        del flags[k]
            if q is None or a.type is None or a.type.kind != "ptr" or \
                    norm(q)[-1] != "&":
                continue
            q = norm(q)[:-1]
            for k in list(keep):
                if k[:len(q)] == q or q[:len(k)] == k:
                    del keep[k]
            for k in list(flags):
                if k[:len(q)] == q or q[:len(k)] == k:
                    del flags[k]
        env.m.update(keep)
        env.m.update(flags)

    def store(self, lhs, v, env):
        super().store(lhs, v, env)
        p = path(lhs)
        if p is not None:
            for i in range(1, len(norm(p))):
                if sym(env.get(norm(p)[:i])):
                    env.set(norm(p)[:i], None)

    def tables(self, call, g):
        """parameter lists handed to the consumer: [(positional?, [Param])]"""
        r = []
        for i in self.consumer(g):
            a = call.args[i].strip()
            while a.k in ("ImplicitCastExpr", "ParenExpr"):
                a = a.ch[0]
            di = a.decl.i if a.k == "DeclRefExpr" else None
            ini = None
            for n in self.f.body.walk():
                if n.k == "DeclStmt":
                    for d, v in n.raw["ds"]:
                        if d == di and v >= 0:
                            ini = self.f.nodes[v].strip()
            if ini is None or ini.k != "InitListExpr":
                raise Broken("the parameter list handed over in %s is not understood" % call.where())
            r.append(params_of(self.f, ini, self.shared.ix))
        return r

    def call_outcomes(self, call, env):
        g = self.prog.resolve(call)
        if g is not None and self.consumer(g):
            t = self.tables(call, g)
            self.shared.log[call.i, self.f.key] = (call, t)
            self.initial |= {k for k, v in env.m.items() if len(k) > 1 and k[0] not in ("n", "x")}
            given = self.shared.given
            d = {("x", "read"): 1}
            for l in t:
                for p in l:
                    if p.mand or p.name in given:
                        if p.data not in (None, "none", "dummy"):
                            # a pointer destination holds the value as it was written
                            raw = len(p.data) == 1 and \
                                self.f.tu.decls[p.data[0]].type.kind == "ptr"
                            d[p.data] = NZ if raw else ("p", p.name, Fraction(1))
                            if raw and p.name in self.shared.kinds:
                                d[p.data + (".type",)] = self.shared.kinds[p.name]
                        if p.have:
                            d[p.have] = 1
                    elif p.have:
                        d[p.have] = 0
            return [(1, d), (0, {("x", "read"): 1})] if given is None else [(1, d)]
        r = super().call_outcomes(call, env)
        if r is not None:
            # places read by the callee, seen from here
            for (ci, fk), (c, t) in list(self.shared.log.items()):
                if fk != g.key:
                    continue
                for p in (p for l in t for p in l):
                    if isinstance(p.data, tuple) and p.data[0] in g.raw["params"]:
                        q = path(call.args[g.raw["params"].index(p.data[0])])
                        p.data = norm(q + p.data[1:]) if q is not None else None
                    elif isinstance(p.data, tuple):
                        p.data = (p.data[0],)
                del self.shared.log[ci, fk]
                self.shared.log[ci, self.f.key] = (c, t)
        return r

    def transfer(self, n, env):
        if n.k == "CallExpr":
            g = self.prog.resolve(n)
            if g is not None and self.consumer(g):
                return
            for a in n.args:
                p = path(a)
                if p is not None and norm(p)[-2:] == (".body", "&"):
                    env.set(("x", "body"), 1)
        super().transfer(n, env)

    def on_return(self, n, env, val):
        if self.idepth == 0:
            if truth(val) is None and n.ch:
                e = env.copy()
                if not self.assume(n.ch[0], True, e):
                    return
                self.ends.append((n, e))
            elif truth(val) is True:
                self.ends.append((n, env.copy()))
            return
        super().on_return(n, env, val)


def sym(v):
    return isinstance(v, tuple) and v and v[0] in ("p", "s")


class Shared:
    pass


def handle(prog, f, rec, ix, given, stop, kinds={}):
    sh = Shared()
    sh.kinds = kinds
    sh.rec, sh.ix, sh.given, sh.log, sh.stop = rec, ix, given, {}, stop
    x = Handler(prog, f, sh)
    x.max_states = 400
    x.ends = []
    x.run(env=Env({}))
    return x, sh


class Getter(InlineExplorer):
    """a getter applied to a value of one kind (and an array of one size)"""
    MAX_INLINE = 6

    def inline(self, g, call):
        return g.relfile.startswith("src/hob3l/") and len(g.blocks) < 60 and g.ret.kind in \
            ("bool", "enum", "int", "ptr")

    def call_value(self, call, env):
        return None

    def transfer(self, n, env):
        super().transfer(n, env)
        # what is known about an object is known through a copy of the pointer
        cp = []
        if n.k == "DeclStmt":
            cp = [((di,), self.f.nodes[i]) for di, i in n.raw["ds"] if i >= 0]
        elif n.k == "BinaryOperator" and n.op == "=" and path(n.ch[0]) is not None:
            cp = [(norm(path(n.ch[0])), n.ch[1])]
        for p, e in cp:
            q = path(e)
            if q is None or e.type is None or e.type.kind != "ptr":
                continue
            q = norm(q)
            for k, v in list(env.m.items()):
                if k[0] not in ("n", "x") and len(k) > len(q) and k[:len(q)] == q:
                    env.set(p + k[len(q):], v)

    def ev(self, n, env):
        v = super().ev(n, env)
        if v is None and n is not None and n.k == "MemberExpr" and n.name == "size":
            b = n.ch[0].strip()
            o = b.ch[0].strip() if b.k == "MemberExpr" else None
            t = o.type if o is not None else None
            if t is not None and (t.ptr_rec() if b.raw.get("arrow") else t.rec) == \
                    self.shared.arr:
                return self.shared.size
        return v


def accepts(prog, g, kind, size, arr):
    sh = Shared()
    sh.arr, sh.size = arr, size
    x = Getter(prog, g, sh)
    x.max_states = 400
    vp = [p.i for p in g.params if p.type.kind == "ptr" and "value_t" in p.type.raw["s"]]
    if len(vp) != 1:
        return None
    x.run(env=Env({(vp[0], ".type"): kind, (vp[0],): ("ne", frozenset([0]))}))
    return any(truth(v) is not False for v, _ in x.outs)


def want_default(d):
    if d in ("true", "false"):
        return int(d == "true")
    if d.startswith('"'):
        return ("s", d[1:-1])
    try:
        return ("p", "", Fraction(d))
    except ValueError:
        return None


def same(v, w):
    if isinstance(v, int) and isinstance(w, tuple) and w[0] == "p" and w[1] == "":
        return w[2] == v
    if isinstance(w, int) and isinstance(v, tuple) and v[0] == "p" and v[1] == "":
        return v[2] == w
    return v == w


def find_table(prog, names):
    """functor name -> (enum value, handler)"""
    best = {}
    for f in prog.functions.values():
        if not f.relfile.startswith("src/hob3l/") and "scad-cmd" not in f.relfile:
            continue
        r = {}
        for n in f.body.walk():
            if n.k != "InitListExpr" or n.type.kind != "rec":
                continue
            nm = lit(n)
            fn = [m for c in n.ch if c is not None for m in c.walk()
                  if m.k == "DeclRefExpr" and m.decl.raw["k"] == "func"]
            ev = [c.val for c in n.ch if c is not None and c.strip() is not None and
                  c.val is not None]
            if nm is not None and len(fn) == 1:
                r[nm] = (ev[0] if ev else None, fn[0].decl, n, f)
        if len(set(r) & names) > len(set(best) & names):
            best = r
    for tu in prog.tus:
        for gl in tu.globals:
            r = {}
            for n in gl.nodes:
                if n.k == "InitListExpr" and n.type.kind == "rec":
                    nm = lit(n)
                    fn = [m for c in n.ch if c is not None for m in c.walk()
                          if m.k == "DeclRefExpr" and m.decl.raw["k"] == "func"]
                    ev = [c.val for c in n.ch if c is not None and c.val is not None]
                    if nm is not None and len(fn) == 1:
                        r[nm] = (ev[0] if ev else None, fn[0].decl, n, gl)
            if len(set(r) & names) > len(set(best) & names):
                best = r
    if len(set(best) & names) < 10:
        raise Broken("the functor table was not found")
    return best


def run(prog, rep):
    rep.rule("the functor documentation (doc/scadformat.md) is parsed into signatures, types, "
             "defaults, exclusions and derivations; each functor's handler is explored per set of "
             "given parameters with symbolic parameter values, and each value getter per kind and "
             "array size of the value; both are compared with the documentation")
    docs = parse_doc(prog.repo)
    rec, ix = param_rec(prog)
    table = find_table(prog, set(docs))
    stop = set()
    stop = recursive(prog)
    kinds = syn_kinds(prog)
    arr = "cp_syn_value_array_t"
    memo = {}
    for name, d in sorted(docs.items()):
        if name not in table:
            rep.viol("%s:missing" % name, DOC, "the documented functor '%s' is unknown to the reader"
                     % name)
            continue
        h = prog.functions.get(fkey(table[name][1], prog.repo))
        if h is None:
            raise Broken("no handler for " + name)
        rep.count("documented functors")
        where = "%s:%d" % (h.relfile, h.line)
        x, sh = handle(prog, h, rec, ix, frozenset(), stop)
        logs = list(sh.log.values())
        if len(logs) > 1:
            raise Broken("%s() reads its parameters twice" % h.name)
        if not logs:
            if d.all():
                rep.viol("%s:params" % name, where, "%s() reads no parameters, but %s are documented"
                         % (h.name, ", ".join(d.all())))
            continue
        call, tabs = logs[0]
        pos, named = tabs[0], [p for t in tabs[1:] for p in t]
        byname = {p.name: p for p in pos + named}
        # ---- names, order, obligation
        for i, n in enumerate(d.pos):
            rep.count("documented parameters")
            if i >= len(pos) or pos[i].name != n:
                rep.viol("%s:position:%s" % (name, n), call.where(),
                         "%s: parameter %d is documented to be '%s', but the reader has '%s' there"
                         % (name, i + 1, n, pos[i].name if i < len(pos) else "nothing"))
        for n in d.named:
            rep.count("documented parameters")
            if n not in byname:
                rep.viol("%s:unknown:%s" % (name, n), call.where(),
                         "%s: the documented parameter '%s' is not read" % (name, n))
            elif n in [p.name for p in pos[:len(d.pos) + 1]] and n not in d.pos:
                rep.viol("%s:position:%s" % (name, n), call.where(),
                         "%s: '%s' is documented to be recognised by name only" % (name, n))
        seen = set()
        for p in pos + named:
            if p.name in seen:
                rep.viol("%s:twice:%s" % (name, p.name), p.node.where(),
                         "%s: parameter '%s' is listed twice" % (name, p.name))
            seen.add(p.name)
        for n in d.all():
            p = byname.get(n)
            if p is None:
                continue
            if n in d.mand and not p.mand:
                rep.viol("%s:mandatory:%s" % (name, n), p.node.where(),
                         "%s: '%s' is documented as mandatory, but may be left out" % (name, n))
            if n not in d.mand and p.mand and (n in d.default or n in d.named):
                rep.viol("%s:optional:%s" % (name, n), p.node.where(),
                         "%s: '%s' is documented as optional, but must be given" % (name, n))
        # two parameters read into one place
        for i, p in enumerate(pos + named):
            for q in (pos + named)[:i]:
                if p.data is not None and p.data == q.data or p.have and p.have == q.have:
                    rep.viol("%s:shared:%s" % (name, p.name), p.node.where(),
                             "%s: '%s' and '%s' are read into the same place"
                             % (name, q.name, p.name))
        res_root = {p.data[0] for p in pos + named if isinstance(p.data, tuple) and
                    len(p.data) > 1}

        def scen(given):
            given = frozenset(given)
            if given not in memo.setdefault(name, {}):
                memo[name][given] = handle(prog, h, rec, ix, given, stop)[0]
            rep.count("parameter combinations explored")
            return memo[name][given]
        # ---- defaults
        x = scen(())
        if not x.ends and not d.mand and all(n in d.default for n in d.pos):
            rep.viol("%s:none" % name, where, "%s() is rejected without parameters" % name)
        for n, dv in sorted(d.default.items()):
            p = byname.get(n)
            w = want_default(dv)
            if p is None or w is None or not isinstance(p.data, tuple) or len(p.data) < 2:
                continue
            for r, env in x.ends:
                got = [v for k, v in env.m.items() if k[:len(p.data)] == p.data]
                t = p.datan.strip()
                if not got:
                    if same(w, 0):
                        rep.count("defaults not judged")
                        continue       # objects are zeroed when they are made
                rep.count("documented defaults")
                need = leaves(h.tu, p.datan)
                have = {k[-1] for k in env.m if k[:len(p.data)] == p.data}
                if got and need and not need <= have and not same(w, 0):
                    rep.viol("%s:default:%s" % (name, n), r.where(),
                             "%s: the documented default of '%s' is %s, but %s is not set"
                             % (name, n, dv, ", ".join(sorted(need - have))))
                if not got or not all(same(v, w) for v in got):
                    rep.viol("%s:default:%s" % (name, n), r.where(),
                             "%s: the documented default of '%s' is %s, but the reader %s"
                             % (name, n, dv, "leaves " + ", ".join(show(v) for v in got) if got
                                else "sets none"))
        # ---- each parameter alone
        for n in d.all():
            p = byname.get(n)
            if p is None or not isinstance(p.data, tuple):
                continue
            x = scen({n})
            if not x.ends and not any(scen({n, q.name}).ends for q in pos + named):
                rep.viol("%s:rejected:%s" % (name, n), where,
                         "%s: '%s' is never accepted" % (name, n))
            for r, env in x.ends:
                if n in d.derive:
                    for k, (src, fac) in sorted(d.derive[n].items()):
                        q = byname.get(k)
                        if q is None or not isinstance(q.data, tuple):
                            continue
                        rep.count("documented derivations")
                        v = env.get(q.data)
                        if v != ("p", src, fac):
                            rep.viol("%s:derive:%s:%s" % (name, n, k), r.where(),
                                     "%s: with '%s' given, '%s' is documented to be %s%s, but it "
                                     "is %s" % (name, n, k, src, "/%s" % (1 / fac) if fac != 1
                                                else "", show(v)))
                elif len(p.data) > 1 and p.have is None or len(p.data) > 1 and p.data[0] in res_root:
                    rep.count("given values followed to the result")
                    v = env.get(p.data)
                    if v != ("p", n, Fraction(1)):
                        rep.viol("%s:lost:%s" % (name, n), r.where(),
                                 "%s: the given '%s' is replaced by %s" % (name, n, show(v)))
        # ---- each parameter together with another one
        sets = {n: {n} | set(d.derive.get(n, ())) for n in d.all()}
        for n in sorted(d.all()):
            for o in sorted(d.all()):
                p, po = byname.get(n), byname.get(o)
                if n == o or p is None or po is None or (n, o) in d.excl or (o, n) in d.excl or \
                        not isinstance(p.data, tuple) or sets[n] & sets[o]:
                    continue
                if n not in d.derive and not (len(p.data) > 1 and (
                        p.have is None or p.data[0] in res_root)):
                    continue
                for r, env in scen({n, o}).ends:
                    rep.count("values followed beside another parameter")
                    for k, (src, fac) in sorted(d.derive.get(n, {n: (n, Fraction(1))}).items()):
                        q = byname.get(k)
                        if q is None or not isinstance(q.data, tuple):
                            continue
                        v = env.get(q.data)
                        if v != ("p", src, fac):
                            rep.viol("%s:beside:%s:%s:%s" % (name, n, o, k), r.where(),
                                     "%s: with '%s' and '%s' given, '%s' should be %s%s, but it "
                                     "is %s" % (name, n, o, k, src, "/%s" % (1 / fac)
                                                if fac != 1 else "", show(v)))
        # ---- exclusions
        for a, b in sorted(d.excl):
            if a not in byname or b not in byname:
                continue
            rep.count("documented exclusions")
            x = scen({a, b})
            for r, env in x.ends[:1]:
                rep.viol("%s:exclusive:%s:%s" % (name, a, b), r.where(),
                         "%s: '%s' and '%s' are documented as mutually exclusive, but are "
                         "accepted together" % (name, a, b))
        # ---- children
        if d.block:
            x = scen(())
            rep.count("functors with children")
            for r, env in x.ends:
                if env.get(("x", "body")) is None:
                    rep.viol("%s:children" % name, r.where(),
                             "%s() may succeed without reading the children" % h.name)
        # ---- types
        for n in d.all():
            p = byname.get(n)
            ks = kinds_of(d.type.get(n))
            g = prog.functions.get(p.get) if p is not None else None
            if ks is None or g is None:
                continue
            acc = {}
            for kn, kv in kinds.items():
                if kn == "ARRAY":
                    continue
                acc[kn] = accepts(prog, g, kv, 0, arr)
            szs = {k: accepts(prog, g, kinds["ARRAY"], k, arr) for k in range(6)}
            if None in acc.values() or all(acc.values()):
                rep.count("values passed on unread")
                continue
            acc["ARRAY"] = any(szs.values())
            must, may, sizes = ks
            for kn in sorted(acc):
                rep.count("parameter/kind pairs decided")
                if kn in must and not acc[kn]:
                    rep.viol("%s:type:%s:%s" % (name, n, kn), p.node.where(),
                             "%s: a value of kind %s is documented for '%s', but rejected"
                             % (name, kn, n))
                elif kn not in may and acc[kn]:
                    rep.viol("%s:type:%s:%s" % (name, n, kn), p.node.where(),
                             "%s: '%s' accepts a value of kind %s, which is not documented"
                             % (name, n, kn))
            if sizes and "ARRAY" in must:
                for k, v in szs.items():
                    rep.count("array sizes decided")
                    if v != (sizes[0] <= k <= sizes[1]):
                        rep.viol("%s:size:%s:%d" % (name, n, k), p.node.where(),
                                 "%s: '%s' %s an array of %d values" % (
                                     name, n, "accepts" if v else "rejects", k))
        rep.sample("functor", "%s: %s | %s" % (name, " ".join(p.name for p in pos),
                                               " ".join(p.name for p in named)))
    rep.floor("documented functors", 20)
    rep.floor("documented parameters", 70)
    rep.floor("documented defaults", 14)
    rep.floor("documented exclusions", 9)
    rep.floor("values followed beside another parameter", 150)
    rep.floor("documented derivations", 6)
    rep.floor("parameter/kind pairs decided", 150)


def leaves(tu, e):
    """component names of the record that expression e is the address of"""
    t = e.strip().type
    while e.strip().k == "ConditionalOperator":
        e = e.strip().ch[1]
        t = e.strip().type
    rec = t.ptr_rec() if t is not None and t.kind == "ptr" else None
    r = tu.records.get(rec)
    while r is not None:
        nxt = None
        for f in r["f"]:
            ft = tu.types[f["t"]]
            q = tu.records.get(ft.rec) if ft.kind == "rec" else None
            if q is not None and not q["union"] and f["anon"]:
                return {"." + x["n"] for x in q["f"]}
        return None
    return None


def show(v):
    if v is None:
        return "something else"
    if isinstance(v, tuple) and v[0] == "p":
        return "%s%s" % (v[1] + "*" if v[1] else "", v[2])
    if isinstance(v, tuple) and v[0] == "s":
        return '"%s"' % v[1]
    return str(v)


def syn_kinds(prog):
    pre = "CP_SYN_VALUE_"
    for e, vs in prog.enums.items():
        r = {n[len(pre):]: v for n, v in vs if n.startswith(pre)}
        if {"ID", "INT", "FLOAT", "STRING", "ARRAY"} <= set(r):
            return r
    raise Broken("no enum of value kinds")


def recursive(prog):
    """functions that can call themselves"""
    out = set()
    g = {}
    for k, f in prog.functions.items():
        g[k] = {prog.resolve(c).key for c in f.calls() if prog.resolve(c) is not None}
    for k in g:
        seen, st = set(), list(g[k])
        while st:
            q = st.pop()
            if q == k:
                out.add(k)
                break
            if q not in seen:
                seen.add(q)
                st.extend(g.get(q, ()))
    return out
