"""P30: the output format that was asked for is the one that is written."""
import re

from inline import InlineExplorer, callers_closure
from flow import Env, path, norm
from facts import Broken, fkey
from alg import P, Ptr, Unsupported
from textval import Texts

# option -> (stage prefix of the writer's file, format suffix, binary flag)
WANT = {
    "dump-syn": ("syn", "scad", None),
    "dump-scad": ("scad", "scad", None),
    "dump-csg3": ("csg3", "scad", None),
    "dump-csg2": ("csg2", "scad", None),
    "dump-ps": ("csg2", "ps", None),
    "dump-js": ("csg2", "js", None),
    "dump-stl": ("csg2", "stl", 0),
    "dump-stlb": ("csg2", "stl", 1),
}
ENDINGS = {
    ".stlb": "dump-stlb", ".stb": "dump-stlb", ".scad": "dump-csg2", ".csg": "dump-csg2",
    ".ps": "dump-ps", ".js": "dump-js",
}
WFILE = re.compile(r"(syn|scad|csg3|csg2)-2(scad|ps|js|stl)\.c$")


def writer_of(prog, g):
    m = WFILE.search(g.relfile)
    return m.groups() if m and not g.static else None


def options(prog):
    """name -> (function, needs argument) from the option table"""
    for tu in prog.tus:
        for gl in tu.globals:
            if gl.name == "opt_list":
                r = {}
                for e in gl.init.ch:
                    e = e.strip()
                    if e.k != "InitListExpr" or len(e.ch) < 2:
                        continue
                    s = e.ch[0].strip()
                    fn = [m for m in e.ch[1].walk() if m.k == "DeclRefExpr"]
                    if s.k == "StringLiteral" and fn:
                        r[s.raw.get("str")] = (prog.functions.get(fkey(fn[0].decl, prog.repo)),
                                               e.ch[2].val if len(e.ch) > 2 else 0)
                return r
    raise Broken("no option table")


def stored(f):
    """constants a function stores into fields: {field path names: value}"""
    r = {}
    for n in f.body.walk():
        if n.k == "BinaryOperator" and n.op == "=":
            p = path(n.ch[0])
            v = n.ch[1].val
            if v is None and n.ch[1].strip() is not None:
                v = n.ch[1].strip().val
            if p and len(p) > 1:
                r[tuple(x for x in p[1:] if x not in ("*", "&"))] = v
    return r


class Pipe(InlineExplorer):
    carry = ("w",)

    def inline(self, g, call):
        return g.key in self.shared["pipe"] and writer_of(self.prog, g) is None

    def on_element(self, n, env):
        if n.k == "CallExpr":
            g = self.prog.resolve(n)
            w = writer_of(self.prog, g) if g is not None else None
            if w is not None:
                flag = None
                if w[1] == "stl":
                    for a in n.args:
                        t = a.strip().type
                        if (a.type is not None and a.type.kind == "bool") or \
                                (t is not None and t.kind == "bool"):
                            flag = self.ev(a, env)
                            flag = flag if flag is None or isinstance(flag, int) else 1
                            flag = "?" if flag is None else flag
                env.set(("x", "w"), (env.get(("x", "w")) or ()) + (w + (flag,),))
                self.shared["sites"].add((self.f.key, n.i))
        return True

    def child(self, g):
        return super().child(g)

    def kill_memory(self, call, env):
        # the settings are not changed by the pipeline (checked separately)
        keep = {k: v for k, v in env.m.items() if k[0] not in ("n", "x") and len(k) > 1 and
                k[-1] in self.shared["settings"]}
        super().kill_memory(call, env)
        env.m.update(keep)


def run(prog, rep):
    rep.rule("for each --dump-* option: the value its handler stores is assumed in the pipeline "
             "function and every path that returns success must call exactly one writer, once: "
             "the one of the requested stage and format (STL: with the requested binary flag)")
    rep.rule("each documented output file ending stores the format of the option that the help "
             "text names for it, only while no --dump option was given")
    opts = options(prog)
    for o in WANT:
        if o not in opts or opts[o][0] is None:
            rep.viol("option-missing:%s" % o, "src/hob3l/opt.switch", "option --%s has vanished" % o)
    writers = {f.key for f in prog.functions.values() if writer_of(prog, f)}
    # entry points: called from outside the writers' files
    entry = set()
    for f in prog.functions.values():
        if not WFILE.search(f.relfile):
            for c in f.calls():
                g = prog.resolve(c)
                if g is not None and g.key in writers:
                    entry.add(g.key)
    cl = callers_closure(prog, entry)
    # settings fields
    field = None
    vals = {}
    for o in WANT:
        if o in opts and opts[o][0] is not None:
            st = stored(opts[o][0])
            for k, v in st.items():
                if v is not None:
                    vals.setdefault(k, {})[o] = v
    if vals:
        field = max(vals, key=lambda k: len(vals[k]))
    if field is None:
        raise Broken("no format setting found")
    got = vals[field]
    for o in WANT:
        if o in opts and o not in got:
            rep.viol("option-no-format:%s" % o, "src/hob3l/opt.switch",
                     "--%s does not set the output format" % o)
    binf = None
    for o, want in (("stl-bin", 1), ("stl-txt", 0)):
        if o not in opts or opts[o][0] is None:
            rep.viol("option-missing:%s" % o, "src/hob3l/opt.switch", "option --%s has vanished" % o)
            continue
        st = stored(opts[o][0])
        if len(st) != 1:
            raise Broken("--%s does not store exactly one setting" % o)
        (k, v), = st.items()
        if binf is not None and binf[0] != k:
            rep.viol("option-stl", "src/hob3l/opt.switch", "--stl-bin and --stl-txt set "
                     "different settings")
        binf = binf or (k, {})
        binf[1][o] = v
    if len(field) != 1 or (binf and len(binf[0]) != 1):
        raise Broken("the settings are nested")
    settings = {field[0]} | ({binf[0][0]} if binf else set())
    # who else changes them
    main = prog.fn("main")
    for f in prog.functions.values():
        if f.key in {g.key for g, _ in opts.values() if g}:
            continue
        for n in f.body.walk():
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and \
                    (n.op == "=" or n.k != "BinaryOperator"):
                l = n.ch[0].strip()
                if l.k == "MemberExpr" and "." + l.name == binf[0][0] and f.file.endswith(".c"):
                    rep.viol("%s:changes-setting:%s" % (f.key, l.name), n.where(),
                             "%s() changes the setting %s" % (f.name, l.name))
    # pipeline: the outermost functions below main that reach the writers
    tops = [prog.resolve(c) for c in main.calls()]
    tops = [g for g in tops if g is not None and g.key in cl]
    tops += [main] if any(prog.resolve(c) is not None and prog.resolve(c).key in entry
                          for c in main.calls()) else []
    if len({g.key for g in tops}) != 1 or tops[0] is main:
        raise Broken("the pipeline function was not found")
    top = tops[0]
    prm = None
    for p in top.params:
        t = p.type.to_t
        if t is not None and t.rec:
            r = prog.records.get(t.rec)
            if r and any(x["n"] == field[0][1:] for x in r[1]["f"]):
                prm = p.i
    if prm is None:
        raise Broken("the pipeline function does not get the settings")

    def explore(v, b):
        sh = {"pipe": cl, "sites": set(), "settings": settings}
        x = Pipe(prog, top, sh)
        env = Env({(prm,) + field: v})
        if binf is not None and b is not None:
            env.set((prm,) + binf[0], b)
        x.run(env=env)
        rep.count("writer calls reached", len(sh["sites"]))
        return {dict(xs).get(("x", "w"), ()) for val, xs in x.outs if val != 0}

    def judge(what, v, b, want):
        rep.count("settings explored")
        res = explore(v, b)
        if not res:
            rep.viol("never:%s" % what, top.relfile, "%s: no successful path" % what)
        for ws in res:
            if want is None:
                if ws:
                    rep.viol("wrong-writer:%s" % what, "%s:%d" % (top.relfile, top.line),
                             "%s() writes output although none was asked for" % top.name)
                continue
            if len(ws) != 1 or ws[0][:2] != want[:2] or \
                    (want[2] is not None and ws[0][2] != want[2]):
                rep.viol("wrong-writer:%s" % what, "%s:%d" % (top.relfile, top.line),
                         "%s: a successful path of %s() writes %s instead of %s" % (
                             what, top.name,
                             " and ".join("%s as %s%s" % (w[0], w[1], {1: " (binary)", 0: " (text)"
                                          }.get(w[2], "")) for w in ws) or "nothing",
                             "%s as %s%s" % (want[0], want[1], {1: " (binary)", 0: " (text)"}
                                             .get(want[2], ""))))
        rep.sample("setting", "%s: %s" % (what, sorted(res)))

    for o, want in WANT.items():
        if o in got:
            for b in (0, 1):
                judge("--%s" % o, got[o], b, want)

    judge("no output asked for", 0, None, None)

    # file endings
    ends = endings(prog, rep, main, field, opts)
    for e, o in list(ENDINGS.items()) + [(".stl", None)]:
        if e not in ends:
            rep.viol("ending:%s" % e, main.relfile, "the file ending %s selects no format" % e)
            continue
        for v in ends[e]:
            for b, bo in ((binf[1].get("stl-txt"), "--stl-txt"),
                          (binf[1].get("stl-bin"), "--stl-bin")):
                want = WANT[o] if o else ("csg2", "stl", 1 if bo == "--stl-bin" else 0)
                judge("%s -o X%s" % (bo, e), v, b, want)
    for e in ends:
        if e not in ENDINGS and e != ".stl":
            rep.count("undocumented endings")
    rep.floor("settings explored", 20)


class Ends(InlineExplorer):
    carry = ("suf", "dump0")

    def inline(self, g, call):
        return g.key in self.shared["storers"]

    def call_outcomes(self, call, env):
        lits = []
        if call.type is not None and call.type.kind in ("bool", "int"):
            for a in call.args:
                for m in a.walk():
                    if m.k == "StringLiteral" and (m.raw.get("str") or "").startswith("."):
                        lits.append(m.raw["str"])
        if len(lits) == 1 and not self.shared["opts"](call):
            g = self.prog.resolve(call)
            cmp0 = (call.callee or "").startswith(("strcmp", "strcasecmp", "strncmp", "memcmp"))
            if g is not None and not cmp0:
                self.shared["calls"].append((g, call, lits[0]))
            yes, no = (0, ("ne", frozenset([0]))) if cmp0 else (1, 0)
            return [(no, {}), (yes, {("x", "suf"): lits[0]})]
        return super().call_outcomes(call, env)

    def on_element(self, n, env):
        if n.k == "BinaryOperator" and n.op == "=":
            l = n.ch[0].strip()
            p = path(n.ch[0])
            if l.k == "MemberExpr" and "." + l.name == self.shared["field"]:
                v = self.ev(n.ch[1], env)
                s = env.get(("x", "suf"))
                self.shared["stores"].append((self.f, n, s, v,
                                              env.get(norm(p)) if p else None))
        return True


def suffixes(prog, rep, calls):
    """is the test of a file ending one? (its texts are constants)"""
    lits = sorted({l for _, _, l in calls} | set(ENDINGS) | {".stl"})
    names = ["a" + l for l in lits] + lits + ["a" + l + "x" for l in lits] + \
        ["a" + l[:-1] for l in lits] + ["a" + l[1:] for l in lits] + \
        ["a" + l[:-1] + "x" for l in lits] + ["a" + l + ".b" for l in lits] + ["", "a"]
    done = set()
    for g, call, lit in calls:
        at = [i for i, a in enumerate(call.args) for m in a.walk() if m.k == "StringLiteral"]
        txt = [i for i, p in enumerate(g.params) if p.type.kind == "ptr" and
               p.type.to_t is not None and p.type.to_t.raw.get("sz") == 1]
        if (g.key, lit) in done or len(txt) != 2 or len(g.params) != 2 or at[0] not in txt:
            continue
        done.add((g.key, lit))
        for n in names:
            m = Texts(prog)
            try:
                ps = m.paths(g, [Ptr("str:" + lit, 0) if i == at[0] else Ptr("name", 0)
                                 for i in range(2)], lambda m: m.text("name", n))
            except Unsupported as e:
                raise Broken("cannot follow %s(): %s" % (g.name, e))
            vs = {p.ret.const() if isinstance(p.ret, P) else None for p in ps}
            if len(vs) != 1 or None in vs:
                raise Broken("%s() does not tell a file ending" % g.name)
            rep.count("file names tested for an ending")
            if bool(vs.pop()) != n.endswith(lit):
                rep.viol("suffix:%s:%s" % (g.key, lit), g.body.where(), "%s() says that the file "
                         "name '%s' %s in '%s'" % (g.name, n, "does not end" if n.endswith(lit)
                                                   else "ends", lit))
                break


def endings(prog, rep, main, field, opts):
    storers = set()
    handlers = {g.key for g, _ in opts.values() if g}
    for f in prog.functions.values():
        if f.key in handlers:
            continue
        if any(n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k == "MemberExpr" and
               "." + n.ch[0].strip().name == field[0] for n in f.body.walk()):
            storers.add(f.key)
    inl = callers_closure(prog, storers)
    sh = {"storers": inl - {"main"}, "field": field[0], "stores": [], "calls": [],
          "opts": lambda c: False}
    x = Ends(prog, main, sh)
    x.max_states = 20000
    x.run()
    suffixes(prog, rep, sh["calls"])
    res = {}
    # what options can ask for
    asked = set()
    for k in handlers:
        for n in prog.functions[k].body.walk():
            if n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k == "MemberExpr" and \
                    "." + n.ch[0].strip().name == field[0]:
                asked.add(n.ch[1].val if n.ch[1].val is not None else n.ch[1].strip().val)
    for f, n, s, v, old in sh["stores"]:
        if old is not None and old == v:
            continue
        if old != 0 and not (isinstance(old, int) and asked and None not in asked and old not in asked):
            rep.viol("%s:override" % f.key, n.where(), "%s() changes the output format although "
                     "one may have been asked for" % f.name)
        if s is not None:
            if isinstance(v, int):
                res.setdefault(s, set()).add(v)
            else:
                raise Broken("format stored at %s is not a constant" % n.where())
        elif v is not None:
            rep.count("format stores without ending")
    # table-driven: {".stl", DUMP_STL}
    for tu in prog.tus:
        if tu.path.endswith("main.c"):
            for gl in tu.globals:
                for m in gl.nodes:
                    if m.k == "InitListExpr":
                        ss = [c.strip().raw.get("str") for c in m.ch if c is not None and
                              c.strip().k == "StringLiteral"]
                        vs = [c.val for c in m.ch if c is not None and c.val is not None]
                        if len(ss) == 1 and len(vs) == 1 and (ss[0] or "").startswith("."):
                            res.setdefault(ss[0], set()).add(vs[0])
    rep.count("file endings found", len(res))
    return res
