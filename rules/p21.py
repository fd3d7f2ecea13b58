"""P21: every command line option has the effect its help promises."""
import re

from inline import InlineExplorer, reach, callers_closure
from flow import Env, path, norm, truth, block_of
from facts import Broken, fkey
from alg import Ptr, Unsupported
from alg import num as anum
from p30 import options
from point import Build
from textval import Texts

BOOLS = {None: 1, "true": 1, "1": 1, "yes": 1, "false": 0, "0": 0, "no": 0}
ERRS = {"error": ("error", "fail", "err"), "warn": ("warn", "warning"),
        "ignore": ("ignore", "ign")}
STRCMP = ("strcmp", "strcasecmp")


def feval(n):
    """constant value of an initialiser or assigned expression (float or int), or None"""
    if n is None:
        return None
    if n.val is not None:
        return n.val
    n = n.strip()
    if n is None:
        return None
    if n.val is not None:
        return n.val
    if n.k == "FloatingLiteral":
        return float(n.raw.get("fv"))
    if n.k == "UnaryOperator" and n.op in ("-", "+"):
        v = feval(n.ch[0])
        return None if v is None else (-v if n.op == "-" else v)
    if n.k == "BinaryOperator" and n.op in ("+", "-", "*", "/"):
        a, b = feval(n.ch[0]), feval(n.ch[1])
        if a is None or b is None or (n.op == "/" and b == 0):
            return None
        return {"+": a + b, "-": a - b, "*": a * b, "/": a / b if b else 0}[n.op]
    if n.k in ("ParenExpr",):
        return feval(n.ch[0])
    if n.k == "ImplicitValueInitExpr":
        return 0
    return None


def fields_of(p, tu):
    """access path without dereferences: ('.csg','.max_fn') or ('@global',)"""
    r = tuple(x for x in p[1:] if x not in ("*", "&"))
    return r


class Handler(InlineExplorer):
    """runs an option handler on one argument text"""
    writeback = True
    carry = ("strp",)

    def inline(self, g, call):
        return g.relfile.endswith((".c", ".inc")) and len(g.blocks) < 60

    def entering(self, call, env, child, seed):
        # which parameter of the callee is the argument text
        for k in [k for k in seed if k[0] == "x" and k[1] == "strp"]:
            del seed[k]
        for i, a in enumerate(call.args):
            if i < len(child.f.raw["params"]) and self.is_text(a, env):
                seed[("x", "strp")] = child.f.raw["params"][i]

    def is_text(self, n, env):
        s = n.strip()
        return s is not None and s.k == "DeclRefExpr" and \
            env.get(("x", "strp")) == s.decl.i

    def xs(self, env):
        return {}

    def keep_over_call(self, call, k):
        # settings only change in callees that get their address (those are followed)
        d = self.f.tu.decls[k[0]]
        if d.raw["k"] in ("parm", "local"):
            if not any(path(a) is not None and norm(path(a))[:1] == k[:1] for a in call.args):
                return True
            g = self.prog.resolve(call)
            if g is not None and self.inline(g, call):
                return True
        return super().keep_over_call(call, k)

    def call_outcomes(self, call, env):
        lit = None
        text = False
        for a in call.args:
            s = a.strip()
            if s is None:
                continue
            if s.k == "StringLiteral":
                lit = s.raw.get("str")
            elif self.is_text(a, env):
                text = True
        if lit is not None and text and len(call.args) == 2 and self.shared["text"] is not None:
            eq = lit == self.shared["text"]
            if call.callee in STRCMP:
                return [(0 if eq else ("ne", frozenset([0])), {})]
            g = self.prog.resolve(call)
            if call.type is not None and call.type.kind == "bool" and \
                    (g is None or any(c.callee in STRCMP for c in g.calls())):
                return [(int(eq), {})]
        g = self.prog.resolve(call)
        if g is not None and self.idepth < self.MAX_INLINE and self.inline(g, call):
            r = super().call_outcomes(call, env)
            # the text parameter belongs to this function
            return [(v, {k: w for k, w in d.items() if k[0] != "x"}) for v, d in r]
        return None


def apply(prog, g, text, state):
    """settings after the handler ran on text: list of dicts, [] when it never returns"""
    if len(g.raw["params"]) != 3:
        raise Broken("option handler %s has unexpected parameters" % g)
    x = Handler(prog, g, {"text": text})
    o = g.raw["params"][0]
    a = g.raw["params"][2]
    env = Env({(o,) + k: v for k, v in state.items() if isinstance(v, int)})
    env.set((a,), 0 if text is None else ("ne", frozenset([0])))
    env.set(("x", "strp"), a)
    ends = []

    def out(val, e):
        ends.append({k[1:]: v for k, v in e.m.items() if k[0] == o and len(k) > 1})
    x.out = out
    x.run(env=env)
    return ends


def written(prog, g):
    """locations a handler (or what it calls) sets: {key: (node, mask)}
    key = (record, field) or ('@', global)"""
    r = {}
    exits = False

    def loc(n):
        n = n.strip()
        if n.k == "MemberExpr":
            b = n.ch[0]
            t = b.type
            rec = t.ptr_rec() if n.raw.get("arrow") else t.rec
            return (rec, n.name)
        if n.k == "DeclRefExpr" and n.decl.raw["k"] == "global":
            return ("@", n.decl.name)
        return None
    for n in g.body.walk():
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and \
                (n.op == "=" or n.k == "CompoundAssignOperator"):
            k = loc(n.ch[0])
            if k:
                m = 0
                for q in n.ch[1].walk():
                    if q.k == "BinaryOperator" and q.op == "|" and q.ch[1].val is not None:
                        m |= q.ch[1].val
                if n.op == "|=" and n.ch[1].val is not None:
                    m |= n.ch[1].val
                r[k] = (n, (r.get(k, (0, 0))[1] | m))
        elif n.k == "UnaryOperator" and n.op in ("++", "--"):
            k = loc(n.ch[0])
            if k:
                r[k] = (n, 0)
        elif n.k == "CallExpr":
            h = prog.resolve(n)
            d = n.fn
            if d is not None and (d.raw.get("nr") or (h is not None and noreturn(h))):
                exits = True
            for i, a in enumerate(n.args):
                s = a.strip()
                if s.k == "UnaryOperator" and s.op == "&" and a.type.to_t is not None and \
                        not a.type.to_t.raw.get("const"):
                    k = loc(s.ch[0])
                    if k:
                        r.setdefault(k, (n, 0))
    return r, exits


def noreturn(g):
    from flow import reachable
    return g.exit.id not in reachable(g)


def readers(prog, handlers):
    """(record, field) / ('@', global) -> mask of bits somebody looks at (None: all)"""
    live = reach(prog)
    r = {}
    for k in live:
        f = prog.functions[k]
        if f.key in handlers:
            continue
        for n in f.body.walk():
            if n.k == "MemberExpr":
                b = n.ch[0]
                rec = b.type.ptr_rec() if n.raw.get("arrow") else b.type.rec
                key = (rec, n.name)
            elif n.k == "DeclRefExpr" and n.decl.raw["k"] == "global":
                key = ("@", n.decl.name)
            else:
                continue
            p = n.par
            if p is not None and p.k == "BinaryOperator" and p.op == "=" and p.ch[0] is n:
                continue
            mask = None
            q, pp = n, p
            while pp is not None and pp.k in ("ImplicitCastExpr", "CStyleCastExpr"):
                q, pp = pp, pp.par
            if pp is not None and pp.k == "BinaryOperator" and pp.op == "&":
                o = pp.ch[1] if pp.ch[0] is q else pp.ch[0]
                mask = o.val
            if key in r and (r[key] is None or mask is None):
                r[key] = None
            elif key in r:
                r[key] |= mask
            else:
                r[key] = mask
    return r


def initial(prog, handlers):
    """settings before the command line is looked at: {field path: constant}"""
    main = prog.fn("main")
    table = set()
    for f in prog.functions.values():
        for n in f.body.walk():
            if n.k == "DeclRefExpr" and n.decl.name == "opt_list":
                table.add(f.key)
    if not table:
        raise Broken("nobody looks at the option table")
    cl = callers_closure(prog, table)
    bo = block_of(main)
    parse = [c for c in main.calls() if prog.resolve(c) is not None and prog.resolve(c).key in cl]
    if not parse:
        raise Broken("main does not parse options")
    after = set()
    st = [bo[c.i][0] for c in parse if c.i in bo]
    while st:
        b = st.pop()
        for s in b.succs:
            if s is not None and s.id not in after:
                after.add(s.id)
                st.append(s)
    pb = {bo[c.i][0].id for c in parse if c.i in bo}
    # the variable that holds the settings: its address goes to the parser
    root = None
    for c in parse:
        for a in c.args:
            p = path(a)
            if p is not None and norm(p)[-1] == "&" and len(norm(p)) == 2 and \
                    main.tu.decls[p[0]].type.kind == "rec":
                root = p[0]
            elif p is not None and len(p) == 1 and a.type.kind == "ptr" and a.type.ptr_rec():
                root = root if root is not None else p[0]
    if root is None:
        raise Broken("main has no settings object")
    res = {}
    glob = {}

    def init_list(n, pre, tu):
        n = n.strip()
        if n is None:
            return
        if n.k == "CompoundLiteralExpr":
            n = n.ch[0]
        if n.k == "InitListExpr" and n.type.kind == "rec":
            r = tu.records.get(n.type.rec)
            for fd, c in zip(r["f"], n.ch):
                if c is None:
                    continue
                q = pre + ("." + fd["n"],)
                v = feval(c)
                if v is not None and c.strip().k != "InitListExpr":
                    res[q] = v
                else:
                    init_list(c, q, tu)

    def scan(f, root, ok):
        for b in sorted(f.blocks.values(), key=lambda b: -b.id):
            if not ok(b):
                continue
            for n in b.elems:
                if n.k == "DeclStmt":
                    for di, ini in n.raw["ds"]:
                        if di == root and ini >= 0:
                            init_list(f.nodes[ini], (), f.tu)
                elif n.k == "BinaryOperator" and n.op == "=":
                    p = path(n.ch[0])
                    if p is None:
                        continue
                    p = norm(p)
                    if p[0] == root:
                        v = feval(n.ch[1])
                        k = fields_of(p, f.tu)
                        if v is not None:
                            res[k] = v
                        elif k == ():
                            init_list(n.ch[1], (), f.tu)
                        else:
                            res[k] = "?"
                elif n.k == "CallExpr":
                    g = prog.resolve(n)
                    if g is not None and g.key not in handlers and g.key not in cl and \
                            g is not f and g.file == main.file:
                        for i, a in enumerate(n.args):
                            p = path(a)
                            if p is not None and norm(p) in ((root, "&"), (root,)) and \
                                    i < len(g.raw["params"]):
                                scan(g, g.raw["params"][i], lambda b: True)
    scan(main, root, lambda b: b.id not in after or b.id not in pb and b.id not in after)
    for tu in prog.tus:
        for gl in tu.globals:
            v = feval(gl.init)
            if v is not None:
                glob.setdefault(gl.name, v)
    return res, glob


def help_text(prog):
    s = prog.incs.get("opt.inc")
    if s is None:
        raise Broken("no option table was generated")
    m = re.search(r'opt_help\s*=(.*?)"";', s, re.S)
    if not m:
        raise Broken("no help text in the option table")
    return m.group(1)


def documented(prog):
    """[(names, text)]"""
    res = []
    cond = 0
    for line in help_text(prog).split("\n"):
        line = line.strip()
        if line.startswith("#if"):
            cond += 1
            continue
        if line.startswith("#endif"):
            cond -= 1
            continue
        if cond:
            continue
        m = re.match(r'"    --(\S+?)(=ARG)?\\n"', line)
        if m:
            if not res or res[-1][1]:
                res.append(([], []))
            res[-1][0].append(m.group(1))
            continue
        m = re.match(r'"        (.*)\\n"$', line)
        if m and res:
            t = re.sub(r'"\s*CP_STRINGIFY\((\w+)\)\s*"', lambda k: "@" + k.group(1) + "@",
                       m.group(1))
            res[-1][1].append(t)
    return [(n, " ".join(t)) for n, t in res]


def macro_value(prog, name):
    import glob as g
    for p in g.glob(prog.repo + "/include/*/*.h"):
        m = re.search(r"^#\s*define\s+%s\s+(\S+)" % re.escape(name), open(p).read(), re.M)
        if m:
            return m.group(1)
    return None


def num(s):
    try:
        return float.fromhex(s) if "x" in s.lower() else float(s)
    except ValueError:
        return None


def lookup(prog, rep, opts, dn, handlers):
    """is each documented option found, and gets its value?"""
    main = prog.fn("main")
    tab = {}

    def uses(g, seen):
        if g.key not in tab:
            tab[g.key] = False
            tab[g.key] = any(n.k == "DeclRefExpr" and n.decl.name == "opt_list"
                             for n in g.body.walk()) or any(
                prog.resolve(c) is not None and prog.resolve(c).key not in handlers and
                uses(prog.resolve(c), seen) for c in g.calls())
        return tab[g.key]

    def kind(t):
        if t.kind == "ptr":
            u = t.to_t
            if u is not None and u.kind == "ptr":
                return "argv"
            if u is not None and u.kind == "int":
                return "text" if u.raw.get("sz") == 1 else "&i"
            return "rec"
        return "argc" if t.kind == "int" else None
    fs = {g.key: g for g in (prog.resolve(c) for c in main.calls()) if g is not None and
          uses(g, ()) and any(kind(p.type) == "argv" for p in g.params)}
    if len(fs) != 1:
        raise Broken("the function that reads an option was not found")
    (f,) = fs.values()
    if [kind(p.type) for p in f.params].count("argv") != 1 or \
            any(kind(p.type) in (None, "text") for p in f.params):
        raise Broken("%s() has unexpected parameters" % f.name)
    arg = set(re.findall(r'"    --(\S+?)=ARG\\n"', help_text(prog)))
    known = set(opts)

    def ask(argv):
        """[(handler, text of its value, how far it went)] or [] if refused"""
        got = []

        def on_call(e):
            if e.f is not None and e.f.key in handlers:
                got.append((e.f, e.args))
        m = Texts(prog, on_call, opaque=set(handlers))

        def setup(m):
            del got[:]
            for i, p in enumerate(f.params):
                if kind(p.type) == "rec":
                    Build(prog, m).rec("p%d" % i, 1 << 14)
            for i, t in enumerate(["hob3l"] + argv):
                m.mem["argv", 8 * i] = m.text("argv%d" % i, t)
            m.mem["argv", 8 * len(argv) + 8] = Ptr(None, 0)
            m.mem["i", 0] = anum(1)
        ints = {"argc": anum(len(argv) + 1), "&i": Ptr("i", 0), "argv": Ptr("argv", 0)}
        try:
            ps = m.paths(f, [ints.get(kind(p.type)) or Ptr("p%d" % i, 0)
                             for i, p in enumerate(f.params)], setup)
            if len(ps) > 1:
                raise Broken("%s() does not determine the option" % f.name)
            if not ps:
                return None, None, None
            if len(got) != 1:
                return False, None, None
            (g, a), = got
            t = [x for x in a[1:] if isinstance(x, Ptr)]
            t = m.read(t[-1]).decode() if t and t[-1].obj is not None else None
            i = ps[0].mem.get(("i", 0))
            return g, t, int(i.const()) if i is not None else 1
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s %s" % (f.name, e, m.unsup))

    def judge(n, argv, text, used):
        rep.count("command lines followed to the handler")
        g, t, i = ask(argv)
        what = " ".join(argv[:2 if text is not None and used == 2 else 1])
        if not g:
            rep.viol("not-found:%s" % n, f.body.where(), "%s is %s" % (
                what, "refused" if g is None else "ignored"))
        elif g.key != opts[n][0].key:
            rep.viol("wrong-handler:%s" % n, f.body.where(), "%s is handled by %s()" % (
                what, g.name))
        elif t != text or (i != used and "&i" in [kind(p.type) for p in f.params]):
            rep.viol("value:%s" % n, f.body.where(), "%s: the option gets %s and %d argument(s) "
                     "of the command line, but should get %s and %d" % (
                         what, "the value '%s'" % t if t is not None else "no value", i,
                         "'%s'" % text if text is not None else "no value", used))

    def refuse(n, argv):
        rep.count("command lines to be refused")
        g, t, i = ask(argv)
        if g:
            rep.viol("accepted:%s" % n, f.body.where(), "%s is accepted (by %s())" % (
                " ".join(argv), g.name))
    for n in sorted(dn):
        if n not in opts or opts[n][0] is None:
            continue
        if n in arg:
            judge(n, ["--%s=7.5" % n, "x.scad"], "7.5", 1)
            judge(n, ["--%s" % n, "7.5", "x.scad"], "7.5", 2)
            judge(n, ["--%s=a=b" % n], "a=b", 1)
            refuse(n, ["--%s" % n])
        else:
            judge(n, ["--%s" % n, "x.scad"], None, 1)
            if opts[n][1] == 1:
                judge(n, ["--%s=no" % n, "x.scad"], "no", 1)
        for k in (n[:-1], n + "x", n + "-", "x" + n, n.upper()):
            if k and k not in known and not k.startswith("-"):
                refuse(k, ["--" + k + ("=1" if n in arg else ""), "x.scad"])
    rep.floor("command lines followed to the handler", 80)
    rep.floor("command lines to be refused", 100)


def run(prog, rep):
    rep.rule("effect: some setting (or bit of it) that the option's handler stores is read by "
             "code reachable from main outside the option handlers")
    rep.rule("values: for every documented spelling of a truth value or treatment the handler "
             "(explored with the argument text fixed) stores the value of that spelling; an "
             "option and its 'no-' form store opposite values")
    rep.rule("defaults: the number or word after 'default:' in the help text is the value the "
             "setting has before the command line is read")
    rep.rule("lookup: the option table holds exactly the documented options; the function that "
             "reads an option of the command line is followed with the name of each of them (and "
             "of near misses) as a constant, through the search of the table: it must call the "
             "option's handler, with the value that was given, or refuse")
    opts = options(prog)
    handlers = {g.key for g, _ in opts.values() if g is not None}
    names = list(opts)
    docs = documented(prog)
    dn = {n for ns, _ in docs for n in ns}
    for n in sorted(dn - set(names)):
        rep.viol("not-in-table:%s" % n, "src/hob3l/opt.switch", "--%s is documented but not in "
                 "the option table" % n)
    for n in sorted(set(names) - dn):
        if opts[n][0] is not None and opts[n][0].exit is not None and trivially_empty(opts[n][0]):
            continue     # compiled out
        rep.viol("undocumented:%s" % n, "src/hob3l/opt.switch", "--%s is not in the help" % n)
    rd = readers(prog, handlers)
    init, glob = initial(prog, handlers)
    rep.count("settings with a known initial value", len(init))

    def state():
        return {k: v for k, v in init.items() if isinstance(v, int)}

    lookup(prog, rep, opts, dn, handlers)

    # effect
    where = {}
    for n in names:
        g = opts[n][0]
        if g is None or n not in dn:
            continue
        rep.count("options")
        w, exits = written(prog, g)
        # helper calls that get the settings object
        for c in g.calls():
            h = prog.resolve(c)
            if h is not None and h.key not in handlers and h.relfile.endswith(("main.c", ".inc")):
                if noreturn(h):
                    exits = True
                for i, a in enumerate(c.args):
                    p = path(a)
                    if p is not None and p == (g.raw["params"][0],):
                        w.update(written(prog, h)[0])
        where[n] = w
        ok = exits and not w
        for k, (nd, mask) in w.items():
            if k in rd and (rd[k] is None or not mask or (mask & rd[k])):
                ok = True
        if not ok:
            base = re.sub(r"(^|-)no-", r"\1", n)
            rep.viol("no-effect:%s" % base, "%s:%d" % (g.relfile, g.line),
                     "--%s: nothing in the program looks at the setting it changes (%s)" % (
                         n, ", ".join("%s.%s" % k for k in w) or "none"))

    # the setting an option's argument goes to belongs to that option (and its no- form) only
    text_of = {n: t for ns, t in docs for n in ns}
    owner = {}
    for n in names:
        g = opts[n][0]
        if g is None or n not in dn or not opts[n][1]:
            continue
        base = re.sub(r"(^|-)no-", r"\1", n)
        for c in g.calls():
            if not any(path(a) == (g.raw["params"][2],) for a in c.args):
                continue
            for a in c.args:
                s = a.strip()
                if s.k == "UnaryOperator" and s.op == "&":
                    m = s.ch[0].strip()
                    p = path(m)
                    if p is None or g.tu.decls[p[0]].raw["k"] == "local":
                        continue
                    k = ("@", g.tu.decls[p[0]].name) if len(p) == 1 else fields_of(p, g.tu)
                    o = owner.setdefault(k, {})
                    o.setdefault(base, (n, g))
        rep.count("options with an argument")
    for k, o in owner.items():
        fam = sorted(o)
        for b in fam[1:]:
            a = fam[0]
            if any("--%s" % x in text_of.get(o[y][0], "") for x, y in ((a, b), (b, a))):
                continue
            rep.viol("shared-setting:%s:%s" % (a, b), "%s:%d" % (o[b][1].relfile, o[b][1].line),
                     "--%s and --%s set the same setting (%s)" % (a, b, "".join(k)))

    # values
    def result(n, text, st):
        g = opts[n][0]
        rs = apply(prog, g, text, st)
        out = set()
        for r in rs:
            full = dict(st)
            full.update({k: v for k, v in r.items()})
            out.add(tuple(sorted((k, v) for k, v in full.items()
                                 if isinstance(v, int) and v != st.get(k, "-"))))
        return out, rs

    def setting(n):
        """field path the option sets (a plain or nested field), found from two runs"""
        g = opts[n][0]
        ks = set()
        for t in ("true", "false", None, "error", "ignore"):
            for r in apply(prog, g, t, {}):
                ks |= set(r)
        return ks

    boolish, errish = [], []
    for n in names:
        g = opts[n][0]
        if g is None or n not in dn:
            continue
        if opts[n][1] == 1:
            boolish.append(n)
        elif calls_text(prog, g, "ignore"):
            errish.append(n)
    base = {}
    vals = {}
    for n in boolish:
        rep.count("truth-valued options")
        per = {}
        for t, b in BOOLS.items():
            rs = apply(prog, opts[n][0], t, state())
            # settings that changed or were set to constants
            fin = set()
            for r in rs:
                fin.add(tuple(sorted((k, v) for k, v in r.items() if k and isinstance(v, int))))
            if len(fin) != 1:
                rep.viol("bool-text:%s:%s" % (n, t), "%s:%d" % (opts[n][0].relfile, opts[n][0].line),
                         "--%s=%s: %s" % (n, t, "is not accepted" if not fin else
                                          "does not determine the setting"))
                continue
            per[t] = fin.pop()
        on = {per[t] for t in per if BOOLS[t]}
        off = {per[t] for t in per if not BOOLS[t]}
        vals[n] = (on, off)
        if per and (len(on) != 1 or len(off) != 1):
            rep.viol("bool-spelling:%s" % n, "%s:%d" % (opts[n][0].relfile, opts[n][0].line),
                     "--%s: spellings of the same truth value give different settings" % n)
        elif on == off:
            rep.viol("bool-same:%s" % n, "%s:%d" % (opts[n][0].relfile, opts[n][0].line),
                     "--%s has the same effect with yes and no" % n)
        rep.count("option texts explored", len(per))
    for n in boolish:
        b = re.sub(r"(^|-)no-", r"\1", n)
        if b == n:
            continue
        if b not in vals:
            rep.viol("no-positive:%s" % n, opts[n][0].relfile, "--%s has no positive form" % n)
            continue
        rep.count("option pairs")
        if vals[n][0] != vals[b][1] or vals[n][1] != vals[b][0]:
            rep.viol("not-opposite:%s" % n, "%s:%d" % (opts[b][0].relfile, opts[b][0].line),
                     "--%s and --%s are not opposites: %s / %s" % (n, b, show(vals[n]),
                                                                   show(vals[b])))
    errval = {}
    for n in errish:
        rep.count("treatment options")
        got = {}
        for canon, sp in ERRS.items():
            vs = set()
            for t in sp:
                rs = apply(prog, opts[n][0], t, {})
                fin = {tuple(sorted((k, v) for k, v in r.items() if isinstance(v, int)))
                       for r in rs}
                if len(fin) != 1:
                    rep.viol("treat-text:%s:%s" % (n, t), "%s:%d" % (opts[n][0].relfile,
                                                                    opts[n][0].line),
                             "--%s=%s is not accepted" % (n, t))
                vs |= fin
                rep.count("option texts explored")
            got[canon] = vs
        enum = {}
        for en, items in prog.enums.items():
            for a, v in items:
                enum.setdefault(a, v)
        for canon, c in (("error", "CP_ERR_FAIL"), ("warn", "CP_ERR_WARN"),
                         ("ignore", "CP_ERR_IGNORE")):
            if c not in enum:
                v = num(macro_value(prog, c) or "")
                if v is None:
                    raise Broken("%s is not defined" % c)
                enum[c] = int(v)
            for fin in got[canon]:
                v = {x for _, x in fin}
                if c in enum and v != {enum[c]}:
                    rep.viol("treat-value:%s:%s" % (n, canon),
                             "%s:%d" % (opts[n][0].relfile, opts[n][0].line),
                             "--%s=%s stores %s instead of %s" % (n, canon, v, c))
                errval.setdefault(canon, enum.get(c))
    rep.floor("truth-valued options", 8)
    rep.floor("treatment options", 5)
    rep.floor("options", 40)

    # defaults
    for ns, text in docs:
        m = re.search(r"[Dd]efault:\s*([^),.\s]+(?:\.\d+)?( not)?)", text)
        if not m or not ns or ns[0] not in opts or opts[ns[0]][0] is None:
            continue
        word = m.group(1)
        if word.startswith("@"):
            word = macro_value(prog, word.strip("@")) or word
        g = opts[ns[0]][0]
        if word in ("do", "do not"):
            neg = [n for n in ns if re.search(r"(^|-)no-", n)]
            if not neg or neg[0] not in vals:
                continue
            g = opts[neg[0]][0]
            rs = apply(prog, g, None, state())
            st = state()
            same = all(all(st.get(k, 0) == v for k, v in r.items() if isinstance(v, int))
                       for r in rs)
            rep.count("documented defaults compared")
            if same != (word == "do not"):
                rep.viol("default:%s" % neg[0], "%s:%d" % (g.relfile, g.line),
                         "--%s: the help says the default is to '%s', which is not what the "
                         "initial settings do" % (neg[0], word))
            continue
        targets = [(k, nd) for k, (nd, _) in where.get(ns[0], {}).items()]
        direct = None
        for c in g.calls():
            for a in c.args:
                s = a.strip()
                if s.k == "UnaryOperator" and s.op == "&":
                    direct = direct or s.ch[0]
        if direct is None:
            continue
        p = path(direct)
        if p is None:
            continue
        if len(p) == 1 and g.tu.decls[p[0]].raw["k"] == "global":
            have = glob.get(g.tu.decls[p[0]].name, 0)
        elif p[0] == g.raw["params"][0]:
            have = init.get(fields_of(norm(p), g.tu), 0)
        else:
            continue
        if word in ERRS and ns[0] in errish:
            rep.count("documented defaults compared")
            if have != errval.get(word):
                rep.viol("default:%s" % ns[0], "%s:%d" % (g.relfile, g.line),
                         "--%s: documented default '%s', initial value %s" % (ns[0], word, have))
            continue
        v = num(word)
        if v is None or have == "?":
            continue
        if ns[0] == "gran":
            # the reciprocal of --grid's setting
            k = where.get("grid", {})
            for kk in k:
                if kk[0] == "@":
                    have = 1.0 / glob.get(kk[1], 1)
        rep.count("documented defaults compared")
        if abs(float(have) - v) > 1e-9 * max(abs(v), 1e-12):
            rep.viol("default:%s" % ns[0], "%s:%d" % (g.relfile, g.line),
                     "--%s: documented default %s, initial value %s" % (ns[0], word, have))
        rep.sample("default", "--%s %s = %s" % (ns[0], word, have))
    rep.floor("documented defaults compared", 12)


def show(v):
    return "/".join("".join(k[-1]) + "=" + str(x) for s in v for t in s for k, x in t)


def trivially_empty(g):
    return not any(n.k in ("CallExpr", "BinaryOperator") for n in g.body.walk())


def calls_text(prog, g, text):
    for c in g.calls():
        h = prog.resolve(c)
        if h is not None and any(n.k == "StringLiteral" and n.raw.get("str") == text
                                 for n in h.body.walk()):
            return True
    return False
