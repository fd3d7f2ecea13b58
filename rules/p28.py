"""P28: every number that enters from text or binary input is checked to be in range before
it leaves the reading step."""
from ctx import CtxExplorer
from flow import Env, path, norm, truth
from facts import Broken

FLOAT_SRC = {"strtod", "strtof", "strtold", "atof"}
INT_SRC = {"strtol", "strtoll", "strtoul", "strtoull", "strtoimax", "strtoumax"}
UNCHECKABLE = {"atoi", "atol", "atoll"}
NAN, PINF, NINF, RANGE = 1, 2, 4, 8
ANY = NAN | PINF | NINF


def is_float(t):
    return t is not None and t.kind == "float"


def fabs_arg(n):
    n = n.strip()
    if n.k == "CallExpr" and n.callee in ("fabs", "fabsf", "fabsl", "__builtin_fabs") and n.args:
        return n.args[0].strip()
    return None


class Num(CtxExplorer):
    def __init__(self, db, f):
        super().__init__(db.prog, f)
        self.db = db
        self.leaks = {}      # (param index, suffix) or 'ret' -> (bits, site)
        self.bad = {}
        self.ok = 0

    # taint state: ("x","t",path) -> (bits, source node index)
    def taint_of(self, n, env):
        bits, src = 0, None
        st = [n]
        while st:
            m = st.pop()
            if m is None:
                continue
            s = self.src_bits(m, env)
            if s:
                bits |= s
                src = m.i
            if m.k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "UnaryOperator"):
                p = path(m)
                if p is not None:
                    t = env.get(("x", "t", norm(p)))
                    if t:
                        bits |= t[0]
                        src = t[1]
                    if m.k != "UnaryOperator":
                        continue
            if m.k == "CallExpr" and m.type is not None and m.type.kind in ("bool", "void"):
                continue
            if m.k == "BinaryOperator" and m.op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                continue
            st.extend(m.ch)
        return (bits, src) if bits else None

    def src_bits(self, m, env):
        if m.k != "CallExpr":
            return 0
        if m.callee in FLOAT_SRC:
            return ANY
        if m.callee in INT_SRC:
            return RANGE
        if m.callee in UNCHECKABLE:
            return RANGE
        g = self.prog.resolve(m)
        if g is not None:
            l = self.db.leaks.get(g.key, {}).get("ret")
            if l:
                return l[0]
        return 0

    def set_path(self, p, t, env):
        p = norm(p)
        for k in [k for k in env.m if k[0] == "x" and k[1] == "t" and k[2][:len(p)] == p]:
            del env.m[k]
        for k in [k for k in env.m if k[:2] == ("x", "eq") and
                  (k[2][:len(p)] == p or k[3][:len(p)] == p)]:
            del env.m[k]
        if t:
            env.set(("x", "t", p), t)

    def copied(self, p, n, env):
        """the place p now has the same value as the one that n reads"""
        m = n.strip()
        q = path(m) if m.k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") or \
            m.k == "UnaryOperator" and m.op == "*" else None
        if p is not None and q is not None and env.get(("x", "t", norm(q))) and norm(p) != norm(q):
            env.set(("x", "eq", norm(p), norm(q)), 1)

    def on_element(self, n, env):
        if n.k == "BinaryOperator" and n.op == "=":
            p = path(n.ch[0])
            if p is not None:
                self.set_path(p, self.taint_of(n.ch[1], env), env)
                self.copied(p, n.ch[1], env)
            elif self.taint_of(n.ch[1], env) and not self.is_errno(n.ch[0]):
                self.report(n, env, self.taint_of(n.ch[1], env), "a place the analysis "
                            "cannot follow")
        elif n.k == "CompoundAssignOperator":
            t = self.taint_of(n.ch[1], env)
            p = path(n.ch[0])
            if t and p is not None:
                o = env.get(("x", "t", norm(p)))
                env.set(("x", "t", norm(p)), (t[0] | (o[0] if o else 0), t[1]))
        elif n.k == "DeclStmt":
            for di, ini in n.raw["ds"]:
                self.set_path((di,), self.taint_of(self.f.nodes[ini], env) if ini >= 0 else None,
                              env)
                if ini >= 0:
                    self.copied((di,), self.f.nodes[ini], env)
        elif n.k == "CallExpr":
            self.call(n, env)
        return True

    def is_errno(self, n):
        return any(c.k == "CallExpr" and c.callee == "__errno_location" for c in n.walk())

    def call(self, n, env):
        g = self.prog.resolve(n)
        if n.callee in FLOAT_SRC | INT_SRC | UNCHECKABLE:
            self.db.sites.add((self.f.key, n.i))
        # raw bytes written over a floating object
        for i, a in enumerate(n.args):
            s = a.strip()
            if a.type is None or a.type.kind != "ptr" or s.type is None or s.type.kind != "ptr":
                continue
            to, frm = a.type.to_t, s.type.to_t
            if frm is not None and is_float(frm) and to is not None and not is_float(to) and \
                    not self.const_param(n, i):
                p = path(s)
                self.db.sites.add((self.f.key, n.i))
                if p is not None:
                    self.set_path(p + ("*",), (ANY, n.i), env)
        elif_bool = n.type is not None and n.type.kind == "bool"
        if (g is not None or n.fn is None) and not elif_bool:
            for a in n.args:
                if a.type is None:
                    continue
                t = None
                if a.type.kind == "float":
                    t = self.taint_of(a, env)
                elif a.type.kind == "ptr":
                    p = path(a)
                    if p is not None and p[-1] == "&":
                        p = norm(p)[:-1]
                        for k in env.m:
                            if k[0] == "x" and k[1] == "t" and k[2][:len(p)] == p:
                                t = env.m[k]
                if t and t[1] != n.i:
                    self.report(n, env, t, "what %s() gets" % (n.callee or "a callback"))
        if g is not None and g.key in self.db.leaks:
            for k, (bits, _) in self.db.leaks[g.key].items():
                if k == "ret":
                    continue
                i, suf = k
                if i < len(n.args):
                    p = path(n.args[i])
                    if p is not None:
                        self.set_path(p + suf, (bits, n.i), env)
                    else:
                        self.report(n, env, (bits, n.i), "an argument the analysis cannot follow")

    def const_param(self, n, i):
        d = n.fn
        if d is None or d.type is None or d.type.kind != "fun":
            return False
        ps = d.type.raw.get("params", ())
        if i >= len(ps):
            return True
        t = d.type.tu.types[ps[i]]
        return t.kind == "ptr" and t.to_t is not None and bool(t.to_t.raw.get("const"))

    def clear(self, n, bits, env):
        n = n.strip() if n is not None else None
        if n is None:
            return
        p = path(n)
        if p is None:
            return
        todo, seen = [norm(p)], set()
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            self.clear_place(q, bits, env)
            todo += [k[3] if k[2] == q else k[2] for k in env.m
                     if k[:2] == ("x", "eq") and q in k[2:]]

    def clear_place(self, p, bits, env):
        k = ("x", "t", p)
        t = env.get(k)
        if t:
            r = t[0] & ~bits
            if r:
                env.set(k, (r, t[1]))
            else:
                env.m.pop(k, None)
                self.ok += 1
                self.db.checked.add((self.f.key, t[1]))

    def assume(self, n, t, env):
        ok = super().assume(n, t, env)
        if not ok or n is None:
            return ok
        m = n.strip()
        if m.k == "CallExpr" and m.args:
            c = m.callee or ""
            if "isfinite" in c or c in ("finite", "finitef"):
                if t:
                    self.clear(m.args[0], ANY, env)
            elif "isnan" in c:
                if not t:
                    self.clear(m.args[0], NAN, env)
            elif "isinf" in c:
                if not t:
                    self.clear(m.args[0], PINF | NINF, env)
            elif "isnormal" in c:
                if t:
                    self.clear(m.args[0], ANY, env)
            else:
                g = self.prog.resolve(m)
                if g is not None:
                    for i, a in enumerate(m.args):
                        p = path(a)
                        if p is None:
                            continue
                        for suf in ((), ("*",)):
                            tk = env.get(("x", "t", norm(p + suf)))
                            if tk and tk[1] != m.i and self.db.sanitizes(g, i, suf, t, tk[0]):
                                env.m.pop(("x", "t", norm(p + suf)), None)
                                self.db.checked.add((self.f.key, tk[1]))
        elif m.k == "BinaryOperator" and m.op in ("<", "<=", ">", ">=", "==", "!="):
            a, b = m.ch
            op = m.op
            for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
                                         .get(op, op))):
                fa = fabs_arg(x)
                z = fa if fa is not None else x.strip()
                if o in ("<", "<="):
                    if t:
                        self.clear(z, NAN | PINF | (NINF if fa is not None else 0), env)
                    else:
                        self.clear(z, NINF if fa is None else 0, env)
                elif o in (">", ">="):
                    if t:
                        self.clear(z, NAN | NINF, env)
                    else:
                        self.clear(z, PINF | (NINF if fa is not None else 0), env)
                elif path(x.strip()) is not None and path(x.strip()) == path(y.strip()):
                    if (o == "==") == t:
                        self.clear(z, NAN, env)
                # integer sources: errno consulted, or compared with a limit
                if o in ("==", "!=") and self.is_errno(x):
                    bad_val = y.strip().val
                    if (o == "!=") == t or (bad_val == 0 and (o == "==") == t):
                        for k in [k for k in env.m if k[0] == "x" and k[1] == "t"]:
                            bits, s = env.m[k]
                            r = bits & ~RANGE
                            self.db.checked.add((self.f.key, s))
                            if r:
                                env.m[k] = (r, s)
                            else:
                                del env.m[k]
            if a.strip().val is not None or b.strip().val is not None:
                # an upper limit below the type's maximum rejects a saturated value
                for x, c, o in ((a, b.val, op), (b, a.val, {"<": ">", ">": "<", "<=": ">=",
                                                            ">=": "<="}.get(op, op))):
                    if c is None:
                        continue
                    if (o in ("<", "<=") and t) or (o in (">", ">=") and not t):
                        self.clear(x, RANGE, env)
        if m.k != "BinaryOperator" and self.is_errno(m) and not t:
            for k in [k for k in env.m if k[0] == "x" and k[1] == "t" and env.m[k][0] == RANGE]:
                self.db.checked.add((self.f.key, env.m[k][1]))
                del env.m[k]
        return ok

    def leave_fn(self, n, env, val):
        for k, t in list(env.m.items()):
            if k[0] != "x" or k[1] != "t":
                continue
            p = k[2]
            d = self.f.tu.decls[p[0]]
            ps = self.f.raw["params"]
            if p[0] in ps and len(p) > 1:
                self.leaks.setdefault((ps.index(p[0]), p[1:]), t)
            elif d.raw["k"] == "global":
                self.report(n, env, t, "global %s" % d.name)
            elif len(p) > 1 and d.type.kind == "ptr":
                self.report(n, env, t, "the object %s points to" % d.name)

    def on_return(self, n, env, val):
        if self.f.ret.kind == "bool":
            if val == 0:
                return
            if val is None and n.ch:
                e = env.copy()
                if not self.assume(n.ch[0], True, e):
                    return
                env = e
        if n.ch and self.f.ret.kind in ("float", "int"):
            t = self.taint_of(n.ch[0], env)
            if t:
                self.leaks.setdefault("ret", t)
        self.leave_fn(n, env, val)

    def on_exit(self, env):
        if self.f.ret.kind == "void":
            self.leave_fn(None, env, None)

    def report(self, n, env, t, what):
        self.bad.setdefault((t[1], what), (n, t))


class DB:
    def __init__(self, prog):
        self.prog = prog
        self.leaks = {}
        self.sites = set()
        self.checked = set()
        self.memo = {}

    def sanitizes(self, g, i, suf, t, bits):
        """taint on parameter i is gone whenever g answers t"""
        key = (g.key, i, suf, t, bits)
        if key not in self.memo:
            self.memo[key] = False
            if g.ret.kind == "bool" and i < len(g.raw["params"]) and len(g.blocks) < 40:
                x = Num(self, g)
                left = []
                k = ("x", "t", (g.raw["params"][i],) + suf)

                def on_return(n, env, val):
                    for w in (True, False):
                        e = env.copy()
                        if truth(val) is not None and truth(val) != w:
                            continue
                        if truth(val) is None and not x.assume(n.ch[0], w, e):
                            continue
                        if w == t and e.get(k):
                            left.append(n)
                x.on_return = on_return
                env = Env()
                env.set(k, (bits, 0))
                try:
                    x.run(env=env)
                    self.memo[key] = not left
                except Broken:
                    pass
        return self.memo[key]


def run(prog, rep):
    rep.rule("a value converted from text (strtod, strtoll, ...) or overlaid with raw bytes is "
             "marked; the mark goes when the value passes a finiteness/range test (isfinite, "
             "isnan+isinf, a comparison bounding it, errno for integers) on the path; no "
             "function that succeeds may leave a marked value in an object or global. Marked "
             "results and output parameters are followed into the callers")
    rep.rule("a floating value is converted to an integer only after its range was compared "
             "(or it is the fixed-point conversion of a value already on the grid)")
    db = DB(prog)
    fs = [f for f in prog.functions.values()]
    work = {}
    callers = {}
    for f in fs:
        for c in f.calls():
            if c.callee in FLOAT_SRC | INT_SRC | UNCHECKABLE:
                work[f.key] = f
            g = prog.resolve(c)
            if g is not None:
                callers.setdefault(g.key, set()).add(f.key)
            for a in c.args:
                s = a.strip()
                if a.type is not None and a.type.kind == "ptr" and s.type is not None and \
                        s.type.kind == "ptr" and s.type.to_t is not None and \
                        is_float(s.type.to_t) and a.type.to_t is not None and \
                        not is_float(a.type.to_t):
                    work[f.key] = f
    addr = taken(prog)
    todo = list(work.values())
    done = set()
    n = 0
    while todo:
        f = todo.pop()
        n += 1
        if n > 400:
            raise Broken("no fixpoint")
        x = Num(db, f)
        x.run()
        done.add(f.key)
        for (src, what), (nd, t) in x.bad.items():
            s = f.nodes[src]
            rep.viol("%s:unchecked-number:%s" % (f.key, what), s.where(),
                     "%s() takes a number from the input here (%s) and can leave it in %s "
                     "without a range check" % (f.name, s.src(2)[:60], what))
        if x.leaks and x.leaks != db.leaks.get(f.key):
            db.leaks[f.key] = x.leaks
            cs = callers.get(f.key, set())
            if not cs or f.key in addr:
                for k, t in x.leaks.items():
                    s = f.nodes[t[1]]
                    rep.viol("%s:unchecked-number:%s" % (f.key, "ret" if k == "ret" else "out"),
                             s.where(), "%s() takes a number from the input here (%s) and hands "
                             "it out without a range check" % (f.name, s.src(2)[:60]))
            for c in cs:
                todo.append(prog.functions[c])
    rep.count("functions reading numbers (and their unchecked callers)", len(done))
    rep.count("conversions from input", len(db.sites))
    rep.count("conversions whose range check was found", len(db.checked))
    for k, i in sorted(db.sites):
        f = prog.functions[k]
        rep.sample("conversion", "%s %s(): %s" % (f.nodes[i].where(), f.name, f.nodes[i].src(2)))
    rep.floor("conversions from input", 6)

    # float -> integer conversions
    for f in fs:
        for m in f.body.walk():
            conv = None
            if m.k in ("ImplicitCastExpr", "CStyleCastExpr") and \
                    m.raw.get("ck") == "FloatingToIntegral" and m.val is None:
                conv = m.ch[0]
            elif m.k == "CallExpr" and m.callee in ("lrint", "llrint", "lround", "llround",
                                                    "lrintf", "llrintf"):
                conv = m.args[0]
            if conv is None:
                continue
            rep.count("float to integer conversions")
            if m.k != "CallExpr" and not bounded(prog, f, m, conv):
                rep.viol("%s:unbounded-conversion" % f.key, m.where(),
                         "%s() converts %s to %s without a range test on the path"
                         % (f.name, conv.src(3), m.type))
    rep.floor("float to integer conversions", 1)


def taken(prog):
    r = set()
    for f in prog.functions.values():
        for n in f.body.walk():
            if n.k == "DeclRefExpr" and n.decl.raw["k"] == "func":
                p = n.par
                q = n
                while p is not None and p.k in ("ImplicitCastExpr", "CStyleCastExpr"):
                    q, p = p, p.par
                if p is not None and p.k == "CallExpr" and p.ch[0] is q:
                    continue
                g = None
                from facts import fkey
                g = prog.functions.get(fkey(n.decl, prog.repo))
                if g is not None:
                    r.add(g.key)
    for tu in prog.tus:
        for gl in tu.globals:
            for n in gl.nodes:
                if n.k == "DeclRefExpr" and n.decl.raw["k"] == "func":
                    from facts import fkey
                    r.add(fkey(n.decl, prog.repo))
    return r


def bounded(prog, f, cast, conv):
    """every path to the cast compares the converted variable (or its fabs) with a limit whose
    failing side does not reach the cast"""
    names = {d.decl.i for d in conv.walk() if d.k == "DeclRefExpr"}
    seen = [False]

    class X(CtxExplorer):
        ok = True

        def assume(self, n, t, env):
            r = super().assume(n, t, env)
            m = n.strip() if n is not None else None
            if r and m is not None and m.k == "BinaryOperator" and m.op in ("<", "<=", ">", ">="):
                for x, hi in ((m.ch[0], m.op in ("<", "<=")), (m.ch[1], m.op in (">", ">="))):
                    if any(d.k == "DeclRefExpr" and d.decl.i in names for d in x.walk()):
                        fa = fabs_arg(x) is not None
                        if hi == t:
                            # NaN only excluded by a true comparison
                            env.set(("x", "hi"), 1)
                            if fa:
                                env.set(("x", "lo"), 1)
                            if t:
                                env.set(("x", "nan"), 1)
                        elif not fa:
                            env.set(("x", "lo"), 1)
                            if t:
                                env.set(("x", "nan"), 1)
            return r

        def on_element(self, n, env):
            if n is cast or any(c is cast for c in n.walk()):
                seen[0] = True
                if not (env.get(("x", "hi")) and env.get(("x", "lo")) and env.get(("x", "nan"))):
                    self.ok = False
            return True
    x = X(prog, f)
    x.run()
    return x.ok or not seen[0]
