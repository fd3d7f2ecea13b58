"""Explorer that answers calls of small program functions from what is known about their
arguments here (results only; bounded depth; memoised)."""
from flow import Explorer, Env, NZ, truth, path, norm, isne


class CtxExplorer(Explorer):
    depth = 0
    MAX_DEPTH = 3
    MAX_BLOCKS = 60

    # a local variable stands for the test or call it was set from
    def note_def(self, di, expr, env):
        env.m.pop(("x", "def", di), None)
        for k in [k for k in env.m if k[0] == "x" and k[1] == "def"]:
            e = self.f.nodes[env.m[k]]
            if any(m.k == "DeclRefExpr" and m.decl.i == di for m in e.walk()):
                del env.m[k]
        if expr is None:
            return
        e = expr.strip()
        if e is None or e.k not in ("CallExpr", "BinaryOperator", "UnaryOperator", "StmtExpr"):
            return
        if e.k == "BinaryOperator" and e.op not in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            return
        if e.k == "UnaryOperator" and e.op != "!":
            return
        d = self.f.tu.decls[di]
        if d.raw["k"] != "local" or d.type is None or \
                d.type.kind not in ("bool", "int", "ptr", "enum"):
            return
        env.set(("x", "def", di), e.i)

    def transfer(self, n, env):
        super().transfer(n, env)
        if n.k == "DeclStmt":
            for di, ini in n.raw["ds"]:
                self.note_def(di, self.f.nodes[ini] if ini >= 0 else None, env)
        elif n.k == "BinaryOperator" and n.op == "=":
            l = n.ch[0].strip()
            if l.k == "DeclRefExpr":
                self.note_def(l.decl.i, n.ch[1], env)
        elif n.k in ("CompoundAssignOperator", "UnaryOperator") and \
                (n.k != "UnaryOperator" or n.op in ("++", "--")):
            l = n.ch[0].strip()
            if l.k == "DeclRefExpr":
                self.note_def(l.decl.i, None, env)

    def assume(self, n, t, env):
        if not super().assume(n, t, env):
            return False
        m = n.strip() if n is not None else None
        if m is not None and m.k == "DeclRefExpr":
            k = ("x", "def", m.decl.i)
            d = env.m.pop(k, None)
            if d is not None:
                return self.assume(self.f.nodes[d], t, env)
        return True

    def call_value(self, call, env):
        g = self.prog.resolve(call)
        if g is None or g.ret.kind not in ("bool", "int", "enum", "ptr"):
            return None
        return result_of(self, g, call, env)


class _Results(CtxExplorer):
    def __init__(self, prog, f, depth):
        super().__init__(prog, f)
        self.depth = depth
        self.vals = set()

    def on_return(self, n, env, val):
        if self.f.ret.kind == "bool" and val is None and n.ch:
            e = env.copy()
            if self.assume(n.ch[0], True, e):
                self.vals.add(1)
            e = env.copy()
            if self.assume(n.ch[0], False, e):
                self.vals.add(0)
            return
        self.vals.add(val)


def seeds(x, g, call, env):
    s = {}
    ps = g.raw["params"]
    for i, a in enumerate(call.args):
        if i >= len(ps):
            break
        v = x.ev(a, env)
        if v is not None and (isinstance(v, int) or isne(v)):
            s[(ps[i],)] = v
        p = path(a)
        if p is None:
            continue
        p = norm(p)
        if p[-1] == "&":
            base = p[:-1]
            for k, kv in env.m.items():
                if k[0] in ("n", "x"):
                    continue
                if k == base:
                    s[(ps[i], "*")] = kv
                elif len(k) > len(base) and k[:len(base)] == base:
                    s[(ps[i],) + k[len(base):]] = kv
        elif a.type is not None and a.type.kind == "ptr":
            for k, kv in env.m.items():
                if k[0] not in ("n", "x") and len(k) > len(p) and k[:len(p)] == p:
                    s[(ps[i],) + k[len(p):]] = kv
    return s


def result_of(x, g, call, env):
    if x.depth >= x.MAX_DEPTH or len(g.blocks) > x.MAX_BLOCKS:
        return None
    s = seeds(x, g, call, env)
    if not s:
        return None
    memo = x.prog.__dict__.setdefault("_ctx_memo", {})
    key = (g.key, x.depth, frozenset(s.items()))
    if key not in memo:
        memo[key] = None          # recursion: unknown
        r = _Results(x.prog, g, x.depth + 1)
        r.max_states = 300
        try:
            r.run(env=Env(dict(s)))
            memo[key] = r.vals
        except Exception:
            memo[key] = None
    vals = memo[key]
    if not vals:
        return None
    if len(vals) == 1:
        return next(iter(vals))
    if None not in vals and all(truth(v) is True for v in vals):
        return NZ
    return None
