"""Explorer that follows calls into chosen functions of the program, with what is known about the
arguments, and carries rule state ('x' facts named in `carry`) through them."""
from ctx import CtxExplorer, seeds
from flow import Env, truth, path, norm


class InlineExplorer(CtxExplorer):
    carry = ()
    writeback = False
    MAX_INLINE = 6
    idepth = 0

    def __init__(self, prog, f, shared=None, idepth=0):
        super().__init__(prog, f)
        self.shared = shared
        self.idepth = idepth
        self.outs = set()

    def inline(self, g, call):
        return False

    def child(self, g):
        return type(self)(self.prog, g, self.shared, self.idepth + 1)

    def xs(self, env):
        return {k: v for k, v in env.m.items() if k[0] == "x" and k[1] in self.carry}

    def call_outcomes(self, call, env):
        g = self.prog.resolve(call)
        if g is None or self.idepth >= self.MAX_INLINE or not self.inline(g, call):
            return None
        c = self.child(g)
        s = dict(seeds(self, g, call, env))
        x0 = self.xs(env)
        s.update(x0)
        self.entering(call, env, c, s)
        c.seeded = [k for k in s if k[0] not in ("n", "x")]
        c.run(env=Env(s))
        res = []
        for val, xs in sorted(c.outs, key=repr):
            d = {k: None for k in x0}
            for k, v in xs:
                if k[0] == "out":
                    if k[1] < len(call.args):
                        p = path(call.args[k[1]])
                        if p is not None:
                            d[norm(p + k[2])] = v
                else:
                    d[k] = v
            res.append((val, d))
        return res

    def outputs(self, env):
        """what is known about the memory behind pointer parameters"""
        if not self.writeback:
            return ()
        ps = self.f.raw["params"]
        return tuple((("out", ps.index(k[0]), k[1:]), v) for k, v in env.m.items()
                     if k[0] in ps and len(k) > 1) + \
            tuple((("out", ps.index(k[0]), k[1:]), None) for k in getattr(self, "seeded", ())
                  if k[0] in ps and len(k) > 1 and k not in env.m)

    def entering(self, call, env, child, seed):
        pass

    def out(self, val, env):
        self.outs.add((val, frozenset(tuple(self.xs(env).items()) + self.outputs(env))))

    def on_return(self, n, env, val):
        if self.f.ret.kind == "bool" and truth(val) is None and n.ch:
            for w in (True, False):
                e = env.copy()
                if self.assume(n.ch[0], w, e):
                    self.out(int(w), e)
            return
        self.out(val, env)

    def on_exit(self, env):
        if self.f.ret.kind == "void":
            self.out(None, env)


def callers_closure(prog, keys):
    """keys plus everything that calls them, directly or not"""
    calls = {}
    for f in prog.functions.values():
        for c in f.calls():
            g = prog.resolve(c)
            if g is not None:
                calls.setdefault(g.key, set()).add(f.key)
    r, st = set(keys), list(keys)
    while st:
        for c in calls.get(st.pop(), ()):
            if c not in r:
                r.add(c)
                st.append(c)
    return r


def callees_closure(prog, keys):
    r, st = set(keys), list(keys)
    while st:
        f = prog.functions.get(st.pop())
        if f is None:
            continue
        for c in f.calls():
            g = prog.resolve(c)
            if g is not None and g.key not in r:
                r.add(g.key)
                st.append(g.key)
    return r


def reach(prog):
    """keys of the functions that main can reach (calls, function references, tables)"""
    from facts import fkey
    r, st = set(), ["main"]
    for tu in prog.tus:
        for gl in tu.globals:
            for n in gl.nodes:
                if n.k == "DeclRefExpr" and n.decl.raw["k"] == "func":
                    st.append(fkey(n.decl, prog.repo))
    while st:
        k = st.pop()
        f = prog.functions.get(k)
        if f is None or k in r:
            continue
        r.add(k)
        for n in f.body.walk():
            if n.k == "DeclRefExpr" and n.decl.raw["k"] == "func":
                st.append(fkey(n.decl, prog.repo))
    return r
