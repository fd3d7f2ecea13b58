"""A small path-sensitive abstract interpreter over clang CFGs (no solver):
values are integer constants, 'not one of {..}', or unknown."""
from facts import Broken

NZ = ("ne", frozenset([0]))


def isne(v):
    return isinstance(v, tuple) and v[0] == "ne"


def truth(v):
    if v is None:
        return None
    if isinstance(v, int):
        return v != 0
    if isne(v):
        return True if 0 in v[1] else None
    return None


def path(n):
    """access path of an lvalue (or of the value loaded from it): tuple, or None"""
    n = n.strip() if n is not None else None
    if n is None:
        return None
    k = n.k
    if k == "DeclRefExpr":
        d = n.decl
        if d.raw["k"] in ("local", "parm", "global"):
            return (d.i,)
        return None
    if k == "MemberExpr":
        b = path(n.ch[0])
        return b + ("." + n.name,) if b is not None else None
    if k == "UnaryOperator" and n.op == "*":
        b = path(n.ch[0])
        return b + ("*",) if b is not None else None
    if k == "UnaryOperator" and n.op == "&":
        b = path(n.ch[0])
        if b is not None and b[-1] == "*":
            return b[:-1]
        return b + ("&",) if b is not None else None
    if k == "ArraySubscriptExpr":
        b = path(n.ch[0])
        i = n.ch[1].val
        return b + ("[%d]" % i,) if b is not None and i is not None else None
    if k == "StmtExpr":
        return None
    return None


def norm(p):
    """&x followed by ./* cancels"""
    out = []
    for e in p:
        if out and out[-1] == "&" and (e == "*" or (isinstance(e, str) and e.startswith("."))):
            out.pop()
            if e == "*":
                continue
        out.append(e)
    return tuple(out)


class Env:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = m if m is not None else {}

    def copy(self):
        return Env(dict(self.m))

    def get(self, k):
        return self.m.get(k)

    def set(self, k, v):
        if v is None:
            self.m.pop(k, None)
        else:
            self.m[k] = v

    def key(self):
        return frozenset(self.m.items())


LOGIC = ("&&", "||")


class Explorer:
    """explore(f): subclass and override the hooks"""
    max_states = 6000
    track_arith = False

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.escaped = set()
        self.seen = set()
        self.nstates = 0
        self.overflow = False
        for n in f.body.walk():
            if n.k == "UnaryOperator" and n.op == "&":
                t = n.ch[0].strip()
                while t is not None and t.k in ("MemberExpr", "ArraySubscriptExpr") and \
                        not t.raw.get("arrow"):
                    t = t.ch[0].strip()
                if t is not None and t.k == "DeclRefExpr":
                    # only an escape if the address goes somewhere else than an
                    # immediate member access
                    p = n.par
                    if not (p is not None and p.k == "MemberExpr"):
                        self.escaped.add(t.decl.i)

    # ---- hooks -----------------------------------------------------------
    def call_value(self, call, env):
        """abstract result of a call (env may be modified)"""
        return None

    def on_element(self, n, env):
        """called before the default transfer of each CFG element; may modify env;
        return False to abandon the path"""
        return True

    def on_return(self, n, env, val):
        pass

    def on_edge(self, block, succ, env, cond, taken):
        """called when following an edge; return False to drop it"""
        return True

    def on_exit(self, env):
        pass

    def on_block(self, block, env):
        """called when a block is entered with env; return False to stop"""
        return True

    def keep_over_call(self, call, k):
        """does the value at path k survive the call?  (mod sets)"""
        ms = mods(self.prog)
        g = self.prog.resolve(call)
        if g is not None:
            m = ms[g.key]
        elif call.fn is not None:
            m = ext_mods(call)
        else:
            return False
        if m is None:
            return False
        return not touches(m, k, self.f.tu)

    # ---- evaluation ------------------------------------------------------
    def ev(self, n, env):
        if n is None:
            return None
        v = env.get(("n", n.i))
        if v is not None:
            return v
        if n.val is not None:
            return n.val
        k = n.k
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            v = self.ev(n.ch[0], env)
            ck = n.raw.get("ck", "")
            if ck.endswith("ToBoolean"):
                t = truth(v)
                return None if t is None else int(t)
            if ck in ("LValueToRValue", "NoOp", "IntegralCast", "BitCast", "NullToPointer",
                      "PointerToIntegral", "ToVoid", "ArrayToPointerDecay",
                      "FunctionToPointerDecay"):
                if ck == "NullToPointer":
                    return 0
                if ck in ("ArrayToPointerDecay", "FunctionToPointerDecay"):
                    return NZ
                if isinstance(v, int) and ck == "IntegralCast":
                    t = n.type
                    if t.bits and t.kind in ("int", "enum"):
                        m = v & ((1 << t.bits) - 1)
                        if t.sg and m >> (t.bits - 1):
                            m -= 1 << t.bits
                        return m
                return v
            return None
        if k == "DeclRefExpr" or k == "MemberExpr" or k == "ArraySubscriptExpr":
            p = path(n)
            return env.get(norm(p)) if p is not None else None
        if k == "UnaryOperator":
            op = n.op
            if op == "*":
                p = path(n)
                return env.get(norm(p)) if p is not None else None
            if op == "&":
                return NZ
            if op in ("++", "--"):
                return self.ev(n.ch[0], env)  # value stored by transfer (pre-form)
            v = self.ev(n.ch[0], env)
            if op == "!":
                t = truth(v)
                return None if t is None else int(not t)
            if isinstance(v, int):
                return {"-": -v, "~": ~v, "+": v}.get(op)
            return None
        if k == "BinaryOperator":
            op = n.op
            a, b = n.ch
            if op == "=":
                return self.ev(a, env)
            if op == ",":
                return self.ev(b, env)
            if op in LOGIC:
                ta, tb = truth(self.ev(a, env)), truth(self.ev(b, env))
                if op == "&&":
                    if ta is False or tb is False:
                        return 0
                    if ta and tb:
                        return 1
                    return None
                if ta or tb:
                    return 1
                if ta is False and tb is False:
                    return 0
                return None
            va, vb = self.ev(a, env), self.ev(b, env)
            return binop(op, va, vb)
        if k == "CompoundAssignOperator":
            return self.ev(n.ch[0], env)
        if k == "ConditionalOperator" or k == "BinaryConditionalOperator":
            t = truth(self.ev(n.ch[0], env))
            if t is True:
                return self.ev(n.ch[1], env)
            if t is False:
                return self.ev(n.ch[2], env)
            a, b = self.ev(n.ch[1], env), self.ev(n.ch[2], env)
            return a if a == b else None
        if k == "StringLiteral":
            return NZ
        if k == "StmtExpr":
            last = n.ch[0].ch[-1] if n.ch and n.ch[0].ch else None
            return self.ev(last, env) if last is not None else None
        return None

    # ---- assume ----------------------------------------------------------
    def assume(self, n, t, env):
        """refine env with truth(n) == t; False if contradictory"""
        if n is None:
            return True
        v = truth(self.ev(n, env))
        if v is not None and v != t:
            return False
        k = n.k
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck = n.raw.get("ck", "")
            if ck in ("LValueToRValue", "NoOp", "IntegralCast", "BitCast", "IntegralToBoolean",
                      "PointerToBoolean"):
                if not self.assume(n.ch[0], t, env):
                    return False
            return True
        if k == "UnaryOperator" and n.op == "!":
            return self.assume(n.ch[0], not t, env)
        if k == "BinaryOperator" and n.op in LOGIC:
            a, b = n.ch
            if (n.op == "&&") == t:
                return self.assume(a, t, env) and self.assume(b, t, env)
            ta = truth(self.ev(a, env))
            tb = truth(self.ev(b, env))
            if ta is (n.op == "&&"):
                return self.assume(b, t, env)
            if tb is (n.op == "&&"):
                return self.assume(a, t, env)
            return True
        if k == "BinaryOperator" and n.op in ("==", "!="):
            a, b = n.ch
            eq = (n.op == "==") == t
            va, vb = self.ev(a, env), self.ev(b, env)
            if isinstance(vb, int):
                self.refine(a, vb, eq, env)
            elif isinstance(va, int):
                self.refine(b, va, eq, env)
            return True
        if k == "BinaryOperator" and n.op in ("<", ">", "<=", ">="):
            a, b = n.ch
            vb, va = self.ev(b, env), self.ev(a, env)
            op = n.op if t else {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[n.op]
            # x > c, x < c exclude c
            if isinstance(vb, int) and op in (">", "<"):
                self.refine(a, vb, False, env)
            if isinstance(va, int) and op in (">", "<"):
                self.refine(b, va, False, env)
            ta = a.type
            # an unsigned value known not to be 0 is not at or below it
            for x, vx, vc, ops in ((a, va, vb, "<="), (b, vb, va, ">=")):
                if isne(vx) and 0 in vx[1] and x.type is not None and x.type.sg is False and \
                        (vc == 0 and op == ops or vc == 1 and op == ops[0]):
                    return False
            if vb == 0 and op == "<=" and ta is not None and ta.sg is False:
                self.refine(a, 0, True, env)
            if vb == 1 and op == "<" and ta is not None and ta.sg is False:
                self.refine(a, 0, True, env)
            if va == 0 and op == ">=" and b.type is not None and b.type.sg is False:
                self.refine(b, 0, True, env)
            if vb is not None and isinstance(vb, int) and vb >= 1 and op == ">=" and \
                    ta is not None and ta.sg is False:
                self.refine(a, 0, False, env)
            return True
        if k == "BinaryOperator" and n.op == "=":
            return self.assume(n.ch[0], t, env)
        if k == "BinaryOperator" and n.op == ",":
            return self.assume(n.ch[1], t, env)
        if k == "CallExpr":
            self.on_assume_call(n, t, env)
            env.set(("n", n.i), 1 if t else 0) if n.type is not None and n.type.kind == "bool" \
                else env.set(("n", n.i), NZ if t else 0)
            return True
        if k == "StmtExpr":
            last = n.ch[0].ch[-1] if n.ch and n.ch[0].ch else None
            return self.assume(last, t, env) if last is not None and last.type is not None else True
        self.refine(n, 0, not t, env)
        return True

    def on_assume_call(self, call, t, env):
        pass

    def refine(self, n, c, eq, env):
        """n == c (eq) or n != c"""
        n = n.strip()
        if n is None:
            return
        if n.k == "BinaryOperator" and n.op == "=":
            n = n.ch[0].strip()
        if n.k == "CallExpr":
            if eq:
                env.set(("n", n.i), c)
            elif env.get(("n", n.i)) is None:
                env.set(("n", n.i), ("ne", frozenset([c])))
            if c == 0:
                self.on_assume_call(n, not eq, env)
            return
        p = path(n)
        if p is None:
            return
        p = norm(p)
        old = env.get(p)
        if eq:
            env.set(p, c)
        elif old is None:
            if n.type is not None and n.type.kind == "bool" and c in (0, 1):
                env.set(p, 1 - c)
            else:
                env.set(p, ("ne", frozenset([c])))
        elif isne(old):
            env.set(p, ("ne", old[1] | {c}))

    # ---- transfer --------------------------------------------------------
    def kill(self, p, env):
        """a store to path p"""
        p = norm(p)
        root_local = len(p) == 1
        for k in [k for k in env.m if k and k[0] != "n" and k[0] != "x"]:
            if k[:len(p)] == p:
                del env.m[k]
            elif not root_local and len(k) > 1 and k[-1] == p[-1] and k[0] != p[0]:
                # may alias: same field through a different root
                del env.m[k]
            elif not root_local and len(k) > 1 and k[-1] == p[-1] and k != p:
                del env.m[k]

    def kill_memory(self, call, env):
        for k in [k for k in env.m if k and k[0] != "n" and k[0] != "x"]:
            d = self.f.tu.decls[k[0]]
            if (len(k) > 1 and not (d.raw["k"] == "local" and d.i not in self.escaped
                                    and d.type.kind not in ("ptr",))) \
                    or d.raw["k"] == "global" or d.i in self.escaped:
                if not self.keep_over_call(call, k):
                    del env.m[k]

    def store(self, lhs, v, env):
        p = path(lhs)
        if p is None:
            # unknown target: kills every memory path
            l = lhs.strip()
            nm = l.name if l is not None and l.k == "MemberExpr" else None
            for k in [k for k in env.m if k and k[0] not in ("n", "x") and len(k) > 1]:
                if nm is None or k[-1] == "." + nm:
                    del env.m[k]
            return
        self.kill(p, env)
        env.set(norm(p), v)

    def transfer(self, n, env):
        k = n.k
        if k == "CallExpr":
            env.m.pop(("n", n.i), None)
            v = self.call_value(n, env)
            if n.callee is None or not n.callee.startswith("__builtin_expect"):
                self.kill_memory(n, env)
                self.after_call(n, env)
            env.set(("n", n.i), v)
        elif k == "DeclStmt":
            for di, ini in n.raw["ds"]:
                env_v = self.ev(self.f.nodes[ini], env) if ini >= 0 else None
                self.kill((di,), env)
                env.set((di,), env_v)
                if ini >= 0:
                    self.init_fields((di,), self.f.nodes[ini], env)
        elif k == "BinaryOperator" and n.op == "=":
            v = self.ev(n.ch[1], env)
            self.store(n.ch[0], v, env)
        elif k == "CompoundAssignOperator":
            a, b = self.ev(n.ch[0], env), self.ev(n.ch[1], env)
            v = binop(n.op[:-1], a, b)
            if not self.track_arith and n.ch[0].type.kind != "bool" and n.op in ("+=", "-=", "*="):
                v = None
            self.store(n.ch[0], v, env)
        elif k == "UnaryOperator" and n.op in ("++", "--"):
            v = self.ev(n.ch[0], env)
            nv = v + (1 if n.op == "++" else -1) \
                if isinstance(v, int) and self.track_arith else None
            self.store(n.ch[0], nv, env)
            if n.raw.get("post"):
                env.set(("n", n.i), v)
        elif k == "BinaryOperator" and n.op in LOGIC:
            env.m.pop(("n", n.i), None)
            v = self.ev(n, env)
            env.set(("n", n.i), v)
        elif k in ("ConditionalOperator", "BinaryConditionalOperator"):
            env.m.pop(("n", n.i), None)
            v = self.ev(n, env)
            env.set(("n", n.i), v)

    def after_call(self, n, env):
        pass

    def init_fields(self, p, ini, env):
        ini = ini.strip_implicit()
        if ini.k == "InitListExpr" and ini.type is not None and ini.type.kind == "rec":
            r = self.f.tu.records.get(ini.type.rec)
            if r and not r["union"]:
                for fd, c in zip(r["f"], ini.ch):
                    if c is not None and fd["n"]:
                        q = p + ("." + fd["n"],)
                        if c.k == "ImplicitValueInitExpr":
                            env.set(q, 0)
                        else:
                            env.set(q, self.ev(c, env))
                            self.init_fields(q, c, env)

    def clear_nodes(self, env):
        for k in [k for k in env.m if k and k[0] == "n"]:
            del env.m[k]

    # ---- driver ----------------------------------------------------------
    def run(self, start=None, env=None, at=None):
        """explore from the function entry, or from element index `at` of block
        `start`"""
        work = [(start or self.f.entry, env or Env(), at or 0)]
        counts = {}
        while work:
            b, env, i = work.pop()
            if True:
                key = (b.id, i, env.key())
                if key in self.seen:
                    continue
                self.seen.add(key)
                self.nstates += 1
                counts[b.id] = counts.get(b.id, 0) + 1
                if counts[b.id] > 400:
                    # widen: forget all value knowledge but keep rule state
                    self.overflow = True
                    env = Env({k: v for k, v in env.m.items() if k[0] == "x"})
                    key = (b.id, i, env.key())
                    if key in self.seen:
                        continue
                    self.seen.add(key)
                if self.nstates > self.max_states * 20:
                    raise Broken("state explosion in %s" % self.f)
                env = env.copy()
                if i == 0 and self.on_block(b, env) is False:
                    continue
            self.step(b, env, i, work)

    def call_outcomes(self, call, env):
        """alternatives [(value, {xkey: value})] or None for the default"""
        return None

    def step(self, b, env, i, work):
        for j in range(i, len(b.elems)):
            n = b.elems[j]
            if n.k == "ReturnStmt":
                v = self.ev(n.ch[0], env) if n.ch else None
                if self.on_element(n, env) is False:
                    return
                self.on_return(n, env, v)
                return
            if self.on_element(n, env) is False:
                return
            if n.k == "CallExpr":
                alts = self.call_outcomes(n, env)
                if alts is not None:
                    self.transfer(n, env)
                    for v, xs in alts[1:]:
                        e = env.copy()
                        e.set(("n", n.i), v)
                        for xk, xv in xs.items():
                            e.set(xk, xv)
                        self.finish(n, b, e)
                        work.append((b, e, j + 1))
                    if not alts:
                        return
                    v, xs = alts[0]
                    env.set(("n", n.i), v)
                    for xk, xv in xs.items():
                        env.set(xk, xv)
                    self.finish(n, b, env)
                    continue
            d = self.truth_kept(n)
            if d is not None and truth(self.ev(d[1], env)) is None:
                # a local bool takes the truth of a condition: one path for each
                e = env.copy()
                no = self.assume(d[1], False, e)
                if self.assume(d[1], True, env):
                    if no:
                        self.transfer(n, e)
                        e.set((d[0],), 0)
                        self.finish(n, b, e)
                        work.append((b, e, j + 1))
                    val = 1
                elif no:
                    env, val = e, 0
                else:
                    return
                self.transfer(n, env)
                env.set((d[0],), val)
                self.finish(n, b, env)
                continue
            self.transfer(n, env)
            self.finish(n, b, env)
        self.leave(b, env, work)

    def truth_kept(self, n):
        """(variable, condition) where element n stores the truth of a condition in a local bool"""
        if n.k == "DeclStmt" and len(n.raw["ds"]) == 1 and n.raw["ds"][0][1] >= 0:
            di = n.raw["ds"][0][0]
            c = self.f.nodes[n.raw["ds"][0][1]]
        elif n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k == "DeclRefExpr":
            d = n.ch[0].strip().decl
            if d.raw["k"] not in ("local", "parm"):
                return None
            di, c = d.i, n.ch[1]
        else:
            return None
        d = self.f.tu.decls[di]
        if d.type is None or d.type.kind != "bool" or c.type is None:
            return None
        m = c.strip()
        if m.k == "CallExpr" or m.k == "UnaryOperator" and m.op == "!" or \
                m.k == "BinaryOperator" and m.op in LOGIC + ("==", "!=", "<", ">", "<=", ">="):
            return di, c
        return None

    def finish(self, n, b, env):
            p = n.par
            if p is not None and p.type is None and p.k not in ("ReturnStmt",) and \
                    n is not b.cond and not any(q.k == "StmtExpr" for q in n.parents()) and \
                    (n.type is None or p.k in ("CompoundStmt", "ForStmt", "CaseStmt",
                                               "DefaultStmt", "LabelStmt") or
                     (p.k in ("IfStmt", "WhileStmt") and n is not p.ch[0]) or
                     (p.k == "DoStmt" and n is not p.ch[1])):
                self.clear_nodes(env)

    def leave(self, b, env, work):
        if b is self.f.exit:
            self.on_exit(env)
            return
        if b.nr:
            return
        t = b.term
        succs = b.succs
        if t is None or len(succs) == 1:
            for s in succs:
                if s is not None:
                    e = env.copy()
                    if self.on_edge(b, s, e, None, None) is not False:
                        work.append((s, e, 0))
            return
        if t.k == "SwitchStmt":
            c = b.cond
            v = self.ev(c, env)
            labels = []
            for s in succs:
                if s is not None and s.label is not None and s.label.k == "CaseStmt":
                    labels += case_vals(s.label)
            for s in succs:
                if s is None:
                    continue
                e = env.copy()
                if s.label is not None and s.label.k == "CaseStmt" and \
                        switch_of(s.label) is t:
                    vals = case_vals(s.label)
                    if isinstance(v, int) and v not in vals:
                        continue
                    if isne(v):
                        vals = [x for x in vals if x not in v[1]]
                        if not vals:
                            continue
                    if len(vals) == 1:
                        self.refine(c, vals[0], True, e)
                else:
                    if isinstance(v, int) and v in labels:
                        continue
                    cp = path(c.strip()) if c is not None else None
                    if cp is not None and not isinstance(v, int):
                        e.set(norm(cp), ("ne", frozenset(labels) | (v[1] if isne(v) else frozenset())))
                self.clear_nodes(e)
                if self.on_edge(b, s, e, c, None) is not False:
                    work.append((s, e, 0))
            return
        c = b.cond
        for s, tk in zip(succs, (True, False)):
            if s is None:
                continue
            e = env.copy()
            if c is not None:
                if not self.assume(c, tk, e):
                    continue
                if t.k in ("BinaryOperator", "ConditionalOperator", "BinaryConditionalOperator"):
                    e.set(("n", c.i), (1 if tk else 0))
                else:
                    # keep values of enclosing expressions only inside StmtExprs
                    if not any(q.k == "StmtExpr" for q in t.parents()):
                        self.clear_nodes(e)
            if self.on_edge(b, s, e, c, tk) is not False:
                work.append((s, e, 0))


def case_vals(lb):
    """values of a case label (with directly nested labels)"""
    out = []
    n = lb
    while n is not None and n.k == "CaseStmt":
        lo = n.ch[0].val
        hi = n.ch[1].val if n.ch[1] is not None else lo
        if lo is not None:
            out += list(range(lo, hi + 1)) if hi - lo < 1000 else [lo]
        break
    return out


def switch_of(lb):
    for q in lb.parents():
        if q.k == "SwitchStmt":
            return q
    return None


def binop(op, a, b):
    if op in ("==", "!="):
        r = None
        if isinstance(a, int) and isinstance(b, int):
            r = a == b
        elif isne(a) and isinstance(b, int) and b in a[1]:
            r = False
        elif isne(b) and isinstance(a, int) and a in b[1]:
            r = False
        if r is None:
            return None
        return int(r if op == "==" else not r)
    if op == "*" and (a == 0 or b == 0) and (isinstance(a, int) or isinstance(b, int)):
        return 0
    if op == "&" and ((isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0)):
        return 0
    if op == "|" and (truth(a) or truth(b)) and not (isinstance(a, int) and isinstance(b, int)):
        return NZ
    if isinstance(a, int) and isinstance(b, int):
        try:
            return {
                "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                "<": lambda: int(a < b), ">": lambda: int(a > b),
                "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                "<<": lambda: a << b if 0 <= b < 64 else None,
                ">>": lambda: a >> b if 0 <= b < 64 else None,
                "/": lambda: int(a / b) if b else None,
                "%": lambda: a % b if b > 0 and a >= 0 else None,
            }[op]()
        except KeyError:
            return None
    return None


# ---- dominators -----------------------------------------------------------
def dominators(f):
    bl = f.blocks
    order = []
    seen = set()

    def dfs(b):
        st = [(b, iter([s for s in b.succs if s is not None]))]
        seen.add(b.id)
        while st:
            x, it = st[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    st.append((s, iter([q for q in s.succs if q is not None])))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(f.entry)
    rpo = list(reversed(order))
    idx = {b.id: i for i, b in enumerate(rpo)}
    dom = {f.entry.id: {f.entry.id}}
    allb = set(idx)
    for b in rpo[1:]:
        dom[b.id] = set(allb)
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p.id] for p in b.preds if p.id in idx]
            nd = set.intersection(*ps) if ps else set()
            nd = nd | {b.id}
            if nd != dom[b.id]:
                dom[b.id] = nd
                ch = True
    return dom


def block_of(f):
    """node index -> (block, element index) of CFG elements"""
    m = {}
    for b in f.blocks.values():
        for i, n in enumerate(b.elems):
            m.setdefault(n.i, (b, i))
    return m


def reachable(f):
    seen = {f.entry.id}
    st = [f.entry]
    while st:
        b = st.pop()
        for s in b.succs:
            if s is not None and s.id not in seen:
                seen.add(s.id)
                st.append(s)
    return seen


# ---- what a function may write --------------------------------------------
PURE_EXT = None


def ext_mods(call):
    """mod set of an external function: what its pointer arguments point to"""
    n = call.callee or ""
    if n.startswith("__builtin_") and "memcpy" not in n and "memset" not in n \
            and "overflow" not in n:
        return frozenset()
    d = call.fn
    t = d.type
    res = set()
    if t is not None and t.kind == "fun":
        for i in t.raw.get("params", ()):
            p = t.tu.types[i]
            if p.kind == "ptr":
                q = p.to_t
                if q is not None and not q.raw.get("const"):
                    res.add("*" + (q.raw["c"] if q.kind != "void" else "@any"))
    return frozenset(res)


def touches(m, k, tu):
    if k[-1] in m:
        return True
    for c in k[1:]:
        if c in m:
            return True
    for x in m:
        if x.startswith("*"):
            if x == "*@any" or x.startswith("*struct") or x.startswith("*cp_") or \
                    x.startswith("*union"):
                return True
            if len(k) == 1 or k[-1] == "*" or k[-1].startswith("["):
                d = tu.decls[k[0]]
                if d.raw["k"] == "global" and d.name not in m and len(k) == 1:
                    t = d.type
                    if t is not None and x[1:] == t.raw["c"]:
                        return True
                    continue
                return True
    if tu.decls[k[0]].raw["k"] == "global" and tu.decls[k[0]].name in m:
        return True
    return False


def mods(prog):
    r = getattr(prog, "_mods", None)
    if r is not None:
        return r
    direct, calls = {}, {}
    for f in prog.functions.values():
        d, c = set(), set()
        for n in f.body.walk():
            t = None
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and \
                    (n.op == "=" or n.k == "CompoundAssignOperator"):
                t = n.ch[0].strip()
            elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                t = n.ch[0].strip()
            elif n.k == "CallExpr":
                g = prog.resolve(n)
                if g is not None:
                    c.add(g.key)
                elif n.fn is not None:
                    d |= ext_mods(n)
                else:
                    d.add("@unknown")
                # &x->field handed to somebody who writes scalars
                for a in n.args:
                    s = a.strip()
                    if s.k == "UnaryOperator" and s.op == "&":
                        b = s.ch[0].strip()
                        if b.k == "MemberExpr" and a.type is not None and \
                                a.type.to_t is not None and not a.type.to_t.raw.get("const"):
                            d.add("." + b.name)
            if t is not None:
                if t.k == "MemberExpr":
                    # a plain local struct does not count
                    b = t
                    while b.k == "MemberExpr" and not b.raw.get("arrow"):
                        b = b.ch[0].strip()
                    if b.k == "DeclRefExpr" and b.decl.raw["k"] in ("local", "parm") and \
                            b.decl.type.kind == "rec":
                        continue
                    d.add("." + t.name)
                elif t.k == "DeclRefExpr":
                    if t.decl.raw["k"] == "global":
                        d.add(t.decl.name)
                elif t.type is not None:
                    d.add("*" + t.type.raw["c"])
        direct[f.key], calls[f.key] = d, c
    ch = True
    while ch:
        ch = False
        for k, c in calls.items():
            d = direct[k]
            n0 = len(d)
            for g in c:
                d |= direct[g]
            if len(d) != n0:
                ch = True
    res = {k: (None if "@unknown" in d else frozenset(d)) for k, d in direct.items()}
    prog._mods = res
    return res
