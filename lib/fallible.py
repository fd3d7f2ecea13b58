"""Which functions can fail, and how failure must travel (P01, P02)."""
from flow import Explorer, Env, NZ, truth, path, norm
from facts import Broken


def err_records(prog):
    rec = {"cp_err_t"}
    for n, (tu, r) in prog.records.items():
        for fd in r["f"]:
            t = tu.types[fd["t"]]
            nm = t.rec or (t.ptr_rec() if t.kind == "ptr" else None)
            if nm == "cp_err_t":
                rec.add(n)
    return rec


def has_err_param(f, recs):
    return any(d.type.kind == "ptr" and d.type.ptr_rec() in recs for d in f.params)


def proto_fallible(call, recs):
    """indirect calls through a pointer to a fallible function type"""
    t = call.ch[0].type
    t = t.to_t if t is not None and t.kind == "ptr" else t
    if t is None or t.kind != "fun":
        return False
    r = t.tu.types[t.raw["ret"]] if "ret" in t.raw else None
    if r is None or r.kind != "bool":
        return False
    for i in t.raw.get("params", ()):
        p = t.tu.types[i]
        if p.kind == "ptr" and p.ptr_rec() in recs:
            return True
    return False


def is_err_msg(n):
    """n denotes the message member of an error object"""
    n = n.strip()
    if n.k == "UnaryOperator" and n.op == "&":
        n = n.ch[0].strip()
    return n.k == "MemberExpr" and n.name == "msg" and n.decl.raw.get("rec") == "cp_err_t"


def records_msg(call):
    """call appends text to an error message"""
    if call.fn is None or not (call.callee or "").startswith("cp_vchar_"):
        return False
    if not any(w in call.callee for w in ("printf", "append", "push")):
        return False
    return bool(call.args) and is_err_msg(call.args[0])


def drops_msg(call):
    """call empties an error message"""
    return any(w in (call.callee or "") for w in ("clear", "fini", "_init", "set_size")) and \
        any(is_err_msg(m) for a in call.args[:1] for m in a.walk() if m.k == "MemberExpr")


def asserted(n):
    return (n.macro or "").startswith("assert") or \
        any((p.macro or "").startswith("assert") for p in n.parents())


F, T = 0, 1
DEFERRED, DIRECT = 1, 2     # how an error was recorded


def is_status(k):
    """an access path of a lexer's current-token type"""
    return k[-1] in (".type", ".tok_type")


def writes_status(n):
    m = n.ch[0].strip()
    return m.k == "MemberExpr" and "." + m.name in (".type", ".tok_type")


class Outcomes(Explorer):
    """all (return value, error recorded?, failed call) triples of a function"""

    def __init__(self, db, f, consts=()):
        super().__init__(db.prog, f)
        self.db = db
        self.consts = consts
        self.status = None
        self.res = {}      # (ret, rec, failed call idx or None) -> return node

    def go(self):
        env = Env()
        ps = self.f.raw["params"]
        for i, v in self.consts:
            if i < len(ps):
                env.set((ps[i],), v)
        self.run(env=env)
        if self.f.ret.kind == "void" and self.status:
            res = {}
            for (v, rec, a, b), n in self.res.items():
                res.setdefault((v, min(rec, DEFERRED), a, b), n)
            return res
        return self.res

    def transfer(self, n, env):
        super().transfer(n, env)
        if self.f.ret.kind == "void" and n.k == "BinaryOperator" and n.op == "=" and writes_status(n):
            # survives calls that do not change it
            v = self.ev(n.ch[1], env)
            env.set(("x", "st"), v if isinstance(v, int) else None)
        if env.get(("x", "rec")) and n.k == "BinaryOperator" and n.op == "=":
            # the message is thrown away
            m = n.ch[0].strip()
            if m.k == "MemberExpr" and m.name == "size" and is_err_msg(m.ch[0]) and \
                    n.ch[1].val == 0:
                env.set(("x", "rec"), 0)

    def after_call(self, n, env):
        super().after_call(n, env)
        if env.get(("x", "st")) is not None:
            g = self.prog.resolve(n)
            if g.key in self.db.status if g is not None else n.fn is None:
                env.set(("x", "st"), None)

    def call_outcomes(self, call, env):
        if drops_msg(call):
            env.set(("x", "rec"), 0)
            return None
        if records_msg(call):
            env.set(("x", "rec"), DIRECT)
            return None
        g = self.prog.resolve(call)
        ind = False
        if g is None:
            if call.fn is None and proto_fallible(call, self.db.recs):
                ind = True
            else:
                if call.callee == "exit" and call.args:
                    self.exits(call, env)
                return None
        elif g.key not in self.db.fal and g.key not in self.db.voidrec:
            v = self.db.always(g)
            return None if v is None else [(v, {})]
        if ind:
            outs = {(T, 0), (F, DIRECT)}
        else:
            consts = tuple((i, self.ev(a, env)) for i, a in enumerate(call.args)
                           if isinstance(self.ev(a, env), int)
                           and a.type is not None and a.type.kind in ("int", "enum", "bool")
                           and (g.key, i) in self.db.steering)
            outs = self.db.outcomes(g, consts)
            if g.key in self.db.voidrec:
                if any(r for _, r in outs):
                    return [(None, {("x", "rec"): max(r, env.get(("x", "rec")) or 0)} if r else {})
                            for _, r in sorted(outs, key=str)]
                return None
        alts = []
        ptr = call.type is not None and call.type.kind == "ptr"
        for v, r in sorted(outs, key=str):
            xs = {}
            if r:
                xs[("x", "rec")] = max(r, env.get(("x", "rec")) or 0)
            if v == F and r:
                xs[("x", "fail")] = call.i
            if v == F and not r:
                xs[("x", "quiet")] = call.i
            alts.append((NZ if ptr and v == T else v, xs))
        return alts

    def exits(self, call, env):
        v = self.ev(call.args[0], env)
        if env.get(("x", "rec")) == DIRECT or env.get(("x", "fail")) is not None:
            if truth(v) is not True:
                self.db.bad_exits.append((self.f, call))

    def assume(self, n, t, env):
        ok = super().assume(n, t, env)
        if ok and n is not None and n.k == "BinaryOperator" and n.op in (">", "!=", "=="):
            a = n.ch[0].strip()
            if a.k == "MemberExpr" and a.name == "size" and is_err_msg(a.ch[0]) and \
                    n.ch[1].val == 0:
                if t == (n.op != "=="):
                    # an assertion of it is a duty, no evidence
                    if not asserted(n):
                        env.set(("x", "rec"), max(DEFERRED, env.get(("x", "rec")) or 0))
                elif env.get(("x", "rec")):
                    return False
        return ok

    def on_return(self, n, env, val):
        e0 = n.ch[0] if n.ch else None
        rt = self.f.ret.kind
        if rt == "bool" and e0 is not None:
            t = truth(val)
            if t is None:
                for want in (True, False):
                    e = env.copy()
                    if self.assume(e0, want, e):
                        self.out(n, e, T if want else F)
                return
            self.out(n, env, T if t else F)
        elif rt == "ptr":
            self.out(n, env, F if val == 0 else T)
        elif rt == "int":
            t = truth(val)
            self.out(n, env, None if t is None else int(t))
        else:
            self.out(n, env, None)

    def on_exit(self, env):
        if self.f.ret.kind == "void":
            self.out(None, env, None)

    def out(self, n, env, v):
        rec = env.get(("x", "rec")) or 0
        if rec and self.f.ret.kind == "void":
            # a lexer defers the error by turning the token into an error token
            if rec == DIRECT:
                st = {(k, x) for k, x in env.m.items()
                      if len(k) > 1 and is_status(k) and isinstance(x, int)}
                v = env.get(("x", "st"))
                if isinstance(v, int):
                    st.add(("st", v))
                self.status = st if self.status is None else self.status & st
        k = (v, rec, env.get(("x", "fail")), env.get(("x", "quiet")))
        self.res.setdefault(k, n)


class DB:
    def __init__(self, prog):
        self.prog = prog
        self.recs = err_records(prog)
        self.fal = {f.key: f for f in prog.functions.values()
                    if f.ret.kind in ("bool", "ptr") and has_err_param(f, self.recs)}
        # void functions with an error object that record messages
        self.voidrec = {f.key: f for f in prog.functions.values()
                        if f.ret.kind == "void" and has_err_param(f, self.recs)}
        self._always = {}
        self.status = self.status_writers()
        self.memo = {}
        self.full = {}
        self.busy = set()
        self.bad_exits = []
        self.steering = self.find_steering()
        self.fix()

    def status_writers(self):
        """functions that may change the type of a token (or of anything else)"""
        fs = self.prog.functions
        r = {k for k, f in fs.items() if f.body is not None and any(
            n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and
            n.op not in ("==", "!=", "<=", ">=") and
            (writes_status(n) or n.ch[0].type is not None and n.ch[0].type.kind == "rec")
            for n in f.body.walk())}
        users = {}
        for k, f in fs.items():
            for c in f.calls():
                g = self.prog.resolve(c)
                if g is not None:
                    users.setdefault(g.key, set()).add(k)
        todo = list(r)
        while todo:
            for u in users.get(todo.pop(), ()):
                if u not in r:
                    r.add(u)
                    todo.append(u)
        return r

    def find_steering(self):
        """(function, parameter index) pairs that decide how an error is treated:
        switch/branch on it, or pass it on to such a parameter"""
        st = set()
        fs = list(self.fal.values())
        for f in fs:
            pi = {i: k for k, i in enumerate(f.raw["params"])}
            for b in f.blocks.values():
                c = b.cond
                if c is None:
                    continue
                for n in c.walk():
                    if n.k == "DeclRefExpr" and n.decl.i in pi and \
                            n.type.kind in ("int", "enum", "bool"):
                        if b.term.k == "SwitchStmt":
                            st.add((f.key, pi[n.decl.i]))
        ch = True
        while ch:
            ch = False
            for f in fs:
                pi = {i: k for k, i in enumerate(f.raw["params"])}
                for c in f.calls():
                    g = self.prog.resolve(c)
                    if g is None:
                        continue
                    for j, a in enumerate(c.args):
                        if (g.key, j) in st:
                            s = a.strip()
                            if s.k == "DeclRefExpr" and s.decl.i in pi and \
                                    (f.key, pi[s.decl.i]) not in st:
                                st.add((f.key, pi[s.decl.i]))
                                ch = True
        return st

    def always(self, g):
        """the truth value that all returns of g have, if they are constants"""
        if g.key not in self._always:
            vs = {truth(n.ch[0].strip().val) if n.ch and n.ch[0].strip().val is not None else None
                  for n in g.body.walk() if n.k == "ReturnStmt"} if g.ret.kind == "bool" else {None}
            v = vs.pop() if len(vs) == 1 else None
            self._always[g.key] = None if v is None else int(v)
        return self._always[g.key]

    def outcomes(self, g, consts=()):
        key = (g.key, consts)
        if self.cur is not None:
            self.users.setdefault(key, set()).add(self.cur)
        if key not in self.memo:
            self.memo[key] = set()
            self.todo.append(key)
        return self.memo[key]

    def fix(self):
        self.todo = []
        self.users = {}
        self.cur = None
        for f in list(self.fal.values()) + list(self.voidrec.values()):
            self.outcomes(f)
        self.todo.reverse()
        n = 0
        while self.todo:
            key = self.todo.pop()
            n += 1
            if n > 20000:
                raise Broken("no fixpoint of failure summaries")
            g = self.prog.functions[key[0]]
            self.cur = key
            o = Outcomes(self, g, key[1])
            r = o.go()
            self.cur = None
            self.full[key] = r
            s = {(k[0], k[1]) for k in r}
            if not s <= self.memo[key]:
                self.memo[key] = self.memo[key] | s
                for u in self.users.get(key, ()):
                    if u not in self.todo:
                        self.todo.append(u)
        self.runs = n
