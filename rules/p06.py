"""P06: an answer that may be 'nothing' is checked before it is used."""
from ctx import CtxExplorer, result_of
from canon import canon
from facts import Broken, fkey
from flow import Env, truth, path, norm
from inline import reach
from p13 import find_table, handle, param_rec, parse_doc, recursive
from p19 import place

EXT = {"strchr", "strrchr", "strstr", "memchr", "fopen", "freopen", "fdopen", "bsearch", "getenv",
       "realpath", "tmpfile", "strpbrk", "memmem", "popen", "fgets", "localtime", "gmtime",
       "setlocale", "dlsym", "strdup"}


class Slim(CtxExplorer):
    """forgets what is not about pointers when a function has too many states"""
    slim = False

    def on_block(self, b, env):
        # once tested, the answer is no longer in doubt
        for k in [k for k in env.m if k[0] == "x" and k[1] == "may"]:
            if truth(env.get(k[2])) is True:
                self.checked.add(env.m.pop(k))
        if self.slim:
            for k in [k for k in env.m if k[0] not in ("n", "x")]:
                d = self.f.tu.decls[k[0]]
                if len(k) == 1 and (d.type is None or d.type.kind != "ptr") or len(k) > 1 and \
                        isinstance(env.m[k], int) and env.m[k] != 0:
                    del env.m[k]
            for k in [k for k in env.m if k[0] == "x" and k[1] == "def"]:
                del env.m[k]
        return True


def go(mk, env=None):
    x = mk()
    x.max_states = 300
    try:
        x.run(env=Env(dict(env or {})))
    except Broken:
        x = mk()
        x.slim = True
        x.run(env=Env(dict(env or {})))
    return x


class Ret(Slim):
    def __init__(self, prog, f, nullable):
        super().__init__(prog, f)
        self.checked = set()
        self.nullable = nullable
        self.null = None

    def on_return(self, n, env, val):
        if not n.ch:
            return
        if val == 0:
            # an allocation of nothing is not a failed lookup
            if not any(p.type.kind == "int" and env.get((p.i,)) == 0 for p in self.f.params):
                self.null = self.null or n
            return
        if truth(val) is True:
            return
        e = n.ch[0].strip()
        if e.k == "CallExpr" and env.get(("n", e.i)) is None and is_nullable(self, e):
            self.null = self.null or n
            return
        p = path(e)
        if p is not None and env.get(("x", "may", norm(p))) and truth(val) is not True:
            self.null = self.null or n

    def transfer(self, n, env):
        super().transfer(n, env)
        track(self, n, env)


def is_nullable(x, call):
    if call.callee in EXT:
        return True
    g = x.prog.resolve(call)
    return g is not None and g.key in x.nullable


def source(x, e):
    """the nullable call whose result expression e is"""
    e = e.strip() if e is not None else None
    while e is not None:
        if e.k == "CallExpr":
            return e if is_nullable(x, e) else None
        if e.k == "StmtExpr" and e.ch[0].ch:
            e = e.ch[0].ch[-1].strip()
        elif e.k == "BinaryOperator" and e.op in ("=", ","):
            e = e.ch[1].strip()
        else:
            return None
    return None


def track(x, n, env):
    if n.k == "CallExpr":
        for k in [k for k in env.m if k[0] == "x" and k[1] == "may"]:
            if (k[2][0] in x.escaped or len(k[2]) > 1) and not x.keep_over_call(n, k[2]):
                g = x.prog.resolve(n)
                t = k[2][-1]
                if getattr(x, "writes", None) and isinstance(t, str) and t[0] == "." and (
                        g is None or t[1:] not in {q[1] for q in x.writes(g.key)}):
                    continue
                del env.m[k]
    def put(p, rhs):
        p = norm(p)
        for k in [k for k in env.m if k[0] == "x" and k[1] == "may" and k[2][:len(p)] == p]:
            del env.m[k]
        if rhs is None:
            return
        s = source(x, rhs)
        if s is None:
            q = path(rhs.strip()) if rhs.strip() is not None else None
            if q is not None and env.get(("x", "may", norm(q))) and truth(env.get(norm(q))) is None:
                env.set(("x", "may", p), env.get(("x", "may", norm(q))))
            return
        if truth(x.ev(rhs, env)) is True:
            return
        env.set(("x", "may", p), s.i)
    if n.k == "DeclStmt":
        for di, ini in n.raw["ds"]:
            put((di,), x.f.nodes[ini] if ini >= 0 else None)
    elif n.k == "BinaryOperator" and n.op == "=":
        p = path(n.ch[0])
        if p is not None:
            put(p, n.ch[1])


class Use(Slim):
    def __init__(self, prog, f, nullable, needs):
        super().__init__(prog, f)
        self.nullable, self.needs = nullable, needs
        self.badf, self.nfield, self.fields = {}, set(), {}
        self._fp = None
        self.lift, self.reqs = {}, {}
        self.assigned = {n.ch[0].strip().decl.i for n in f.body.walk()
                         if (n.k in ("BinaryOperator", "CompoundAssignOperator") and
                             n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") or
                             n.k == "UnaryOperator" and n.op in ("++", "--", "&"))
                         and n.ch[0].strip().k == "DeclRefExpr"}
        self.bad = {}
        self.checked = set()
        self.sites = set()

    def transfer(self, n, env):
        if n.k == "CallExpr":
            # a callee that may set the field is taken to do so
            for a in n.args:
                m = a.strip()
                if m is not None and m.k == "UnaryOperator" and m.op == "&":
                    q = m.ch[0].strip()
                    if q.k == "MemberExpr" and (rec_of(q), q.name) in self.fields:
                        p = path(q)
                        if p is not None:
                            env.set(("x", "ok", norm(p)), 1)
            g = self.prog.resolve(n)
            for q, fld in self.fpaths().items():
                if truth(env.get(q)) is True or not self.keep_over_call(n, q) and \
                        (g is None or fld in self.writes(g.key)):
                    env.set(("x", "ok", q), 1)
        super().transfer(n, env)
        if n.k == "CallExpr" and is_nullable(self, n):
            self.sites.add(n.i)
        track(self, n, env)
        if n.k == "DeclStmt":
            for di, _ in n.raw["ds"]:
                self.drop((di,), env)
        elif n.k == "BinaryOperator" and n.op == "=":
            p = path(n.ch[0])
            if p is not None:
                p = norm(p)
                self.drop(p, env)
                if p in self.fpaths() and truth(env.get(p)) is not False and \
                        not env.get(("x", "may", p)):
                    env.set(("x", "ok", p), 1)

    def drop(self, p, env):
        for k in [k for k in env.m if k[0] == "x" and k[1] == "ok" and k[2][:len(p)] == p]:
            del env.m[k]

    def fpaths(self):
        if self._fp is None:
            self._fp = {}
            for m in self.f.body.walk():
                if m.k == "MemberExpr" and (rec_of(m), m.name) in self.fields:
                    p = path(m)
                    if p is not None:
                        self._fp[norm(p)] = (rec_of(m), m.name)
                if m.k == "CallExpr":
                    g = self.prog.resolve(m)
                    for i, a in enumerate(m.args if g is not None else ()):
                        for fld in self.reqs.get((g.key, i), ()):
                            q = field_path(a, fld)
                            if q is not None:
                                self._fp[q] = fld
        return self._fp

    def use_field(self, p, fld, m, n, env, lifted=False):
        """optional field at path p (None: unknown object) is used by n"""
        self.nfield.add(n.i)
        if p is None and not lifted or p is not None and (
                truth(env.get(p)) is True or env.get(("x", "ok", p))):
            return
        self.badf.setdefault((n.i, fld), (m, n))
        if p is not None and len(p) == 2:
            for i, q in enumerate(self.f.params):
                if q.i == p[0] and q.i not in self.assigned and q.type.kind == "ptr":
                    self.lift.setdefault((n.i, fld), set()).add(i)
                    return
        self.lift.setdefault((n.i, fld), set()).add(None)

    def on_block(self, b, env):
        for q in self.fpaths():
            if truth(env.get(q)) is True:
                env.set(("x", "ok", q), 1)
        return super().on_block(b, env)

    def on_assume_call(self, call, t, env):
        """f(x) is true, f(NULL) would not be: x is not NULL"""
        if not t:
            return
        g = self.prog.resolve(call)
        if g is None:
            return
        for a, p in zip(call.args, g.raw["params"]):
            q = path(a)
            if q is None or a.type is None or a.type.kind != "ptr" or \
                    truth(env.get(norm(q))) is not None:
                continue
            e = env.copy()
            e.set(norm(q), 0)
            if result_of(self, g, call, e) == 0:
                env.set(norm(q), ("ne", frozenset([0])))

    def maybe(self, e, env):
        """the nullable call that pointer expression e may be an unchecked result of"""
        if truth(self.ev(e, env)) is True:
            return None
        s = source(self, e)
        if s is not None:
            return s
        q = e.strip()
        p = path(q) if q is not None else None
        if p is not None:
            i = env.get(("x", "may", norm(p)))
            if i is not None:
                v = env.get(norm(p))
                if truth(v) is True:
                    self.checked.add(i)
                    return None
                return self.f.nodes[i]
        return None

    def on_element(self, n, env):
        base = None
        if n.k == "MemberExpr" and n.raw.get("arrow"):
            # &p->field of a null pointer counts as use as well
            base = n.ch[0]
        elif n.k == "UnaryOperator" and n.op == "*":
            base = n.ch[0]
        elif n.k == "ArraySubscriptExpr":
            base = n.ch[0]
            if base.strip().type is not None and base.strip().type.kind == "arr":
                base = None
        elif n.k == "CallExpr":
            g = self.prog.resolve(n)
            if g is not None:
                for i, (a, p) in enumerate(zip(n.args, g.raw["params"])):
                    for fld in self.reqs.get((g.key, i), ()):
                        self.use_field(field_path(a, fld), fld, a, n, env, True)
                    if (g.key, p) in self.needs:
                        m = a.strip()
                        if m is not None and m.k == "MemberExpr" and \
                                (rec_of(m), m.name) in self.fields and \
                                m.type is not None and m.type.kind == "ptr":
                            self.use_field(path(m) and norm(path(m)), (rec_of(m), m.name),
                                           m, n, env)
                        s = self.maybe(a, env)
                        if s is not None:
                            self.bad.setdefault((s.i, n.i), (s, n))
            elif n.callee in LIBC:
                for k, a in enumerate(n.args):
                    if k in LIBC[n.callee]:
                        s = self.maybe(a, env)
                        if s is not None:
                            self.bad.setdefault((s.i, n.i), (s, n))
        elif n.k == "InitListExpr":
            # a stream made of a file that may not be open
            for a in n.ch:
                s = self.maybe(a, env) if a is not None and a.strip() is not None else None
                if s is not None and s.callee in OPENS:
                    self.bad.setdefault((s.i, n.i), (s, n))
        if base is not None:
            m = base.strip()
            if m.k == "MemberExpr" and (rec_of(m), m.name) in self.fields:
                self.use_field(path(m) and norm(path(m)), (rec_of(m), m.name), m, n, env)
            s = self.maybe(base, env)
            if s is not None:
                self.bad.setdefault((s.i, n.i), (s, n))
        return True


OPENS = ("fopen", "freopen", "fdopen", "tmpfile", "popen")
LIBC = {"fprintf": (0,), "vfprintf": (0,), "fputc": (1,), "putc": (1,), "fgets": (2,),
        "strlen": (0,), "strcmp": (0, 1), "memcpy": (0, 1), "fclose": (0,), "fread": (3,),
        "fwrite": (3,), "strtod": (0,), "strtoul": (0,), "fputs": (0, 1), "strncmp": (0, 1),
        "strcasecmp": (0, 1), "fseek": (0,), "fgetc": (0,), "strdup": (0,)}


class Needs(Slim):
    """parameters dereferenced on every path before any test of them"""
    def __init__(self, prog, f, di):
        super().__init__(prog, f)
        self.di = di
        self.hit = False
        self.checked = set()
        self.tested = False

    def on_element(self, n, env):
        b = None
        if n.k == "MemberExpr" and n.raw.get("arrow"):
            b = n.ch[0]
        elif n.k == "UnaryOperator" and n.op == "*":
            b = n.ch[0]
        elif n.k == "ArraySubscriptExpr":
            b = n.ch[0]
        elif n.k == "CallExpr" and n.callee in LIBC:
            for i in LIBC[n.callee]:
                if i < len(n.args):
                    b = n.args[i].strip()
                    if b.k == "DeclRefExpr" and b.decl.i == self.di and env.get((self.di,)) == 0:
                        self.hit = True
                        return False
            b = None
        if b is not None:
            b = b.strip()
            if b.k == "DeclRefExpr" and b.decl.i == self.di and env.get((self.di,)) == 0:
                self.hit = True
                return False
        return True


def field_path(a, fld):
    p = path(a)
    return norm(p + ("." + fld[1],)) if p is not None else None


def is_callee(n):
    for p in n.parents():
        if p.k == "CallExpr":
            return bool(p.ch) and p.ch[0].strip() is n
        if p.k not in ("ImplicitCastExpr", "ParenExpr"):
            return False
    return False


def field_writes(prog, live, fields):
    """function key -> fields that it, or what it calls, may set"""
    direct, calls = {}, {}
    for k in live:
        f = prog.functions[k]
        w = direct[k] = set()
        c = calls[k] = set()
        for n in f.body.walk():
            if n.k == "BinaryOperator" and n.op == "=":
                m = n.ch[0].strip()
                if m.k == "MemberExpr":
                    w.add((rec_of(m), m.name))
            elif n.k == "UnaryOperator" and n.op == "&":
                m = n.ch[0].strip()
                if m.k == "MemberExpr" and (rec_of(m), m.name) in fields:
                    w.add((rec_of(m), m.name))
            elif n.k == "CallExpr":
                g = prog.resolve(n)
                if g is not None:
                    c.add(g.key)
    memo = {}

    def get(k):
        if k not in memo:
            seen, st = {k}, [k]
            r = set()
            while st:
                q = st.pop()
                r |= direct.get(q, set())
                for g in calls.get(q, ()):
                    if g not in seen:
                        seen.add(g)
                        st.append(g)
            memo[k] = r
        return memo[k]
    return get


def rec_of(m):
    b = m.ch[0].strip_implicit()
    t = b.type
    if t is None:
        return None
    return t.ptr_rec() if m.raw.get("arrow") else t.rec


def optional_params(prog):
    """pointer fields that only an optional parameter of a functor sets"""
    rec, ix = param_rec(prog)
    docs = parse_doc(prog.repo)
    stop = recursive(prog)
    r = {}
    for name, (_, fn) in sorted((n, t[:2]) for n, t in find_table(prog, set(docs)).items()):
        h = prog.functions.get(fkey(fn, prog.repo))
        if h is None:
            continue
        x, sh = handle(prog, h, rec, ix, frozenset(), stop)
        for call, tabs in list(sh.log.values())[:1]:
            for p in (p for t in tabs for p in t):
                m = place(p.datan)
                if m is None or m.k != "MemberExpr" or p.mand or m.type is None or \
                        m.type.kind != "ptr":
                    continue
                if any(n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k ==
                       "MemberExpr" and n.ch[0].strip().name == m.name for n in m.f.body.walk()):
                    continue
                r.setdefault((rec_of(m), m.name), m)
    return r


def nullable_fields(prog, live):
    """pointer fields that live code tests for NULL outside assertions"""
    r = dict(optional_params(prog))
    for k in live:
        f = prog.functions[k]
        for n in f.body.walk():
            if n.k in ("ForStmt", "WhileStmt"):
                r.update(walked(f, n))
        if not f.relfile.startswith("src/hob3l/"):
            continue
        for n in f.body.walk():
            if n.k == "BinaryOperator" and n.op in ("==", "!="):
                for a, b in (n.ch, n.ch[::-1]):
                    m = a.strip()
                    if m is not None and m.k == "DeclRefExpr":
                        c = canon(f)
                        i = c.ini.get(m.decl.i) if m.decl.i not in c.bad else None
                        m = i.strip() if i is not None else m
                    if m.k == "MemberExpr" and m.type is not None and m.type.kind == "ptr" and \
                            b.strip().val == 0 and not asserted(n):
                        r.setdefault((rec_of(m), m.name), n)
    return r


def walked(f, n):
    """fields that a loop follows until there is nothing: for (; x != NULL; x = x->f)"""
    cond = n.ch[1] if n.k == "ForStmt" else n.ch[0]
    r = {}
    for c in cond.walk() if cond is not None else ():
        if c.k != "DeclRefExpr" or c.type is None or c.type.kind != "ptr":
            continue
        p = c.par
        while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"):
            p = p.par
        if not (p is n or p is not None and (
                p.k == "BinaryOperator" and (p.op in ("&&", "||") or p.op in ("!=", "==") and
                                             any(x.strip().val == 0 for x in p.ch)) or
                p.k == "UnaryOperator" and p.op == "!")):
            continue
        srcs = []
        for m in n.walk():
            if m.k == "DeclStmt":
                srcs += [f.nodes[i] for d, i in m.raw["ds"] if d == c.decl.i and i >= 0]
            elif m.k == "BinaryOperator" and m.op == "=" and \
                    m.ch[0].strip().k == "DeclRefExpr" and m.ch[0].strip().decl.i == c.decl.i:
                srcs.append(m.ch[1])
        for e in srcs:
            e = e.strip()
            if e is not None and e.k == "MemberExpr" and e.raw.get("arrow") and \
                    e.ch[0].strip().k == "DeclRefExpr" and e.ch[0].strip().decl.i == c.decl.i:
                r.setdefault((rec_of(e), e.name), e)
    return r


def asserted(n):
    if (n.macro or "").startswith("assert"):
        return True
    return any((p.macro or "").startswith("assert") for p in n.parents())


def run(prog, rep):
    rep.rule("functions that can return NULL are found by path-sensitive summaries (fixpoint); at "
             "every call of one, and of nullable library functions, no path may dereference the "
             "result, or hand it to a parameter that is dereferenced when NULL, without a test")
    live = reach(prog)
    nullable = {}
    fs = [prog.functions[k] for k in sorted(live) if prog.functions[k].ret.kind == "ptr"]
    ch = True
    rounds = 0
    while ch and rounds < 6:
        ch = False
        rounds += 1
        for f in fs:
            if f.key in nullable:
                continue
            r = go(lambda: Ret(prog, f, nullable))
            if r.null is not None:
                nullable[f.key] = r.null
                ch = True
    rep.count("functions that can return NULL", len(nullable))
    for k, n in sorted(nullable.items()):
        rep.sample("nullable function", "%s (%s)" % (k, n.where()))
    needs = set()
    fields = nullable_fields(prog, live)
    rep.count("optional fields", len(fields))
    for k in sorted(live):
        f = prog.functions[k]
        for p in f.params:
            if p.type.kind != "ptr":
                continue
            x = go(lambda: Needs(prog, f, p.i), {(p.i,): 0})
            if x.hit:
                needs.add((f.key, p.i))
    rep.floor("functions that can return NULL", 25)
    rep.count("pointer parameters that must not be NULL", len(needs))
    writes = field_writes(prog, live, fields)
    callers, taken = {}, set()
    for k in live:
        f = prog.functions[k]
        for n in f.body.walk():
            if n.k == "DeclRefExpr" and n.decl.raw["k"] == "func":
                g = fkey(n.decl, prog.repo)
                if is_callee(n):
                    callers.setdefault(g, set()).add(k)
                else:
                    taken.add(g)
    for tu in prog.tus:
        for gl in tu.globals:
            for n in gl.nodes:
                if n.k == "DeclRefExpr" and n.decl.raw["k"] == "func":
                    taken.add(fkey(n.decl, prog.repo))
    reqs, done = {}, {}
    todo = [k for k in sorted(live) if prog.functions[k].relfile.startswith("src/hob3l/") and (
        any(n.k == "MemberExpr" and (rec_of(n), n.name) in fields
            for n in prog.functions[k].body.walk()) or
        any(c.callee in EXT or prog.resolve(c) is not None and prog.resolve(c).key in nullable
            for c in prog.functions[k].calls()))]
    rounds = 0
    while todo:
        rounds += 1
        nxt = set()
        for k in todo:
            f = prog.functions[k]

            def mk():
                x = Use(prog, f, nullable, needs)
                x.fields, x.reqs, x.writes = fields, reqs, writes
                return x
            x = go(mk)
            done[k] = x
            for key in list(x.badf):
                who = x.lift[key]
                if None in who or k in taken or not callers.get(k) or rounds > 5:
                    continue
                # the obligation is the callers'
                del x.badf[key]
                for i in who:
                    if key[1] not in reqs.setdefault((k, i), set()):
                        reqs[(k, i)].add(key[1])
                        nxt |= callers[k]
        todo = sorted(nxt)
    rep.count("obligations passed on to callers", sum(len(v) for v in reqs.values()))
    for k, x in sorted(done.items()):
        f = prog.functions[k]
        rep.count("uses of optional fields", len(x.nfield))
        for (ni, fld), (m, n) in sorted(x.badf.items()):
            rep.viol("%s:%s:unchecked-field" % (f.key, fld[1]), n.where(),
                     "%s() uses %s, which may be NULL, without testing it" % (f.name, fld[1]))
        for n in x.nfield:
            rep.sample("optional field use", "%s in %s" % (f.nodes[n].where(), f.name))
        rep.count("calls that may yield NULL", len(x.sites))
        for (si, ni), (s, n) in sorted(x.bad.items()):
            rep.viol("%s:%s:unchecked" % (f.key, s.callee), n.where(),
                     "%s() uses the result of %s() without testing it for NULL"
                     % (f.name, s.callee))
    rep.floor("calls that may yield NULL", 40)
    rep.floor("uses of optional fields", 30)
