"""P03: output that could not be written in full makes the run fail."""
from ctx import CtxExplorer
from flow import Env, path, norm, truth
from facts import Broken, fkey

WRITERS = {"fwrite": 3, "vfprintf": 0, "fprintf": 0, "fputs": 1, "fputc": 1, "putc": 1,
           "puts": None, "putchar": None, "printf": None, "vprintf": None, "write": 0,
           "fwrite_unlocked": 3, "dprintf": 0}
SETTLE = {"fclose": 0, "fflush": 0}


def is_std(n, name):
    return any(m.k == "DeclRefExpr" and m.decl.name == name for m in n.walk())


class Put(CtxExplorer):
    """does every normal return come after the write was found complete?"""

    def __init__(self, prog, f, counts):
        super().__init__(prog, f)
        self.bad = {}
        self.counts = counts

    def full_count(self, call):
        if call.callee in ("fwrite", "fwrite_unlocked"):
            sz = call.args[1].val
            return call.args[2] if sz == 1 else \
                (call.args[1] if call.args[2].val == 1 else call.args[2])
        if call.callee == "write":
            return call.args[2]
        return None

    def on_element(self, n, env):
        if n.k == "CallExpr" and n.callee in WRITERS and not is_std(n, "stderr"):
            env.set(("x", "w", n.i), 1)
            self.counts.add((self.f.key, n.i))
        elif n.k == "DeclStmt":
            for di, ini in n.raw["ds"]:
                if ini >= 0:
                    self.alias(di, self.f.nodes[ini], env)
        elif n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k == "DeclRefExpr":
            self.alias(n.ch[0].strip().decl.i, n.ch[1], env)
        return True

    def alias(self, di, e, env):
        env.m.pop(("x", "res", di), None)
        s = e.strip()
        if s is not None and s.k == "CallExpr" and s.callee in WRITERS:
            env.set(("x", "res", di), s.i)

    def who(self, n, env):
        s = n.strip()
        if s.k == "BinaryOperator" and s.op == "=":
            return self.who(s.ch[1], env)
        if s.k == "CallExpr" and s.callee in WRITERS:
            return s
        if s.k == "DeclRefExpr":
            i = env.get(("x", "res", s.decl.i))
            return self.f.nodes[i] if i is not None else None
        return None

    def same(self, a, b):
        pa, pb = path(a), path(b)
        if pa is not None and pa == pb:
            return True
        return a.val is not None and a.val == b.val

    def assume(self, n, t, env):
        ok = super().assume(n, t, env)
        m = n.strip() if n is not None else None
        if not ok or m is None or m.k != "BinaryOperator" or \
                m.op not in ("<", "<=", ">", ">=", "==", "!="):
            return ok
        SW = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
        for a, b, op in ((m.ch[0], m.ch[1], m.op), (m.ch[1], m.ch[0], SW.get(m.op, m.op))):
            c = self.who(a, env)
            if c is None:
                continue
            if not t:
                op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
            full = self.full_count(c)
            good = False
            if full is not None:
                good = op in ("==", ">=") and self.same(b, full)
            else:
                v = b.strip().val if b.strip().val is not None else b.val
                if v is not None:
                    good = (op == ">=" and v >= 0) or (op == ">" and v >= -1) or \
                        (op == "==" and v >= 0 and c.callee not in ("fputs", "fputc", "putc")) or \
                        (op == "!=" and v == -1)
            if good:
                env.m.pop(("x", "w", c.i), None)
        return ok

    def judge(self, env):
        for k in env.m:
            if k[0] == "x" and k[1] == "w":
                c = self.f.nodes[k[2]]
                self.bad.setdefault(c.i, c)

    def on_return(self, n, env, val):
        if self.f.ret.kind == "bool" and val == 0:
            return
        self.judge(env)

    def on_exit(self, env):
        if self.f.ret.kind == "void":
            self.judge(env)


class Entry(CtxExplorer):
    """between the pipeline's success and exit(success) the output file is flushed or closed,
    and the result of that is looked at"""
    MAX_DEPTH = 2

    def __init__(self, prog, f, pipeline, rep, depth=0):
        super().__init__(prog, f)
        self.pipeline = pipeline
        self.rep = rep
        self.depth = depth
        self.bad = []
        self.good = 0
        self.ret_settled = None

    def file_of(self, a):
        s = a.strip()
        if is_std(s, "stdout"):
            return "stdout"
        if s.val == 0:
            return "all"
        p = path(s)
        return p

    def call_outcomes(self, call, env):
        c = call.callee
        if c in SETTLE:
            who = self.file_of(call.args[SETTLE[c]])
            env.set(("x", "try", call.i), who)
            return [(0, {("x", "done", who): 1}), (-1, {})]
        g = self.prog.resolve(call)
        if g is not None and g.key in self.pipeline:
            for k in [k for k in env.m if k[0] == "x" and k[1] in ("done", "null")]:
                del env.m[k]
            for k in [k for k in env.m if k[0] not in ("x", "n") and len(k) == 1]:
                if env.m[k] == 0:
                    env.set(("x", "null", k), 1)
            return [(1, {("x", "ran"): 1}), (0, {("x", "failed"): 1})]
        if c in ("exit", "_exit", "_Exit", "quick_exit"):
            self.end(call, env, self.ev(call.args[0], env))
            return None
        if g is not None and self.depth < self.MAX_DEPTH and self.mentions(g):
            e = Entry(self.prog, g, self.pipeline, self.rep, self.depth + 1)
            e.run()
            self.bad += e.bad
            outs = e.ret_settled or {}
            alts = []
            for tv, sets in outs.items():
                both = frozenset.intersection(*sets) if sets else frozenset()
                xs = {}
                for w in both:
                    if isinstance(w, tuple) and w and w[0] in g.raw["params"]:
                        i = g.raw["params"].index(w[0])
                        if i < len(call.args):
                            xs[("x", "done", self.file_of(call.args[i]))] = 1
                    elif w in ("stdout", "all"):
                        xs[("x", "done", w)] = 1
                alts.append((None if tv == "v" else tv, xs))
            return alts if alts else None
        return None

    def mentions(self, g):
        st, seen = [g], set()
        while st:
            h = st.pop()
            if h.key in seen or len(seen) > 20:
                continue
            seen.add(h.key)
            for c in h.calls():
                if c.callee in SETTLE or c.callee in ("exit",):
                    return any(x.callee in SETTLE for x in h.calls()) or h is g
                k = self.prog.resolve(c)
                if k is not None and k.static:
                    st.append(k)
        return False

    def note(self, tv, env):
        s = frozenset(k[2] for k in env.m if k[0] == "x" and k[1] == "done") | \
            frozenset((i,) for i in self.f.raw["params"] if env.get((i,)) == 0)
        if self.ret_settled is None:
            self.ret_settled = {}
        self.ret_settled.setdefault(tv, []).append(s)

    def on_return(self, n, env, val):
        if self.f.name == "main":
            self.end(n, env, val)
            return
        t = truth(val)
        self.note("v" if self.f.ret.kind == "void" else (int(t) if t is not None else None), env)

    def on_exit(self, env):
        if self.f.ret.kind == "void":
            self.note("v", env)

    def end(self, n, env, val):
        if not env.get(("x", "ran")) or env.get(("x", "failed")):
            return
        t = truth(val)
        if t is True:
            return
        done = {k[2] for k in env.m if k[0] == "x" and k[1] == "done"}
        need_files = set()
        # the stream's files in this function
        for m in self.f.body.walk():
            if m.k == "InitListExpr" and m.type is not None and m.type.rec == "cp_stream_t":
                r = self.f.tu.records["cp_stream_t"]
                for fd, c in zip(r["f"], m.ch):
                    if fd["n"] == "data" and c is not None:
                        need_files.add(self.file_of(c))
        self.good += 1
        if "all" in done:
            return
        for w in need_files:
            if w in done:
                continue
            if w == "stdout":
                # fine when another file was closed on this path (the output went there)
                if any(d in done for d in need_files if d != "stdout"):
                    continue
            else:
                if env.get(("x", "null", w)):
                    continue
            self.bad.append((n, w))


def run(prog, rep):
    rep.rule("every function installed as the write operation of an output stream compares the "
             "result of the C library call with 'complete', and the incomplete case does not "
             "return normally")
    rep.rule("on every path of the program entry from the pipeline's success to a success exit, "
             "the file behind the output stream was flushed or closed and that call's success "
             "was established")
    rep.rule("the writers reach the output only through the stream (no direct stdio output to "
             "another file than stderr)")
    sinks = set()
    for f in prog.functions.values():
        for m in f.body.walk():
            if m.k == "InitListExpr" and m.type is not None and m.type.rec == "cp_stream_t":
                for c in m.walk():
                    if c.k == "DeclRefExpr" and c.decl.raw["k"] == "func":
                        sinks.add(fkey(c.decl, prog.repo))
            if m.k == "BinaryOperator" and m.op == "=" and m.ch[0].strip().k == "MemberExpr" and \
                    m.ch[0].strip().decl.raw.get("rec") == "cp_stream_t":
                for c in m.ch[1].walk():
                    if c.k == "DeclRefExpr" and c.decl.raw["k"] == "func":
                        sinks.add(fkey(c.decl, prog.repo))
    todo, seen = [prog.functions[k] for k in sinks if k in prog.functions], set()
    counts = set()
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        x = Put(prog, f, counts)
        x.run()
        for c in x.bad.values():
            rep.viol("%s:%s-unchecked" % (f.key, c.callee), c.where(),
                     "%s() returns normally although %s() may have written less than asked"
                     % (f.name, c.callee))
        for c in f.calls():
            g = prog.resolve(c)
            if g is not None and not g.raw.get("noreturn") and any(
                    a.type is not None and a.type.kind == "ptr" and
                    (a.type.ptr_rec() or "") in ("_IO_FILE", "FILE") for a in c.args):
                todo.append(g)
    rep.count("stream operations", len(seen))
    rep.count("library write calls behind the stream", len(counts))
    rep.floor("library write calls behind the stream", 2)

    m = prog.fn("main")
    pipe = set()
    for c in m.calls():
        g = prog.resolve(c)
        if g is not None and g.ret.kind == "bool" and any(
                a.type is not None and a.type.kind == "ptr" and a.type.ptr_rec() == "cp_stream_t"
                for a in c.args):
            pipe.add(g.key)
    rep.count("pipeline calls of the entry point", len(pipe))
    rep.floor("pipeline calls of the entry point", 1)
    e = Entry(prog, m, pipe, rep)
    e.run()
    rep.count("success exits after output", e.good)
    rep.floor("success exits after output", 1)
    for n, w in e.bad:
        rep.viol("main:output-not-settled:%s" % (w if isinstance(w, str) else "file"), n.where(),
                 "the run can end with success here although the buffered output (%s) was never "
                 "successfully flushed or closed" % (w if isinstance(w, str) else
                                                     m.tu.decls[w[0]].name))

    # writers use the stream only
    users = 0
    for f in prog.own():
        if not any(d.type.kind == "ptr" and (d.type.ptr_rec() == "cp_stream_t" or has_stream(f, d))
                   for d in f.params):
            continue
        if f.key in seen:
            continue
        users += 1
        for c in f.calls():
            if c.callee in WRITERS and not is_std(c, "stderr"):
                rep.viol("%s:bypasses-stream" % f.key, c.where(),
                         "%s() writes with %s() directly, past the checked stream"
                         % (f.name, c.callee))
    rep.count("functions writing through a stream", users)
    rep.floor("functions writing through a stream", 40)


def has_stream(f, d):
    r = f.tu.records.get(d.type.ptr_rec() or "")
    if not r:
        return False
    for fd in r["f"]:
        t = f.tu.types[fd["t"]]
        if t.kind == "ptr" and t.ptr_rec() == "cp_stream_t":
            return True
    return False
