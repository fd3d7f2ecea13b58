"""P02: a failed run says why; a run that recorded an error fails."""
import fallible as FB
from flow import Explorer, Env, truth, NZ


class MainPaths(Explorer):
    """does every exit(failure) after a failed step come after a print to stderr of
    the recorded message?"""

    def __init__(self, db, f):
        super().__init__(db.prog, f)
        self.db = db
        self.bad = []
        self.good = 0

    def call_outcomes(self, call, env):
        if call.callee == "exit" and env.get(("x", "fail")):
            if not env.get(("x", "said")):
                self.bad.append(call)
            else:
                self.good += 1
            return None
        g = self.prog.resolve(call)
        if call.callee in ("fprintf", "fputs", "fwrite"):
            has_err = any(n.k == "DeclRefExpr" and n.name in ("stderr",) or
                          (n.k == "DeclRefExpr" and n.decl.name == "stderr")
                          for n in call.walk())
            has_msg = any(FB.is_err_msg(n) for a in call.args for n in a.walk()
                          if n.k == "MemberExpr")
            if has_err and has_msg:
                env.set(("x", "said"), 1)
            return None
        if g is not None and g.key in self.db.fal and g.ret.kind == "bool":
            return [(1, {}), (0, {("x", "fail"): 1})]
        if g is not None and g.key not in self.db.fal and any(
                FB.is_err_msg(n) for a in call.args for n in a.walk() if n.k == "MemberExpr"):
            # a helper that gets the message and prints to stderr
            if prints(g):
                env.set(("x", "said"), 1)
        elif g is not None and g.key not in self.db.fal and prints(g) and any(
                a.type is not None and a.type.kind == "ptr" and a.type.ptr_rec() == "cp_err_t"
                for a in call.args):
            env.set(("x", "said"), 1)
        return None

    def on_return(self, n, env, v):
        if env.get(("x", "fail")):
            if truth(v) is not True:
                self.bad.append(n)
            elif not env.get(("x", "said")):
                self.bad.append(n)
            else:
                self.good += 1


def prints(g):
    return any(c.callee in ("fprintf", "fputs", "fwrite") and
               any(n.k == "DeclRefExpr" and n.decl.name == "stderr" for n in c.walk())
               for c in g.calls())


def run(prog, rep):
    rep.rule("no path of a fallible function may return success after it recorded an error "
             "itself (severity-steered functions are summarised per constant severity)")
    rep.rule("a function that fails on some path with a recorded message and is called across "
             "file boundaries may fail on no path without one")
    rep.rule("every failing exit of the program entry after a failed step prints the recorded "
             "message to stderr first and passes a nonzero status")
    db = FB.DB(prog)
    rep.count("functions that can fail", len(db.fal))
    rep.floor("functions that can fail", 100)
    for key, r in db.full.items():
        f = prog.functions[key[0]]
        if f.key not in db.fal:
            continue
        for (v, rec, fl, qu), n in sorted(r.items(), key=str):
            rep.count("path outcome classes examined")
            if v == FB.T and rec == FB.DIRECT and f.ret.kind == "bool":
                rep.viol("%s:success-after-error" % f.key, "%s:%d" % (f.relfile, n.line),
                         "%s() returns success here although an error was recorded"
                         % f.name)
    for (k, c), outs in sorted(db.memo.items(), key=str):
        f = prog.functions[k]
        if c or k not in db.fal or f.ret.kind != "bool":
            continue
        says = (FB.F, FB.DIRECT) in outs
        quiet = (FB.F, 0) in outs
        if says:
            rep.count("functions failing with a message")
            rep.sample("function whose every failure carries a message", f.key)
        if says and quiet and not f.static:
            for (v, rec, fl, qu), n in sorted(db.full[(k, c)].items(), key=str):
                if v == FB.F and not rec:
                    why = f.nodes[qu].src(2)[:60] if qu is not None else "its own return"
                    rep.viol("%s:quiet-failure" % f.key, "%s:%d" % (f.relfile, n.line),
                             "%s() can fail here without any message (through %s)"
                             % (f.name, why))
    rep.floor("functions failing with a message", 60)
    m = prog.fn("main")
    mp = MainPaths(db, m)
    mp.run()
    rep.count("failing exits of the program entry", mp.good + len(mp.bad))
    rep.floor("failing exits of the program entry", 1)
    for n in mp.bad:
        rep.viol("main:silent-exit", n.where(), "the run can end after a failed step without "
                 "printing its message (or with status 0)")
