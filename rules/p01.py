"""P01: a failure reported by any step makes the whole run fail."""
import fallible as FB
from util import discarded
from flow import path, norm


def never_read(f, n):
    """the value ends in a local variable nobody reads"""
    q = n
    while q.par is not None and q.par.k in ("ImplicitCastExpr", "CStyleCastExpr"):
        q = q.par
    pr = q.par
    d = None
    if pr is not None and pr.k == "DeclStmt":
        for di, ini in pr.raw["ds"]:
            if ini == q.i:
                d = f.tu.decls[di]
    elif pr is not None and pr.k == "BinaryOperator" and pr.op == "=" and pr.ch[1] is q:
        l = pr.ch[0].strip()
        if l.k == "DeclRefExpr" and l.decl.raw["k"] == "local" and discarded(pr):
            d = l.decl
    if d is None:
        return False
    for m in f.body.walk():
        if m.k == "DeclRefExpr" and m.decl is d:
            p = m.par
            if p is not None and p.k == "BinaryOperator" and p.op == "=" and p.ch[0] is m:
                continue
            return False
    return True


def run(prog, rep):
    rep.rule("every function that takes part in error reporting (it returns a truth value or "
             "pointer and reaches an error object) is summarised by the (result, message "
             "recorded) pairs of its paths; on no path may a callee's recorded failure be "
             "followed by a success result of the caller or by exit(0)")
    rep.rule("no call with a failing outcome that leaves no message may have its result discarded")
    db = FB.DB(prog)
    rep.count("functions that can fail", len(db.fal))
    rep.count("summaries computed (functions x steering constants)", len(db.memo))
    rep.floor("functions that can fail", 100)

    seen = set()

    def judge(f, res):
        for (v, rec, fl, qu), n in sorted(res.items(), key=str):
            rep.count("path outcome classes examined")
            if fl is not None and v != FB.F and f.ret.kind in ("bool", "ptr", "int"):
                c = f.nodes[fl]
                nm = c.callee or c.ch[0].src(3)
                k = "%s:swallows:%s" % (f.key, nm)
                if k not in seen:
                    seen.add(k)
                    rep.viol(k, c.where(),
                             "%s() fails and records its message here, but %s() can still "
                             "report success (line %s)" % (nm, f.name, n.line if n else "end"))

    for key, r in db.full.items():
        judge(prog.functions[key[0]], r)

    for f in prog.functions.values():
        if f.key in db.fal or f.key in db.voidrec:
            continue
        calls = [c for c in f.calls() if (g := prog.resolve(c)) is not None and g.key in db.fal]
        if not calls:
            continue
        rep.count("callers outside the error protocol")
        o = FB.Outcomes(db, f)
        judge(f, o.go())
        if f.name == "main":
            rep.count("program entry")
    rep.floor("program entry", 1)
    for f, c in db.bad_exits:
        rep.viol("%s:exit-success-after-failure" % f.key, c.where(),
                 "the run can end with a success status after a step failed")

    for f in prog.functions.values():
        for c in f.calls():
            g = prog.resolve(c)
            fal = False
            if g is not None and g.key in db.fal and g.ret.kind == "bool":
                # constant-steered variants that cannot fail may be ignored
                rep.count("calls that can fail")
                outs = db.memo.get((g.key, ()), set())
                con = tuple((i, a.val) for i, a in enumerate(c.args)
                            if a.val is not None and (g.key, i) in db.steering)
                if con and (g.key, con) in db.memo:
                    outs = db.memo[(g.key, con)]
                # failures with a message are followed along the paths (rule 1);
                # an answer without a message must be looked at
                fal = (FB.F, 0) in outs
            elif g is None and c.fn is None and FB.proto_fallible(c, db.recs):
                fal = True
                rep.count("calls that can fail")
            if not fal:
                continue
            nm = c.callee or c.ch[0].src(3)
            if discarded(c) or never_read(f, c):
                rep.viol("%s:discards:%s" % (f.key, nm), c.where(),
                         "%s() ignores whether %s() succeeded" % (f.name, nm))
            else:
                rep.sample("call whose failure is propagated",
                           "%s %s(): %s" % (c.where(), f.name, c.src(2)[:80]))
    rep.floor("calls that can fail", 250)
