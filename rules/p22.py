"""P22: transformations multiply the coordinate matrix by the documented matrix."""
import math
import os
from fractions import Fraction

from alg import (ANAME, Machine, P, Ptr, Unsupported, apply_facts, fn, is_zero, mul, num, show, sub,
                 thaw, var, zero_facts)
from facts import Broken
from matalg import doc_matrices, evaluate, inv, mmul, off, unit, vecunit

KINDS = ("translate", "scale", "mirror", "rotate", "multmatrix")


def handlers(prog):
    """{kind: function}: those that get a transformation of the SCAD tree and a context with a
    coordinate matrix"""
    cand = {}
    for f in prog.functions.values():
        kind, ctx = None, None
        for p in f.params:
            r = p.type.ptr_rec() if p.type.kind == "ptr" else None
            if r is None:
                continue
            for k in KINDS:
                if r == "cp_scad_%s_t" % k:
                    kind = k
            if has_mat(prog, r):
                ctx = r
        if kind and ctx:
            cand.setdefault(kind, []).append((f, ctx))
    r = {}
    for k, l in cand.items():
        if len(l) > 1:
            callers = {}
            for f, _ in l:
                callers[f.key] = {g.key for g in prog.functions.values() for c in g.calls()
                                  if prog.resolve(c) is f}
            # the one that is not called by another one
            l = [x for x in l if not any(o[0].key in callers[x[0].key] for o in l)] or l
        r[k] = l[0]
    return r


def has_mat(prog, rec):
    tr = prog.records.get(rec)
    if tr is None:
        return False
    for fd in tr[1]["f"]:
        t = tr[0].types[fd["t"]]
        if t.kind == "ptr" and t.ptr_rec() == "cp_mat3wi_t" and fd["n"] == "mat":
            return True
    return False


def read(prog, mem, dflt, obj, o, mach):
    """number at a place of a recorded memory"""
    v = mem.get((obj, o))
    if v is not None:
        return v
    for s, e, src, so in reversed(dflt.get(obj, ())):
        if s <= o < e:
            return num(0) if src is None else var(("init", src, so + o - s))
    return var(("init", obj, o))


def mat(prog, mem, dflt, p, part, mach=None):
    b = off(prog, "cp_mat3wi_t", part)
    ob, ow = off(prog, "cp_mat3w_t", "b"), off(prog, "cp_mat3w_t", "w")
    rows = []
    for i in range(3):
        rows.append([read(prog, mem, dflt, p.obj, p.off + b + ob + 8 * (3 * i + j), mach)
                     for j in range(3)] +
                    [read(prog, mem, dflt, p.obj, p.off + b + ow + 8 * i, mach)])
    rows.append([num(0), num(0), num(0), num(1)])
    return rows


def run(prog, rep):
    rep.rule("on every path of a transformation's handler, the matrix, inverse matrix and "
             "determinant handed to the children equal (as rational functions of the parameters) the "
             "current ones multiplied by the documented matrix, its inverse and determinant")
    doc = open(os.path.join(prog.repo, "doc", "scadformat.md")).read()
    dm = doc_matrices(doc)
    hs = handlers(prog)
    for k in KINDS:
        if k not in hs:
            raise Broken("no handler of %s" % k)
        if k not in dm:
            raise Broken("no matrix for %s in the documentation" % k)
        one(prog, rep, k, hs[k][0], hs[k][1], dm[k])
    degrees(prog, rep)
    heeded(prog, rep)
    rep.floor("transformations", 5)
    rep.floor("conversions that get a coordinate matrix", 15)
    rep.floor("angles checked", 60)
    rep.floor("paths that reach the children", 8)
    rep.floor("numbers compared", 150)


def scad(prog, kind, path):
    rec = "cp_scad_%s_t" % kind
    return off(prog, rec, path)


def oracle(prog, kind, mats, conds):
    """documented 4x4 matrix in terms of the parameters; None if it does not apply"""
    def v(path, i=0):
        return var(("init", "s", scad(prog, kind, path) + 8 * i))

    if kind in ("translate", "scale"):
        env = {c: v("v", i) for i, c in enumerate("xyz")}
        return evaluate(mats[0], env)
    if kind == "mirror":
        u = vecunit([v("v", i) for i in range(3)])
        return evaluate(mats[0], dict(zip("xyz", u)))
    if kind == "multmatrix":
        b = scad(prog, kind, "m")
        ob, ow = off(prog, "cp_mat3w_t", "b"), off(prog, "cp_mat3w_t", "w")
        env = {}
        for i in range(3):
            for j in range(3):
                env["abcdefghijkl"[4 * i + j]] = var(("init", "s", b + ob + 8 * (3 * i + j)))
            env["abcdefghijkl"[4 * i + 3]] = var(("init", "s", b + ow + 8 * i))
        return evaluate(mats[0], env)
    # rotate
    o = scad(prog, kind, "around_n")
    around = None
    for c, val in conds.items():
        if c[0] == "equal" and c[1] == var(("init", "s", o)).key():
            around = not val
    if around is None:
        return None
    if around:
        u = vecunit([v("n", i) for i in range(3)])
        a = v("a")
        env = dict(zip("xyz", u))
        env.update(c=fn("cos", a), s=fn("sin", a), d=sub(num(1), fn("cos", a)))
        return evaluate(mats[0], env)
    env = {}
    for i, c in enumerate("xyz"):
        env["s" + c] = fn("sin", v("n", i))
        env["c" + c] = fn("cos", v("n", i))
    return evaluate(mats[1], env)


def one(prog, rep, kind, f, ctx, mats):
    rep.count("transformations")
    m = Machine(prog)
    args = []
    for p in f.params:
        r = p.type.ptr_rec() if p.type.kind == "ptr" else None
        args.append(Ptr("s" if r == "cp_scad_%s_t" % kind else "mo" if r == ctx else p.name))
    try:
        paths = m.paths(f, args)
    except Unsupported as e:
        raise Broken("cannot follow %s(): %s" % (f.name, e))
    omat = off(prog, ctx, "mat")
    od = off(prog, "cp_mat3wi_t", "d")
    outer = Ptr("(mo+%d)" % omat)
    child = scad(prog, kind, "child")
    seen = 0
    for p in paths:
        rep.count("paths")
        evs = []
        for e in p.events:
            fd = e.call.fn
            for a, x in zip(e.args, e.call.args):
                if isinstance(a, Ptr) and x.type is not None and x.type.kind == "ptr" and \
                        x.type.ptr_rec() == ctx:
                    evs.append((e, a))
        evs = [(e, a) for e, a in evs if not dropped(p, e)]
        if not evs:
            rep.count("paths that end without children")
            continue
        facts = zero_facts(p.conds)
        if impossible(p.conds, facts):
            rep.count("paths that cannot be taken")
            continue
        for e, a in evs:
            where = e.call.where()
            if not any(isinstance(x, Ptr) and x.obj == "s" and x.off == child for x in e.args):
                rep.viol("child:" + kind, where, "%s: what is converted are not the children"
                         % kind)
                continue
            try:
                want = oracle(prog, kind, mats, p.conds)
                if want is None:
                    rep.viol("form:" + kind, where, "%s: the two forms of the call are not told "
                             "apart" % kind)
                    continue
                wi, wd = inv(want)
                if not defined(want, facts):
                    rep.count("paths outside of the documented domain")
                    continue
            except Unsupported:
                rep.count("paths outside of the documented domain")
                continue
            seen += 1
            rep.count("paths that reach the children")
            mp = e.mem.get((a.obj, a.off + omat))
            if mp is None:
                mp = outer if a.obj == "mo" else None
                for s, en, src, so in reversed(e.dflt.get(a.obj, ())):
                    if s <= a.off + omat < en and src == "mo":
                        mp = Ptr("(mo+%d)" % (so + a.off + omat - s))
                        break
            if not isinstance(mp, Ptr) or mp.obj is None:
                rep.viol("matrix:" + kind, where, "%s: no coordinate matrix is handed to the "
                         "children" % kind)
                continue
            mo_n = mat(prog, {}, {}, outer, "n")
            mo_i = mat(prog, {}, {}, outer, "i")
            mo_d = var(("init", outer.obj, od))
            got_n = mat(prog, e.mem, e.dflt, mp, "n")
            got_i = mat(prog, e.mem, e.dflt, mp, "i")
            got_d = read(prog, e.mem, e.dflt, mp.obj, mp.off + od, None)
            cmp_mat(rep, kind, where, "matrix", got_n, mmul(mo_n, want), facts)
            cmp_mat(rep, kind, where, "inverse matrix", got_i, mmul(wi, mo_i), facts)
            rep.count("numbers compared")
            if not same(got_d, mul(mo_d, wd), facts):
                rep.viol("det:" + kind, where, "%s: the determinant handed to the children is %s, not "
                         "%s" % (kind, show(got_d)[:80], show(mul(mo_d, wd))[:80]))
            # everything else of the context stays
            for (ob, o), v in sorted(e.mem.items(), key=str):
                if ob == a.obj and ob != "mo" and o != a.off + omat:
                    rep.count("numbers compared")
                    i = o - a.off
                    if v == var(("init", "mo", i)) or v == Ptr("(mo+%d)" % i):
                        continue
                    rep.viol("context:" + kind, where, "%s changes more than the coordinate matrix "
                             "of the children" % kind)
    for k in sorted(m.inlined):
        rep.count("functions followed")
    rep.sample("transformation", "%s: %s, %d paths" % (kind, f.key, len(paths)))
    if not seen:
        rep.viol("none:" + kind, f.body.where(), "%s: no path converts the children with the "
                 "documented matrix" % kind)


def dropped(p, e):
    """what is made goes into a list that nobody looks at"""
    ls = [a for a, x in zip(e.args, e.call.args) if isinstance(a, Ptr) and x.type is not None and
          x.type.kind == "ptr" and x.type.ptr_rec() == "cp_v_obj_p_t"]
    if len(ls) != 1 or ls[0].obj == "r":
        return False
    later = p.events[p.events.index(e) + 1:]
    return not any(isinstance(a, Ptr) and a.obj in ("r", ls[0].obj) for x in later for a in x.args)


def impossible(conds, facts):
    for c, v in conds.items():
        if c[0] in ("zero", "equal") and not v:
            try:
                if is_zero(apply_facts(thaw(c[1]), facts)):
                    return True
            except Unsupported:
                pass
    return False


def defined(m, facts):
    """no divisor of the formulas is zero"""
    for row in m:
        for x in row:
            for t in x:
                for a, e in t:
                    k = ANAME[a]
                    if e < 0:
                        d = thaw(k[1]) if k[0] in ("sqrt", "poly") else P({((a, 1),): 1})
                        if is_zero(apply_facts(d, facts)):
                            return False
    return True


def cmp_mat(rep, kind, where, what, got, want, facts):
    for i in range(3):
        for j in range(4):
            rep.count("numbers compared")
            if not same(got[i][j], want[i][j], facts):
                rep.viol("%s:%s" % (what, kind), where, "%s: row %d, column %d of the %s of the "
                         "children is %s, but should be %s" % (kind, i + 1, j + 1, what,
                         show(got[i][j])[:100], show(want[i][j])[:100]))
                return


def same(a, b, facts):
    if not isinstance(a, P) or not isinstance(b, P):
        return a == b
    try:
        d = sub(a, b)
        if is_zero(d):
            return True
        if not facts:
            return False
        return is_zero(apply_facts(d, facts))
    except Unsupported:
        return False


def heeded(prog, rep):
    """no conversion drops the transformation that is in effect"""
    rep.rule("every function that gets a context with a coordinate matrix and converts children or "
             "makes objects uses that matrix: it reads it, passes the context on, or passes on a copy "
             "whose matrix it does not replace")
    for f in prog.functions.values():
        for p in f.params:
            r = p.type.ptr_rec() if p.type.kind == "ptr" else None
            if r is None or not has_mat(prog, r):
                continue
            if not makes(prog, f, r):
                continue
            rep.count("conversions that get a coordinate matrix")
            if not uses(f, p, r):
                rep.viol("dropped:" + f.name, f.body.where(), "%s() converts or makes objects, but "
                         "does not use the coordinate matrix in effect" % f.name)


def makes(prog, f, rec):
    """does f convert children or make objects: it passes a context on, or an object of the result
    comes out of it"""
    for c in f.calls():
        if any(a.type is not None and a.type.kind == "ptr" and a.type.ptr_rec() == rec
               for a in c.args):
            return True
    for n in f.body.walk():
        if n.k == "MemberExpr" and n.name == "points" and any(
                q.k == "UnaryOperator" and q.op == "&" for q in [n.par] if q is not None):
            return True
    return False


def uses(f, p, rec):
    copies, replaced = set(), set()

    def ref(n):
        n = n.strip()
        while n is not None and n.k == "ParenExpr":
            n = n.ch[0].strip()
        return n.decl.i if n is not None and n.k == "DeclRefExpr" else None

    def target(n):
        """the context whose .mat this is"""
        n = n.strip()
        return ref(n.ch[0]) if n.k == "MemberExpr" and n.name == "mat" else None

    lhs = set()
    for n in f.body.walk():
        if n.k == "BinaryOperator" and n.op == "=":
            t = target(n.ch[0])
            if t is not None:
                lhs.add(n.ch[0].strip().i)
                replaced.add(t)
    for n in f.body.walk():
        if n.k == "UnaryOperator" and n.op == "*" and ref(n.ch[0]) == p.i:
            for q in n.parents():
                if q.k == "DeclStmt":
                    copies |= {d for d, i in q.raw["ds"]
                               if i >= 0 and n in f.nodes[i].walk()}
                    break
                if q.k == "BinaryOperator" and q.op == "=":
                    d = ref(q.ch[0])
                    if d is not None:
                        copies.add(d)
                    break
                if q.k == "CallExpr":
                    return True
    good = {p.i} | (copies - replaced)
    for n in f.body.walk():
        if n.k == "MemberExpr" and n.name == "mat" and n.i not in lhs and ref(n.ch[0]) in good:
            return True
        if n.k == "CallExpr":
            for a in n.args:
                a = a.strip()
                if a.k == "UnaryOperator" and a.op == "&":
                    a = a.ch[0].strip()
                if a.k == "DeclRefExpr" and a.decl.i in good:
                    return True
    return False


EXACT = {0: 0, 30: 1, 90: 2, 150: 1, 180: 0, 210: -1, 270: -2, 330: -1}


def degrees(prog, rep):
    """sine and cosine of degrees: exact where the result is rational, else those of the radians"""
    rep.rule("for every multiple of 15 degrees in +-720, sine and cosine of degrees evaluate to the "
             "exact result where that is rational, and to sin/cos of the angle in radians otherwise")
    for name, shift, rad in (("cp_sin_deg", 0, "sinr"), ("cp_cos_deg", 90, "cosr")):
        fs = [f for f in prog.functions.values() if f.name == name]
        if not fs:
            raise Broken("no %s()" % name)
        f = fs[0]
        for a in range(-720, 721, 15):
            m = Machine(prog, degrees=("", ""), opaque=("cp_f_get_int",))

            def hook(m, e):
                if e.callee == "cp_f_get_int":
                    o, x = e.args[0], e.args[1]
                    c = x.const() if isinstance(x, P) else None
                    if c is None or c.denominator != 1:
                        return num(0)
                    m.store(o.obj, o.off, num(c), None)
                    return num(1)
                return None

            m.on_event = hook
            try:
                paths = m.paths(f, [num(a)])
            except Unsupported as e:
                raise Broken("cannot follow %s(): %s" % (name, e))
            rep.count("angles checked")
            want = EXACT.get((a + shift) % 360)
            for p in paths:
                got = p.ret
                if want is not None:
                    ok = isinstance(got, P) and got == num(Fraction(want, 2))
                else:
                    ok = radians(got, rad, a)
                if not ok:
                    rep.viol("%s:%d" % (name, a % 360), f.body.where(), "%s(%d) is %s instead of %s" % (
                        name, a, show(got)[:60] if isinstance(got, P) else "?",
                        Fraction(want, 2) if want is not None else "%s(%d*pi/180)" % (rad[:3], a)))
                    return


def radians(got, rad, a):
    """is got sin or cos of a degrees in radians"""
    if not isinstance(got, P) or len(got) != 1:
        return False
    (m, c), = got.items()
    if len(m) != 1 or m[0][1] != 1 or ANAME[m[0][0]][0] not in ("sinr", "cosr"):
        return False
    k = ANAME[m[0][0]]
    x = thaw(k[1]).const()
    if x is None:
        return False
    f = math.sin if k[0] == "sinr" else math.cos
    g = math.sin if rad == "sinr" else math.cos
    return abs(float(c) * f(float(x)) - g(math.radians(a))) < 1e-9
