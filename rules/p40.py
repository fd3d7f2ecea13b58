"""P40: the operations on vectors and matrices compute what they are named after, also in place."""
import itertools
import re
from fractions import Fraction

from alg import ANAME, Blob, Machine, P, Ptr, Unsupported, add, apply_facts, div, fn, is_eps, \
    is_zero, mul, num, show, sub, thaw, var, zero_facts
from facts import Broken
from matalg import adj, det, mmul, off, unit
from p22 import impossible, read, same

NAME = re.compile(r"cp_(vec|mat)([234])(w?)(i?)_(\w+)$")
REC = re.compile(r"cp_(vec|mat)([234])(w?)(i?)_t$")


# ------------------------------------------------------------------ values
class Val:
    """a vector, a matrix (rows of it; with a row 0 0 0 1 if it moves) or a matrix with its inverse"""

    def __init__(self, kind, n, w, i, v):
        self.kind, self.n, self.w, self.i, self.v = kind, n, w, i, v


def shape(rec):
    m = re.match(r"cp_vec([234])_minmax_t$", rec or "")
    if m:
        return "box", int(m.group(1)), False, False
    m = REC.match(rec or "")
    return (m.group(1), int(m.group(2)), bool(m.group(3)), bool(m.group(4))) if m else None


def matrix(prog, get, n, w, base):
    if not w:
        o = base + off(prog, "cp_mat%d_t" % n, "m")
        return [[get(o + 8 * (n * r + c)) for c in range(n)] for r in range(n)]
    rec = "cp_mat%dw_t" % n
    ob, ow = base + off(prog, rec, "b"), base + off(prog, rec, "w")
    m = matrix(prog, get, n, False, ob)
    for r in range(n):
        m[r].append(get(ow + 8 * r))
    m.append([num(0)] * n + [num(1)])
    return m


def value(prog, get, sh, base=0):
    if sh[0] == "box":
        rec = "cp_vec%d_minmax_t" % sh[1]
        return [value(prog, get, ("vec",) + sh[1:], base + off(prog, rec, k)) for k in ("min", "max")]
    kind, n, w, i = sh
    if kind == "vec":
        o = base + off(prog, "cp_vec%d_t" % n, "v")
        return [get(o + 8 * k) for k in range(n)]
    if not i:
        return matrix(prog, get, n, w, base)
    rec = "cp_mat%d%si_t" % (n, "w" if w else "")
    return {"n": matrix(prog, get, n, w, base + off(prog, rec, "n")),
            "i": matrix(prog, get, n, w, base + off(prog, rec, "i")),
            "d": get(base + off(prog, rec, "d"))}


# ------------------------------------------------------------------ references
def dot(a, b):
    s = P()
    for x, y in zip(a, b):
        s = add(s, mul(x, y))
    return s


def neg(x):
    return sub(P(), x)


def vsub(a, b):
    return [sub(x, y) for x, y in zip(a, b)]


def vadd(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def scaled(a, f):
    return [mul(x, f) for x in a]


def length(a):
    return fn("sqrt", dot(a, a))


def unitv(a):
    l = length(a)
    return [div(x, l) for x in a]


def cross(a, b):
    if len(a) == 2:
        return sub(mul(a[0], b[1]), mul(a[1], b[0]))
    return [sub(mul(a[(k + 1) % 3], b[(k + 2) % 3]), mul(a[(k + 2) % 3], b[(k + 1) % 3]))
            for k in range(3)]


def transp(m):
    return [list(r) for r in zip(*m)]


def base(m, n):
    return [r[:n] for r in m[:n]]


def grow(m, k):
    """the matrix in a space of k dimensions"""
    r = unit(k)
    for a in range(len(m)):
        for b in range(len(m)):
            r[a][b] = m[a][b]
    return r


def inverse(m):
    d = det(m)
    return [[div(x, d) for x in row] for row in adj(m)]


def xlat(v):
    n = len(v)
    m = unit(n + 1)
    for k, x in enumerate(v):
        m[k][n] = x
    return m


def diag(v):
    m = unit(len(v))
    for k, x in enumerate(v):
        m[k][k] = x
    return m


def rot_ij(n, i, j, s, c):
    m = unit(n)
    m[i][i] = m[j][j] = c
    m[i][j], m[j][i] = neg(s), s
    return m


def rodrigues(u, s, c):
    x, y, z = u
    d = sub(num(1), c)
    k = [[P(), neg(z), y], [z, P(), neg(x)], [neg(y), x, P()]]
    return [[add(add(mul(mul(u[a], u[b]), d), mul(k[a][b], s)), c if a == b else P())
             for b in range(3)] for a in range(3)]


def mirror(u):
    n = len(u)
    return [[sub(num(1 if a == b else 0), mul(num(2), mul(u[a], u[b]))) for b in range(n)]
            for a in range(n)]


# what a creating function makes, as the square matrix without the moving part
PLAIN = {
    "unit": lambda n: unit(n),
    "scale": lambda n, *x: diag(x),
    "scale1": lambda n, a: diag([a] * n),
    "scale_v": lambda n, v: diag(v),
    "rot": lambda n, sc: rot_ij(n, 0, 1, sc[0], sc[1]),
    "rot_z": lambda n, sc: rot_ij(n, 0, 1, sc[0], sc[1]),
    "rot_x": lambda n, sc: rot_ij(n, 1, 2, sc[0], sc[1]),
    "rot_y": lambda n, sc: rot_ij(n, 2, 0, sc[0], sc[1]),
    "rot_unit": lambda n, u, sc: rodrigues(u, sc[0], sc[1]),
    "rot_v": lambda n, v, sc: rodrigues(unitv(v), sc[0], sc[1]),
    "mirror_unit": lambda n, u: mirror(u),
    "mirror_v": lambda n, v: mirror(unitv(v)),
}


def creates(op, sh, args):
    """(matrix, inverse, determinant) of a creating function"""
    n, w = sh[1], sh[2]
    k = min(n, 3)
    if op in ("xlat", "xlat_v"):
        v = list(args[0] if op == "xlat_v" else args)
        m, inv, d = xlat(v), xlat([neg(x) for x in v]), num(1)
    else:
        if op == "rot_ij":
            a, b, sc = args
            m = rot_ij(k, a, b, sc[0], sc[1])
        else:
            m = PLAIN[op](k, *args)
        if op.startswith("rot"):
            inv, d = transp(m), num(1)
        elif op.startswith("mirror"):
            inv, d = m, num(-1)
        else:
            inv, d = diag([div(num(1), m[x][x]) for x in range(k)]), det(m)
    size = n + 1 if w else n
    return grow(m, size), grow(inv, size), d


# results that are vectors, (value of r) from the inputs
VECTOR = {
    "add": vadd,
    "sub": vsub,
    "neg": lambda a: [neg(x) for x in a],
    "rev": lambda a: list(reversed(a)),
    "mul": lambda a, b: scaled(a, b),
    "div": lambda a, b: [div(x, b) for x in a],
    "div_x": lambda a, b: [div(x, b) for x in a],
    "mulc": lambda a, b: [mul(x, y) for x, y in zip(a, b)],
    "divc": lambda a, b: [div(x, y) for x, y in zip(a, b)],
    "lerp": lambda a, b, c: vadd(a, scaled(vsub(b, a), c)),
    "unit": unitv,
    "unit_x": unitv,
    "dir": lambda a, b: unitv(vsub(a, b)),
    "cross": cross,
    "right_cross3": lambda a, o, b: cross(vsub(a, o), vsub(b, o)),
    "left_cross3": lambda a, o, b: cross(vsub(b, o), vsub(a, o)),
    "port": lambda a, b: [sub(b[1], a[1]), sub(a[0], b[0])],
    "normal": lambda a, b: unitv(cross(a, b) if len(a) == 3 else
                                 [sub(b[1], a[1]), sub(a[0], b[0])]),
    "right_normal3": lambda a, o, b: unitv(cross(vsub(a, o), vsub(b, o))),
    "left_normal3": lambda a, o, b: unitv(cross(vsub(b, o), vsub(a, o))),
    "nearest": lambda a, u, p: vadd(a, scaled(u, dot(vsub(p, a), u))),
}
for _n in ("normal", "right_normal3", "left_normal3"):
    VECTOR[_n + "_x"] = VECTOR[_n]

# results that are numbers
NUMBER = {
    "dot": dot,
    "sqr_len": lambda a: dot(a, a),
    "len": length,
    "sqr_dist": lambda a, b: dot(vsub(a, b), vsub(a, b)),
    "dist": lambda a, b: length(vsub(a, b)),
    "cross_z": cross,
    "right_cross3_z": lambda a, o, b: cross(vsub(a, o), vsub(b, o)),
    "left_cross3_z": lambda a, o, b: cross(vsub(b, o), vsub(a, o)),
}

# results that are signs of numbers
SIGN = {
    "normal_z": cross,
    "right_normal3_z": NUMBER["right_cross3_z"],
    "left_normal3_z": NUMBER["left_cross3_z"],
}


def matrices(op, sh, args):
    """what an operation on matrices makes of matrices; None if it is not known"""
    kind, n, w, i = sh
    if op == "mul":
        a, b = args
        if not i:
            return mmul(a, b)
        return {"n": mmul(a["n"], b["n"]), "i": mmul(b["i"], a["i"]), "d": mul(a["d"], b["d"])}
    a = args[0]
    if op == "trans":
        def tr(m):
            return grow(transp(base(m, n)), len(m))
        return tr(a) if not i else {"n": tr(a["n"]), "i": tr(a["i"]), "d": a["d"]}
    if op == "inv":
        if not i:
            return inverse(a)
        return {"n": a["i"], "i": a["n"], "d": div(num(1), a["d"])}
    return None


def convert(sh, src, a):
    """a matrix of one shape made one of another shape"""
    size = sh[1] + (1 if sh[2] else 0)

    def cv(m):
        if len(m) <= size:
            return grow(m, size)
        # an axis is dropped: the last one that does not move, and the moving part stays
        k = sh[1]
        r = base(m, k)
        if sh[2]:
            for x in range(k):
                r[x].append(m[x][len(m) - 1])
            r.append([num(0)] * k + [num(1)])
        return r

    def up(m):
        # a moving matrix in more dimensions: the last column moves on
        k = src[1]
        if src[2] and (sh[2] and sh[1] > k):
            r = grow(base(m, k), size)
            for x in range(k):
                r[x][size - 1] = m[x][k]
            return r
        return cv(m)
    if not sh[3]:
        return up(a)
    if not src[3]:
        m = up(a)
        return {"n": m, "i": inverse(m), "d": det(base(m, sh[1]) if sh[2] else m)}
    return {"n": up(a["n"]), "i": up(a["i"]), "d": a["d"]}


# ------------------------------------------------------------------ the analysis
def run(prog, rep):
    rep.rule("every path of an operation of the vector and matrix library leaves in its result the "
             "reference value as a rational function of the operands' initial values, for every way "
             "in which the result may be the same object as operands; paths on which the operation "
             "is not defined (a divisor near zero, an input that has no such shape) are left out")
    for f in sorted(prog.functions.values(), key=lambda f: f.key):
        # the wrappers that return what the operations store are named like them
        m = NAME.match(f.name.lower().rstrip("_") if f.name.startswith("CP_") else f.name)
        if m is None:
            continue
        sh = (m.group(1), int(m.group(2)), bool(m.group(3)), bool(m.group(4)))
        op = m.group(5)
        try:
            known = one(prog, rep, f, sh, op)
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s" % (f.name, e))
        rep.count("operations checked" if known else "functions that are not described")
        if not known:
            rep.sample("not described", f.name)
    rep.floor("operations checked", 180)
    rep.floor("numbers compared", 3000)
    rep.floor("paths", 300)


def partitions(l):
    if not l:
        yield []
        return
    for p in partitions(l[1:]):
        yield [[l[0]]] + p
        for k in range(len(p)):
            yield p[:k] + [[l[0]] + p[k]] + p[k + 1:]


def one(prog, rep, f, sh, op):
    ptr = [p.type.ptr_rec() if p.type.kind == "ptr" else None for p in f.params]
    out = False
    if op in NUMBER or op in SIGN or op in TEST or op in ("det", "max_abs_coord"):
        mode = "number"
    elif op in EXTREME:
        mode, out = "extreme", True
    elif sh[0] == "vec" and (op in VECTOR or op == "xform"):
        mode, out = "vector", True
    elif sh[0] == "mat" and (op in PLAIN or op in ("xlat", "xlat_v", "rot_ij", "mul", "trans", "inv")
                             or re.match(r"from_mat[234]w?i?$", op)
                             or op in ("rot_unit_into_z", "rot_into_z")):
        mode, out = "matrix", True
    else:
        return False
    if f.name.startswith("CP_"):
        if mode not in ("vector", "matrix"):
            return False
        out = False
    elif not f.params or (ptr[0] is None):
        return False
    ints = [k for k, p in enumerate(f.params) if p.type.kind == "int"]
    cases = [()]
    if ints:
        k = min(sh[1], 3)
        cases = [c for c in itertools.product(range(k), repeat=len(ints)) if len(set(c)) == len(c)]
    same_rec = [k for k, r in enumerate(ptr) if r is not None and r == ptr[0]]
    for case in cases:
        for part in partitions(same_rec if out else []):
            where = {}
            for block in part:
                for k in block:
                    where[k] = "in%d@" % min(block)
            args, vals = [], []
            for k, p in enumerate(f.params):
                if k in ints:
                    v = num(case[ints.index(k)])
                    args.append(v)
                    vals.append(case[ints.index(k)])
                elif ptr[k] is not None:
                    o = where.get(k, "in%d@" % k)
                    s = shape(ptr[k])
                    if s is None:
                        return False
                    args.append(Ptr(o))
                    vals.append(value(prog, lambda x: var(("init", o, x)), s))
                elif p.type.kind == "float":
                    v = var(("init", "in%d" % k, 0))
                    args.append(v)
                    vals.append(v)
                else:
                    return False
            how = "".join(" and ".join(f.params[k].name for k in b) + " the same"
                          for b in part if len(b) > 1)
            check(prog, rep, f, sh, op, mode, out, args, vals, ptr, how)
    return True


def check(prog, rep, f, sh, op, mode, out, args, vals, ptr, how):
    ins = vals[1:] if out else vals
    if any(is_zero(d) for d in divisors(op, sh, ins)):
        return
    m = Machine(prog, max_paths=4000)
    m.fork_loops, m.max_loop = True, 40
    rotates = op in ("rot_unit_into_z", "rot_into_z")
    paths = m.paths(f, args)
    rep.count("ways to share operands")
    seen = 0
    for p in paths:
        rep.count("paths")
        facts = zero_facts(p.conds)
        if impossible(p.conds, facts):
            rep.count("paths that cannot be taken")
            continue
        def get(x):
            if out:
                return read(prog, p.mem, p.dflt, args[0].obj, x, m)
            if not isinstance(p.ret, Blob):
                raise Broken("%s() returns no record" % f.name)
            return read(prog, {("", k): v for k, v in p.ret.vals.items()}, {"": p.ret.dflt}, "", x, m)
        def cmp(what, got, want):
            if isinstance(want, dict) and not isinstance(want, P):
                return all([cmp(what + "." + k, got[k], want[k]) for k in ("n", "i", "d")])
            if isinstance(want, list):
                return all([cmp("%s[%d]" % (what, k), g, x)
                            for k, (g, x) in enumerate(zip(got, want))]) and len(got) == len(want)
            rep.count("numbers compared")
            if same(got, want, facts):
                return True
            rep.viol("value:" + f.name, f.body.where(), "%s(): %s is %s, but should be %s%s" % (
                f.name, what, show(got)[:100] if isinstance(got, P) else got, show(want)[:100],
                " (with %s)" % how if how else ""))
            return False
        try:
            if mode == "extreme":
                extreme(rep, f, op, value(prog, get, shape(ptr[0])), vals if op == "minmax" else ins,
                        p, facts, how)
            elif mode == "number":
                number(rep, f, sh, op, ins, p, facts, cmp)
            elif rotates:
                if not rotation(prog, rep, f, sh, op, value(prog, get, sh), ins[0], p, facts, cmp):
                    rep.count("paths on which the operation is not defined")
                    continue
            else:
                want = wanted(prog, rep, f, sh, op, ins, ptr, p)
                if want is None or any(zero(d, facts) for d in divisors(op, sh, ins)):
                    rep.count("paths on which the operation is not defined")
                    continue
                got = value(prog, get, sh)
                if isinstance(want, dict) and op.startswith("from_mat") and \
                        same(got["d"], det(base(got["n"], sh[1])), facts):
                    want["d"] = got["d"]
                cmp("result", got, want)
                if op == "inv" and not sh[3] and p.ret is not None:
                    cmp("the returned determinant", p.ret, det(ins[0]))
        except Unsupported as e:
            if "zero" in str(e) or "divi" in str(e):
                rep.count("paths on which the operation is not defined")
                continue
            raise
        seen += 1
    if not seen:
        rep.viol("none:" + f.name, f.body.where(), "%s(): no path computes the value%s" % (
            f.name, " (with %s)" % how if how else ""))


def divisors(op, sh, ins):
    """what must not be zero"""
    if op in ("div", "div_x"):
        return [ins[1]]
    if op == "divc":
        return ins[1]
    if op in ("unit", "unit_x") and sh[0] == "vec":
        return [dot(ins[0], ins[0])]
    if op == "dir":
        d = vsub(*ins)
        return [dot(d, d)]
    if re.match(r"(right_|left_)?normal3?(_x)?$", op):
        if op.startswith("normal"):
            a, b = ins
        else:
            a, b = vsub(ins[0], ins[1]), vsub(ins[2], ins[1])
        c = cross(a, b) if len(a) == 3 else vsub(*ins)
        return [dot(c, c)]
    if op in ("rot_v", "mirror_v"):
        return [dot(ins[0], ins[0])]
    if op in ("scale", "scale1") and sh[3]:
        return ins
    if op == "scale_v" and sh[3]:
        return ins[0]
    if op == "inv":
        return [ins[0]["d"] if sh[3] else det(ins[0])]
    if op.startswith("from_mat") and sh[3] and not isinstance(ins[0], dict):
        return [det(ins[0])]
    return []


def zero(d, facts):
    """the polynomial is zero on the path"""
    for q in facts:
        # a length is zero if its square is
        t = root(q)
        for x in (sub(d, t), add(d, t)):
            if is_zero(x):
                return True
    try:
        return is_zero(apply_facts(d, facts))
    except Unsupported:
        return False


def root(q):
    if len(q) == 1:
        (m, c), = q.items()
        if len(m) == 1 and m[0][1] == 1 and ANAME[m[0][0]][0] in ("sqrt", "fabs"):
            return root(thaw(ANAME[m[0][0]][1]))
    return q


def wanted(prog, rep, f, sh, op, ins, ptr, p):
    if sh[0] == "vec":
        if op == "xform":
            a, b = ins
            if len(a) > len(b):
                return [x[0] for x in mmul(a, [[y] for y in b] + [[num(1)]])][:len(b)]
            return [x[0] for x in mmul(a, [[y] for y in b])]
        return VECTOR[op](*ins)
    if op in ("mul", "trans", "inv"):
        return matrices(op, sh, ins)
    if op.startswith("from_mat"):
        if p.ret is not None:
            r = p.ret.const() if isinstance(p.ret, P) else None
            if r == 0:
                return None
        return convert(sh, shape(ptr[1]), ins[0])
    m, inv, d = creates(op, sh, ins)
    return {"n": m, "i": inv, "d": d} if sh[3] else m


def number(rep, f, sh, op, ins, p, facts, cmp):
    if op == "det":
        a = ins[0]
        want = a["d"] if sh[3] else det(base(a, sh[1]))
    elif op in NUMBER:
        want = NUMBER[op](*ins)
    elif op in SIGN:
        sign(rep, f, SIGN[op](*ins), p)
        return
    elif op in TEST:
        test(rep, f, op, TEST[op](*ins), p, facts)
        return
    else:
        rep.count("signs compared")
        l = [fn("fabs", x) for x in ins[0]]
        if not any(same(p.ret, w, ()) and largest(k, l, p.conds) for k, w in enumerate(l)):
            rep.viol("max:" + f.name, f.body.where(), "%s() returns %s, which may not be the "
                     "largest" % (f.name, show(p.ret)))
        return
    cmp("the returned number", p.ret, want)


def rotation(prog, rep, f, sh, op, got, v, p, facts, cmp):
    """a rotation that brings v to the z axis"""
    if op == "rot_into_z" and zero(dot(v, v), facts):
        return False
    full = got["n"] if sh[3] else got
    n = base(full, 3)
    size = len(full)
    z = None
    if op == "rot_unit_into_z":
        # the squares of a unit vector add up to 1
        (mono,), = [list(v[2])]
        z = mono[0][0]
        rest = sub(num(1), add(mul(v[0], v[0]), mul(v[1], v[1])))

    def cm(what, a, b):
        if isinstance(a, list):
            for x, y in zip(a, b):
                cm(what, x, y)
        elif z is None:
            cmp(what, a, b)
        else:
            cmp(what, unitsquare(a, z, rest), unitsquare(b, z, rest))
    cm("what is outside of the rotation", [r[3:] for r in full[:3]] + full[3:],
       [r[3:] for r in unit(size)[:3]] + unit(size)[3:])
    t = [dot(r, v) for r in n]
    cm("the turned vector", t[:2], [P(), P()])
    cm("the turned vector's length", mul(t[2], t[2]), dot(v, v))
    if not same(t[2], length(v), facts) and \
            not (z is not None and same(unitsquare(t[2], z, rest), num(1), facts)):
        l = length(v)
        pos = any(signs(x, p.conds) <= {0, 1} for x in (t[2], mul(t[2], l), div(t[2], l)))
        if not pos:
            rep.viol("side:" + f.name, f.body.where(), "%s(): the vector is not turned into the "
                     "positive z axis, but to %s" % (f.name, show(t[2])[:100]))
    cm("the rotation by its transposed", mmul(n, transp(n)), unit(3))
    cm("the determinant of the rotation", det(n), num(1))
    if sh[3]:
        cm("the inverse", got["i"], grow(transp(n), size))
        cm("the given determinant", got["d"], num(1))
    return True


def unitsquare(q, z, rest):
    """z^2 replaced"""
    r = P()
    for m, c in q.items():
        e = dict(m).get(z, 0)
        t = P({m: c})
        if e >= 2:
            t = P({tuple(x for x in m if x[0] != z): c})
            for _ in range(e // 2):
                t = mul(t, rest)
            if e % 2:
                t = mul(t, P({((z, 1),): Fraction(1)}))
        r = add(r, t)
    return r


def signs(q, conds):
    """the signs that a number may have on a path"""
    r = {-1, 0, 1}
    for k, v in conds.items():
        if k[0] not in ("zero", "equal", "less", "greater"):
            continue
        t = P({m: c for m, c in thaw(k[1]).items() if not is_eps(P({m: c}))})
        if is_zero(sub(t, q)):
            s = 1
        elif is_zero(add(t, q)):
            s = -1
        else:
            continue
        one = {"zero": 0, "equal": 0, "less": -s, "greater": s}[k[0]]
        r &= {one} if v else {-1, 0, 1} - {one}
    return r


def sign(rep, f, c, p):
    rep.count("signs compared")
    r = p.ret.const() if isinstance(p.ret, P) else None
    s = signs(c, p.conds)
    if not s <= {r}:
        rep.viol("sign:" + f.name, f.body.where(), "%s(): the sign given is %s where it may be %s" %
                 (f.name, show(p.ret) if r is None else r,
                  " or ".join(str(x) for x in sorted(s))))


def largest(k, l, conds):
    """element k of l is known to be at least as large as the others"""
    got, todo = {k}, [k]
    while todo:
        x = todo.pop()
        for y in range(len(l)):
            if y not in got and signs(sub(l[x], l[y]), conds) <= {0, 1}:
                got.add(y)
                todo.append(y)
    return len(got) == len(l)


def test(rep, f, op, clauses, p, facts):
    """the answer is yes only if the numbers of one clause are zero, and no only if none is"""
    rep.count("signs compared")
    r = p.ret.const() if isinstance(p.ret, P) else None
    if op == "lex_cmp":
        ok = r is not None
        for x in clauses[0]:
            s = signs(x, p.conds)
            if s != {0}:
                ok = ok and s == {r}
                break
        else:
            ok = r == 0
        says = "gives %s" % r
    else:
        says = "says %s" % ("no" if r == 0 else "yes")
        if r is not None and r != 0:
            ok = any(all(zero(x, facts) or signs(x, p.conds) == {0} for x in cs) for cs in clauses)
        elif r == 0:
            ok = all(any(0 not in signs(x, p.conds) for x in cs) for cs in clauses)
        else:
            ok = False
    if not ok:
        rep.viol("test:" + f.name, f.body.where(), "%s() %s on a path whose conditions do not "
                 "justify it" % (f.name, says))


def elements(a):
    if isinstance(a, dict) and not isinstance(a, P):
        return elements(a["n"])
    if isinstance(a, list):
        if isinstance(a[0], list) and all(x.const() is not None for x in a[-1]):
            # the moving part comes last
            return elements(base(a, len(a) - 1)) + [r[-1] for r in a[:-1]]
        return [x for y in a for x in elements(y)]
    return [a]


def differences(a, b):
    r = [sub(x, y) for x, y in zip(elements(a), elements(b))]
    return [[x for x in r if not is_zero(x)]]


TEST = {
    "eq": differences,
    "lex_cmp": differences,
    "has_len0": lambda a: [a],
    "has_len1": lambda a: [[sub(dot(a, a), num(1))]],
    "has_len0_or_1": lambda a: [a, [sub(dot(a, a), num(1))]],
    "in_line": lambda a, o, b: [line(cross(vsub(a, o), vsub(b, o)))],
}


def line(c):
    return c if isinstance(c, list) else [c]


EXTREME = ("min", "max", "minmax", "minmax_and", "minmax_or")


def extreme(rep, f, op, got, ins, p, facts, how):
    """smaller and larger coordinates"""
    jobs = []
    if op in ("min", "max"):
        jobs.append((op, got, ins))
    elif op == "minmax":
        jobs = [(k, got[j], (ins[0][j], ins[1])) for j, k in enumerate(("min", "max"))]
    else:
        if op == "minmax_or":
            bad = [any(signs(sub(x, y), p.conds) == {1} for x, y in zip(*a)) for a in ins]
            if any(bad):
                # nothing is added by an empty box
                for j in range(2):
                    want = ins[1][j] if bad[0] else ins[0][j]
                    rep.count("numbers compared")
                    if not all(same(x, y, facts) for x, y in zip(got[j], want)):
                        rep.viol("box:" + f.name, f.body.where(), "%s(): with an empty box the result "
                                 "is not the other one" % f.name)
                return
        jobs = [(k, got[j], [a[j] for a in ins])
                for j, k in enumerate(("min", "max") if op == "minmax_or" else ("max", "min"))]
    for k, r, (a, b) in jobs:
        for c, (x, y, z) in enumerate(zip(r, a, b)):
            rep.count("signs compared")
            le = {-1, 0} if k == "min" else {0, 1}
            if not any(same(x, u, ()) and (is_zero(sub(u, v)) or signs(sub(u, v), p.conds) <= le)
                       for u, v in ((y, z), (z, y))):
                rep.viol("extreme:" + f.name, f.body.where(), "%s(): coordinate %d of the result may "
                         "not be the %s one%s" % (f.name, c, "smaller" if k == "min" else "larger",
                                                  " (with %s)" % how if how else ""))
