"""P33: SVG transformations, viewBox fitting, path commands and basic shapes mean what the SVG
specification says."""
from fractions import Fraction

from alg import (Fun, Machine, P, Ptr, Unsupported, add, apply_facts, div, fn, is_zero, mul, num,
                 show, sub, thaw, var, zero_facts)
from facts import Broken
from matalg import mmul, off

FILE = "svg-parse.c"


def tn(t):
    return t.raw["s"].replace(" ", "") if t is not None else ""


def is_dp(t):
    return t.kind == "ptr" and t.to_t is not None and tn(t.to_t) == "double"


def is_spp(t):
    return t.kind == "ptr" and t.to_t is not None and t.to_t.kind == "ptr" and \
        t.to_t.to_t is not None and "char" in t.to_t.to_t.raw["s"]


def is_str(t):
    return t.kind == "ptr" and t.to_t is not None and "char" in t.to_t.raw["s"] and \
        t.to_t.kind != "ptr"


class Svg:
    def __init__(self, prog):
        self.prog = prog
        self.fs = [f for f in prog.functions.values() if f.key.split(":")[0].endswith(FILE)]
        if not self.fs:
            raise Broken("no %s" % FILE)
        self.readers = set()      # one number from the text
        self.bools = set()
        self.others = set()       # other readers of the text
        self.chars = set()
        self.scan = set()         # skip or look ahead
        for f in prog.functions.values():
            ts = [p.type for p in f.params]
            ret = tn(f.decl.type.ret_t) if hasattr(f.decl.type, "ret_t") else ""
            n_d = sum(is_dp(t) for t in ts)
            n_s = sum(is_spp(t) for t in ts)
            if f in self.fs and n_s == 1:
                nb = sum(t.kind == "ptr" and t.to_t is not None and
                         tn(t.to_t) in ("bool", "_Bool") for t in ts)
                # number readers end in strtod
                if n_d == 1 and nb == 0 and len(ts) <= 3:
                    self.readers.add(f.key)
                elif nb == 1 and n_d == 0:
                    self.bools.add(f.key)
                elif n_d == 0 and nb == 0 and len(ts) == 2 and is_str(ts[1]):
                    self.others.add(f.key)
                elif all(t.kind != "ptr" or is_spp(t) for t in ts):
                    self.scan.add(f.key)
            if len(ts) == 1 and tn(ts[0]) in ("char", "unsignedchar") and "syn" in f.name:
                self.chars.add(f.key)

    def named(self, name):
        for f in self.fs:
            if f.name == name:
                return f
        return None


def strs(e):
    r = []
    for a in e.args:
        if isinstance(a, Ptr) and a.obj and a.obj.startswith("str:") and a.off == 0:
            r.append(a.obj[4:])
    return r


def same(a, b, facts=()):
    if not isinstance(a, P) or not isinstance(b, P):
        return False
    try:
        d = sub(a, b)
        return is_zero(d) or bool(facts) and is_zero(apply_facts(d, facts))
    except Unsupported:
        return False


def run(prog, rep):
    svg = Svg(prog)
    broken = []
    for part in (readers, transforms, fitting, commands):
        try:
            part(prog, rep, svg)
        except Broken as e:
            broken.append(e)
    if broken and not rep.viols:
        raise broken[0]
    if rep.viols:
        return
    rep.floor("transform commands", 6)
    rep.floor("matrix entries compared", 60)
    rep.floor("path commands", 20)
    rep.floor("points compared", 500)
    rep.floor("values of arcs compared", 100)
    rep.floor("basic shapes", 4)


# ---------------------------------------------------------------- transform="..."

def m2(a, b, c, d, e, f):
    return [[a, b, c], [d, e, f], [num(0), num(0), num(1)]]


def xl(x, y):
    return m2(num(1), num(0), x, num(0), num(1), y)


TRANSFORMS = ("translate", "scale", "rotate", "skewX", "skewY", "matrix")
ARITY = {"translate": (1, 2), "scale": (1, 2), "rotate": (1, 3), "skewX": (1,), "skewY": (1,),
         "matrix": (6,)}


def documented(cmd, v):
    z, o = num(0), num(1)
    n = len(v)
    if cmd == "translate":
        return xl(v[0], v[1] if n > 1 else z)
    if cmd == "scale":
        return m2(v[0], z, z, z, v[1] if n > 1 else v[0], z)
    if cmd == "rotate":
        c, s = fn("cos", v[0]), fn("sin", v[0])
        r = m2(c, sub(z, s), z, s, c, z)
        return r if n == 1 else mmul(mmul(xl(v[1], v[2]), r), xl(sub(z, v[1]), sub(z, v[2])))
    if cmd == "skewX":
        return m2(o, div(fn("sin", v[0]), fn("cos", v[0])), z, z, o, z)
    if cmd == "skewY":
        return m2(o, z, z, div(fn("sin", v[0]), fn("cos", v[0])), o, z)
    return m2(v[0], v[2], v[4], v[1], v[3], v[5])


def transforms(prog, rep, svg):
    rep.rule("on every path that applies an SVG transform command, the resulting matrix equals the "
             "previous matrix multiplied by the matrix that SVG defines for the command and its "
             "arguments, with SVG's defaults for missing ones")
    best = None
    for f in svg.fs:
        own = {x.raw.get("str") for x in f.body.walk() if x.k == "StringLiteral"}
        k = sum(c in own for c in TRANSFORMS)
        if k and (best is None or k > best[0]):
            best = (k, f)
    if best is None:
        raise Broken("no function that compares transform commands")
    f = best[1]
    # the function that holds the names may be a helper of the one that reads the numbers
    while not any(prog.resolve(c) is not None and prog.resolve(c).key in svg.readers
                  for c in f.calls()):
        up = [g for g in svg.fs for c in g.calls() if prog.resolve(c) is f]
        if len(set(g.key for g in up)) != 1:
            raise Broken("no reader of transform commands")
        f = up[0]
    rec = None
    for p in f.params:
        r = p.type.ptr_rec() if p.type.kind == "ptr" else None
        if r and any(fd["n"] == "mat" for fd in prog.records.get(r, (0, {"f": []}))[1]["f"]):
            rec, np = r, p
    if rec is None:
        raise Broken("no matrix of %s()" % f.name)
    ob = off(prog, rec, "mat")
    cells = [(i, j, ob + off(prog, "cp_mat2wi_t", "n") +
              (off(prog, "cp_mat2w_t", "b") + 8 * (2 * i + j) if j < 2 else
               off(prog, "cp_mat2w_t", "w") + 8 * i)) for i in range(2) for j in range(3)]
    done = {}
    seen = set()
    for k in (1, 2, 3, 6):
        m = Machine(prog, opaque=svg.readers | svg.others | svg.chars, max_paths=2000)

        def hook(m, e, k=k):
            g = e.f
            if g is not None and g.key in svg.readers:
                i = sum(1 for x in m.events if x.f is not None and x.f.key == g.key)
                if i > k:
                    untouched(m, e)
                    return num(0)
                a = [x for x, t in zip(e.args, g.params) if is_dp(t.type)][0]
                m.store(a.obj, a.off, var(("init", "value", 8 * (i - 1))), None)
                return num(1)
            if g is not None and g.key in svg.others:
                return num(1)
            if g is not None and g.key in svg.chars:
                return num(0)
            s = strs(e)
            if len(s) == 1 and e.call.type is not None and e.call.type.kind not in ("ptr",):
                if s[0] not in TRANSFORMS:
                    return None
                eq = m.decide(("is", s[0]), hint=False)
                zero_eq = e.callee in ("strcmp", "strncmp", "memcmp", "strcasecmp")
                return num(int(eq != zero_eq))
            return None

        m.on_event = hook
        m.opaque |= {g.key for g in prog.functions.values() if g.name in (
            "strequ", "strnequ", "strpref", "cp_strequ", "strequ0")}
        paths = follow(m, f, [Ptr(p.name) for p in f.params])
        val = [var(("init", "value", 8 * i)) for i in range(k)]
        for p in paths:
            cmds = [c[1] for c, v in p.conds.items() if c[0] == "is" and v]
            if len(cmds) != 1:
                continue
            cmd = cmds[0]
            seen.add(cmd)
            if k not in ARITY[cmd]:
                continue
            rep.count("paths")
            if isinstance(p.ret, P) and p.ret.const() == 0:
                continue
            facts = zero_facts(p.conds)
            if bad(p.conds, facts):
                continue
            want = documented(cmd, val)
            got = {}
            for i, j, o in cells:
                got[i, j] = read(p, np.name, o)
            objs = {np.name}
            for q in p.mem.values():
                if isinstance(q, Ptr) and q.obj:
                    objs.add(q.obj)
            for x in got.values():
                if isinstance(x, P):
                    for mn in x:
                        for a, _ in mn:
                            from alg import ANAME
                            if ANAME[a][0] == "init":
                                objs.add(ANAME[a][1])
            ok = False
            for base in sorted(objs):
                b = [[None] * 3 for _ in range(2)] + [[num(0), num(0), num(1)]]
                for i, j, o in cells:
                    b[i][j] = var(("init", base, o))
                w = mmul(b, want)
                if all(same(got[i, j], w[i][j], facts) for i, j, _ in cells):
                    ok = True
                    break
            done.setdefault((cmd, k), []).append(ok)
            rep.count("matrix entries compared", 6)
            if not ok:
                rep.viol("transform:%s" % cmd, f.body.where(), "SVG transform %s with %d value%s: the "
                         "matrix is not the one that SVG defines, multiplied to the current one "
                         "(first row %s)" % (cmd, k, "" if k == 1 else "s", ", ".join(
                             show(got[0, j])[:60] if isinstance(got[0, j], P) else "?"
                             for j in range(3))))
    for c in TRANSFORMS:
        if c in seen:
            rep.count("transform commands")
        for k in ARITY[c]:
            if (c, k) not in done:
                rep.viol("transform:%s:%d" % (c, k), f.body.where(), "SVG transform %s with %d value%s "
                         "is not applied on any path" % (c, k, "" if k == 1 else "s"))
            else:
                rep.sample("transform", "%s with %d values: %d paths" % (c, k, len(done[c, k])))


# ---------------------------------------------------------------- viewBox

def fitting(prog, rep, svg):
    rep.rule("on every path of the viewBox fitting, the matrix and its inverse are those of SVG's "
             "preserveAspectRatio: independent scales for none, otherwise one scale, the smaller one "
             "or for slice the larger one, with the remaining space distributed by the alignment")
    f = None
    for g in svg.fs:
        lits = {x.raw.get("str") for x in g.body.walk() if x.k == "StringLiteral"}
        ds = [p for p in g.params if tn(p.type) == "double"]
        ms = [p for p in g.params if p.type.kind == "ptr" and p.type.ptr_rec() == "cp_mat2wi_t"]
        if "slice" in lits and "none" in lits and len(ds) == 8 and len(ms) == 1:
            f = g
    if f is None:
        raise Broken("no function that fits a viewBox")
    mp = [p for p in f.params if p.type.kind == "ptr" and p.type.ptr_rec() == "cp_mat2wi_t"][0]
    m = Machine(prog, opaque=svg.others, max_paths=3000)

    def hook(m, e):
        if e.callee == "strstr":
            s = strs(e)
            if s:
                return Ptr("found", 0) if m.decide(("has", s[-1]), hint=False) else Ptr(None, 0)
        if e.callee in ("strcmp", "strncmp") and strs(e):
            return num(0 if m.decide(("has", strs(e)[-1]), hint=False) else 1)
        if e.f is not None and e.f.key in svg.others:
            untouched(m, e)
            return num(int(m.decide(("has", strs(e)[-1] if strs(e) else "?"), hint=False)))
        return None

    m.on_event = hook
    ds = [p.name for p in f.params if tn(p.type) == "double"]
    vx, vy, vw, vh, ex, ey, ew, eh = [var(("init", "dim", 8 * i)) for i in range(8)]
    vals = dict(zip(ds, (vx, vy, vw, vh, ex, ey, ew, eh)))
    paths = follow(m, f, [vals.get(p.name) or Ptr(p.name) for p in f.params])
    sx, sy = div(ew, vw), div(eh, vh)
    where = f.body.where()
    for p in paths:
        has = {c[1] for c, v in p.conds.items() if c[0] == "has" and v}
        ax = [x for x in ("xMin", "xMid", "xMax") if x in has]
        ay = [x for x in ("YMin", "YMid", "YMax") if x in has]
        if len(ax) > 1 or len(ay) > 1 or "none" in has and (ax or ay):
            continue
        facts = zero_facts(p.conds)
        if any(len(x) == 1 for x in facts):
            continue        # empty boxes
        rep.count("viewBox paths")
        fx = Fraction({"xMin": 0, "xMid": 1, "xMax": 2}[ax[0] if ax else "xMid"], 2)
        fy = Fraction({"YMin": 0, "YMid": 1, "YMax": 2}[ay[0] if ay else "YMid"], 2)
        if "none" in has:
            options = [(sx, sy)]
        else:
            less = None
            for c, v in p.conds.items():
                if c[0] in ("less", "greater"):
                    q = thaw(c[1])
                    for sign, d in ((1, sub(sx, sy)), (-1, sub(sy, sx))):
                        if same(q, d):
                            low = (sign == 1) == (c[0] == "less")
                            less = low if v else not low
            if less is None:
                rep.viol("viewBox:choice", where, "the scale of a viewBox that keeps its aspect ratio "
                         "does not depend on which of the two scales is smaller")
                continue
            s = sx if less != ("slice" in has) else sy
            options = [(s, s)]
        (wx, wy), = options
        fit = "none" not in has
        tx = sub(ex, mul(vx, wx))
        ty = sub(ey, mul(vy, wy))
        if fit:
            tx = add(tx, mul(num(fx), sub(ew, mul(vw, wx))))
            ty = add(ty, mul(num(fy), sub(eh, mul(vh, wy))))
        want_n = m2(wx, num(0), tx, num(0), wy, ty)
        ix, iy = div(num(1), wx), div(num(1), wy)
        want_i = m2(ix, num(0), sub(num(0), mul(tx, ix)), num(0), iy, sub(num(0), mul(ty, iy)))
        for part, want in (("n", want_n), ("i", want_i)):
            b = off(prog, "cp_mat2wi_t", part)
            for i in range(2):
                for j in range(3):
                    o = b + (off(prog, "cp_mat2w_t", "b") + 8 * (2 * i + j) if j < 2 else
                             off(prog, "cp_mat2w_t", "w") + 8 * i)
                    rep.count("matrix entries compared")
                    g = read(p, mp.name, o)
                    if not same(g, want[i][j], facts):
                        rep.viol("viewBox:%s:%d%d" % (part, i, j), where, "viewBox fitted with '%s': "
                                 "row %d, column %d of the %s is %s, but should be %s" % (
                                     " ".join(sorted(has)) or "(nothing)", i + 1, j + 1,
                                     "matrix" if part == "n" else "inverse matrix",
                                     show(g)[:100] if isinstance(g, P) else "?",
                                     show(want[i][j])[:100]))
    rep.floor("viewBox paths", 15)


# ---------------------------------------------------------------- paths

ARGS = {"M": 2, "L": 2, "H": 1, "V": 1, "Q": 4, "T": 2, "C": 6, "S": 4, "A": 7, "Z": 0}


def path_record(svg):
    for f in svg.fs:
        if not f.params:
            continue
        r = f.params[0].type.ptr_rec() if f.params[0].type.kind == "ptr" else None
        if r in svg.prog.records and {"cur_x", "cur_y", "prev_cmd"} <= {
                x["n"] for x in svg.prog.records[r][1]["f"]}:
            return r
    raise Broken("no record of the state of an SVG path")


def commands(prog, rep, svg):
    rep.rule("each path command letter runs the reader with its number of values, absolute or "
             "relative by case, the values reach the drawing function in order, and what the drawing "
             "function computes from the path's state is what SVG defines for the command")
    rec = path_record(svg)
    drawing = {f.key for f in svg.fs if f.params and f.params[0].type.kind == "ptr" and
               f.params[0].type.ptr_rec() == rec}
    spp = {f.key for f in svg.fs if f.key in drawing and any(is_spp(p.type) for p in f.params)}
    # the function that looks at the letters
    top = None
    for f in svg.fs:
        if f.key in drawing and not any(is_spp(p.type) for p in f.params) and \
                any(is_str(p.type) for p in f.params) and \
                any(prog.resolve(c) is not None and prog.resolve(c).key in spp for c in f.calls()):
            top = f
    if top is None:
        raise Broken("no function that reads path commands")
    h = {}
    for letter, k in ARGS.items():
        for rel in (0, 1):
            ch = letter.lower() if rel else letter
            r = letter_of(prog, rep, svg, top, drawing, ch, k, rel)
            if r is None:
                continue
            rep.count("path commands")
            first, other = r
            if letter in h and h[letter] != (first, other):
                rep.viol("path:%s" % letter, top.body.where(), "path commands %s and %s are not handled "
                         "by the same functions" % (letter, letter.lower()))
            h[letter] = (first, other)
    d = Draw(prog, rep, svg, rec, h)
    d.run()
    if all(x in h for x in ARGS):
        shapes(prog, rep, svg, d, rec, drawing, top)


def letter_of(prog, rep, svg, top, drawing, ch, k, rel):
    """functions that draw the first and the following sets of values"""
    where = top.body.where()
    m = Machine(prog, opaque=(drawing - {top.key}) | svg.scan | svg.readers | svg.others)

    def hook(m, e):
        if e.f is not None and e.f.key in svg.scan and e.call.type.kind != "ptr":
            untouched(m, e)
            n = sum(1 for x in m.events if x.f is e.f)
            return num(0 if n == 1 else 1)
        if e.f is not None and e.f.key in drawing:
            return num(1)
        return None

    def setup(m):
        m.mem["text", 0] = num(ord(ch))
        m.mem["text", 1] = num(0)

    m.on_event = hook
    paths = follow(m, top, [Ptr("text") if is_str(p.type) else Ptr(p.name) for p in top.params],
                        setup)
    calls = []
    for p in paths:
        ev = [e for e in p.events if e.f is not None and e.f.key in drawing]
        calls.append(ev)
    if not calls or any(len(x) != 1 for x in calls) or len({x[0].f.key for x in calls}) != 1:
        rep.viol("letter:" + ch, where, "path command '%s' is not recognised" % ch)
        return None
    e = calls[0][0]
    if k == 0:
        return (e.f, e.f)
    consts = [x.const() for x in e.args if isinstance(x, P)]
    if [x for x, p in zip(e.args, e.f.params) if is_spp(p.type)] == []:
        rep.viol("letter:" + ch, where, "path command '%s' does not read the values that follow" % ch)
        return None
    if consts != [rel]:
        rep.viol("letter:" + ch, where, "path command '%s' is not read as %s" % (
            ch, "relative" if rel else "absolute"))
        return None
    # two sets of values
    g = e.f
    m = Machine(prog, opaque=(drawing - {g.key}) | svg.scan | svg.readers | svg.bools | svg.others)
    state = {}

    def hook2(m, e):
        if e.f is None:
            return None
        if e.f.key in svg.readers or e.f.key in svg.bools:
            i = sum(1 for x in m.events if x.f is not None and
                    x.f.key in svg.readers | svg.bools) - 1
            if i >= 2 * k:
                untouched(m, e)
                return num(0)
            t = [x for x, p in zip(e.args, e.f.params) if p.type.kind == "ptr" and
                 not is_spp(p.type)][0]
            m.store(t.obj, t.off, var(("init", "arg", 8 * i)), None)
            state[i] = e.f.key in svg.bools
            return num(1)
        if e.f.key in svg.scan:
            if e.call.type.kind == "ptr":
                return None
            i = sum(1 for x in m.events if x.f is not None and
                    x.f.key in svg.readers | svg.bools)
            return num(1 if i < 2 * k else 0)
        return None

    m.on_event = hook2
    paths = follow(m, g, [a if not isinstance(a, Ptr) else Ptr(p.name)
                            for a, p in zip(e.args, g.params)])
    out = None
    for p in paths:
        ev = [x for x in p.events if x.f is not None and x.f.key in drawing]
        if len(ev) != 2:
            rep.viol("sets:" + ch, g.body.where(), "path command '%s' followed by two sets of %d values "
                     "draws %d times" % (ch, k, len(ev)))
            return None
        for i, x in enumerate(ev):
            vals = [a for a in x.args if isinstance(a, P)]
            want = [num(rel)] + [var(("init", "arg", 8 * (i * k + j))) for j in range(k)]
            rep.count("values traced", k)
            if len(vals) != k + 1 or not all(same(a, b) for a, b in zip(vals, want)):
                rep.viol("values:" + ch, g.body.where(), "path command '%s': the values do not reach the "
                         "drawing function %s() in the order in which they are written" % (
                             ch, x.f.name))
                return None
        out = (ev[0].f, ev[1].f)
    if k == 7 and [i for i in range(7) if state.get(i)] != [3, 4]:
        rep.viol("flags:" + ch, g.body.where(), "the flags of an arc are not its 4th and 5th value")
    return out


# ---------------------------------------------------------------- shapes

def table(svg):
    """{element name: functions named in its row of the element table}"""
    r = {}
    for f in svg.fs + [g for tu in svg.prog.tus for g in tu.functions]:
        if not any(x.k == "StringLiteral" and x.raw.get("str") == "polyline"
                   for x in f.body.walk()):
            continue
        for x in f.body.walk():
            if x.k != "InitListExpr":
                continue
            lit, fns = None, []
            for y in x.ch:
                y = y.strip() if y is not None else None
                if y is None:
                    continue
                if y.k == "StringLiteral" and lit is None:
                    lit = y.raw.get("str")
                for z in y.walk():
                    if z.k == "DeclRefExpr" and z.decl.raw["k"] == "func":
                        g = svg.named(z.decl.name)
                        if g is not None:
                            fns.append(g)
            if lit and fns:
                r.setdefault(lit, fns)
    return r


def conds_say(p, d):
    """what a path decided about d: '<', '>=', '>', '<=' or None"""
    r = set()
    for c, v in p.conds.items():
        if c[0] in ("less", "greater", "equal"):
            q = thaw(c[1])
            if same(q, d):
                s = 1
            elif same(q, sub(P(), d)):
                s = -1
            else:
                continue
            k = {"less": "<" if v else ">=", "greater": ">" if v else "<=",
                 "equal": "==" if v else "!="}[c[0]]
            r.add(k if s == 1 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(k, k))
    return r


def shapes(prog, rep, svg, d, rec, drawing, top):
    rep.rule("the basic shapes draw the path that SVG defines for them, from the attributes that SVG "
             "defines for them")
    t = table(svg)
    # what only hands on the path and the text is followed
    drawing = {k for k in drawing if not (
        any(is_spp(p.type) for p in prog.functions[k].params) and
        all(is_spp(p.type) or p.type.kind == "ptr" and p.type.ptr_rec() == rec for p in prog.functions[k].params))}
    draw = [g for g in svg.fs if d.draws(g) and g is not d.push and g.key in drawing and
            sum(tn(p.type) == "double" for p in g.params) == 6 and
            g.params[-1].type.kind == "ptr"][0]
    known = {d.h["M"][0].key: "M", d.h["L"][0].key: "L", d.h["A"][0].key: "A",
             d.h["Z"][0].key: "Z", draw.key: "E"}
    attr = {f.key for f in svg.fs if any(is_dp(p.type) for p in f.params) and
            any(is_str(p.type) for p in f.params)}
    attr1 = {f.key for f in svg.fs if f.key not in attr and f.decl.type.raw["s"].startswith(
        "const char *") and any(is_str(p.type) for p in f.params)}
    for el in ("rect", "circle", "ellipse", "path", "polygon", "polyline"):
        fs = [g for g in t.get(el, ()) if any(
            prog.resolve(c) is not None and d.draws(prog.resolve(c)) for c in g.calls())]
        if len(fs) != 1:
            rep.viol("shape:" + el, top.body.where(), "SVG element <%s> is not drawn by a function of "
                     "the element table" % el)
            continue
        rep.count("basic shapes")
        f = fs[0]
        m = Machine(prog, opaque=drawing | attr | attr1 | svg.scan | svg.others |
                    svg.readers, max_paths=3000)

        def hook(m, e):
            if e.f is None:
                return None
            if e.f.key in attr:
                outs = [x for x, p in zip(e.args, e.f.params) if is_dp(p.type)]
                names = strs(e)
                for o, n in zip(outs, names):
                    m.store(o.obj, o.off, var(("init", n, 0)), None)
                return num(1)
            if e.f.key in attr1:
                s = strs(e)
                return Ptr("attr:" + s[-1]) if s else None
            if e.f.key in drawing:
                untouched(m, e)
                return num(1) if e.call.type.kind != "void" else None
            return None

        m.on_event = hook
        paths = follow(m, f, [Ptr(p.name) for p in f.params])
        drawn = 0
        for p in paths:
            ops = []
            other = []
            for e in p.events:
                if e.f is None or e.f.key not in drawing:
                    continue
                k = known.get(e.f.key)
                if k is None:
                    other.append(e)
                else:
                    ops.append((k, e))
            facts = zero_facts(p.conds)
            if bad(p.conds, facts):
                continue
            if not ops and not other:
                if not may_be_empty(el, p):
                    rep.viol("shape:" + el, f.body.where(), "<%s>: nothing is drawn on a path where "
                             "the sizes are positive" % el)
                continue
            drawn += 1
            rep.count("paths of basic shapes")
            fin = [e for e in other if not any(isinstance(a, P) for a in e.args)]
            if el in ("path", "polygon", "polyline"):
                text = "d" if el == "path" else "points"
                rd = [e for e in other if (e.f is top or any(is_spp(q.type) for q in e.f.params))
                      and any(
                    isinstance(a, Ptr) and (a.obj == "attr:" + text or
                                            e.mem.get((a.obj, a.off)) == Ptr("attr:" + text))
                    for a in e.args)]
                ok = bool(rd)
                if ok and el != "path":
                    fns = [a.f.key for a in rd[0].args if isinstance(a, Fun) and a.f is not None]
                    rel = [a.const() for a in rd[0].args if isinstance(a, P)]
                    ok = fns == [d.h["M"][0].key, d.h["L"][0].key] and rel == [0]
                elif ok:
                    ok = rd[0].f is top
                if not ok:
                    rep.viol("shape:" + el, f.body.where(), "<%s>: '%s' is not drawn as %s" % (
                        el, text, "a path" if el == "path" else "absolute points"))
                fin = [e for e in fin if e not in rd]
            else:
                check_outline(rep, el, f, p, ops, facts)
            if not fin and not (isinstance(p.ret, P) and p.ret.const() == 0):
                rep.viol("fini:" + el, f.body.where(), "<%s>: what is drawn is not finished" % el)
        if not drawn:
            rep.viol("shape:" + el, f.body.where(), "<%s>: nothing is ever drawn" % el)
        rep.sample("shape", "%s: %s, %d paths" % (el, f.name, len(paths)))
    rep.floor("basic shapes", 4)


def at(n):
    return var(("init", n, 0))


def may_be_empty(el, p):
    names = {"rect": ("width", "height"), "circle": ("r",), "ellipse": ("rx", "ry")}.get(el)
    if names is None:
        return True
    return any(conds_say(p, at(n)) & {"<=", "<", "=="} for n in names)


def check_outline(rep, el, f, p, ops, facts):
    where = f.body.where()
    x = y = P()
    got = []
    for k, e in ops:
        v = [a for a in e.args if isinstance(a, P)]
        if k == "E":
            got.append(("E",) + tuple(v))
            continue
        if k == "Z":
            got.append(("Z",))
            continue
        if v[0].const() not in (0, 1):
            return
        nx, ny = v[-2], v[-1]
        if v[0].const() == 1:
            nx, ny = add(nx, x), add(ny, y)
        got.append((k,) + tuple(v[1:-2]) + (nx, ny))
        x, y = nx, ny
    if el in ("circle", "ellipse"):
        cx, cy = at("cx"), at("cy")
        rx, ry = (at("r"), at("r")) if el == "circle" else (at("rx"), at("ry"))
        tau = Fraction("6.283185307179586")
        ok = len(got) >= 2 and got[0][0] == "M" and got[1][0] == "E"
        if ok:
            e = got[1]
            ok = same(e[1], rx) and same(e[2], ry) and e[3].const() == 0 and \
                e[4].const() is not None and abs(abs(e[4].const()) - tau) < Fraction(1, 10 ** 9) and \
                same(e[5], cx) and same(e[6], cy) and \
                same(got[0][1], add(cx, rx)) and same(got[0][2], cy)
        if not ok or len(got) > 3:
            rep.viol("outline:" + el, where, "<%s> does not draw the closed ellipse around (cx, cy) "
                     "with the given radii" % el)
        rep.count("outlines compared")
        return
    X, Y, W, H = at("x"), at("y"), at("width"), at("height")
    rx, ry = at("rx"), at("ry")
    half = num(Fraction(1, 2))
    if conds_say(p, rx) & {"<=", "<", "=="} or conds_say(p, ry) & {"<=", "<", "=="}:
        rx = ry = P()
    else:
        a, b = conds_say(p, sub(rx, mul(half, W))), conds_say(p, sub(ry, mul(half, H)))
        if not a or not b:
            rep.viol("outline:rect", where, "<rect>: corner radii are not limited to half of the size")
            return
        if ">" in a:
            rx = mul(half, W)
        if ">" in b:
            ry = mul(half, H)

    def pt(a, b):
        return add(X, a), add(Y, b)
    fl = (rx, ry, num(0), num(0), num(1))
    want = [("M",) + pt(rx, P()), ("L",) + pt(sub(W, rx), P()), ("A",) + fl + pt(W, ry),
            ("L",) + pt(W, sub(H, ry)), ("A",) + fl + pt(sub(W, rx), H),
            ("L",) + pt(rx, H), ("A",) + fl + pt(P(), sub(H, ry)),
            ("L",) + pt(P(), ry), ("A",) + fl + pt(rx, P())]
    g2, w2 = squash(got, facts), squash(want, facts)
    rep.count("outlines compared")
    if len(g2) != len(w2) or not all(a[0] == b[0] and len(a) == len(b) and
                                     all(same(i, j, facts) for i, j in zip(a[1:], b[1:]))
                                     for a, b in zip(g2, w2)):
        rep.viol("outline:rect", where, "<rect> does not draw the outline of the rectangle with its "
                 "rounded corners")


def squash(l, facts):
    """without lines and arcs of length 0, and without the line that closes the outline"""
    r = []
    for o in l:
        if o[0] == "Z":
            continue
        if o[0] != "M" and r and same(o[-2], r[-1][-2], facts) and same(o[-1], r[-1][-1], facts):
            continue
        r.append(o)
    if len(r) > 1 and r[-1][0] == "L" and same(r[-1][1], r[0][1], facts) and \
            same(r[-1][2], r[0][2], facts):
        r.pop()
    return r


class Draw:
    def __init__(self, prog, rep, svg, rec, h):
        self.prog, self.rep, self.svg, self.rec, self.h = prog, rep, svg, rec, h
        self.o = {n: off(prog, rec, n) for n in ("cur_x", "cur_y", "init_x", "init_y", "prev_cmd",
                                                 "ctrl_x", "ctrl_y", "point_idx")}
        self.push = self.pusher()
        self.counts = {f.key for f in svg.fs if self.draws(f) and
                       f.decl.type.raw["s"].startswith("unsigned")}

    def pusher(self):
        """adds a point: the drawing function that others call, but which calls none itself, and
        which gets a coordinate and does not set the current point"""
        c = []
        for f in self.svg.fs:
            if self.draws(f) and [tn(p.type) for p in f.params][-2:] == ["double", "double"] and \
                    not any(self.draws(self.prog.resolve(x)) for x in f.calls()) and \
                    not any(x.k == "BinaryOperator" and x.op == "=" and x.ch[0].k == "MemberExpr" and
                            x.ch[0].raw.get("n") == "cur_x" for x in f.body.walk()):
                c.append(f)
        named = [f for f in c if f.name == "path_push"]
        if len(c) == 1 or named:
            return (named or c)[0]
        raise Broken("no function that adds a point to a path")

    def draws(self, g):
        return g is not None and bool(g.params) and g.params[0].type.kind == "ptr" and \
            g.params[0].type.ptr_rec() == self.rec

    def sym(self, n):
        return var(("init", "p", self.o[n]))

    def paths(self, f, rel, prev, k, extra=()):
        m = Machine(self.prog, opaque={self.push.key} | self.counts | set(extra), max_paths=2000)

        def hook(m, e):
            if e.f is not None and e.f.key in self.counts:
                untouched(m, e)
                return num(3)
            if e.f is not None and e.f.key == self.push.key:
                untouched(m, e)
                m.store("p", self.o["point_idx"], num(1), None)
            return None

        def setup(m):
            if prev is not None:
                m.mem["p", self.o["prev_cmd"]] = prev

        m.on_event = hook
        args, i, r = [], 0, False
        for p in f.params:
            if p is f.params[0]:
                args.append(Ptr("p"))
            elif p.type.kind == "ptr":
                args.append(Ptr(p.name))
            elif not r:
                args.append(num(rel))
                r = True
            else:
                args.append(var(("init", "arg", 8 * i)))
                i += 1
        if i != k:
            raise Broken("%s() does not take %d values" % (f.name, k))
        return follow(m, f, args, setup)

    def state(self, p, n):
        return read(p, "p", self.o[n])

    def run(self):
        need = [x for x in ARGS if x not in self.h and x != "A"]
        if need:
            return
        codes = {}
        for c in "QC":
            l = [self.state(p, "prev_cmd") for p in self.paths(self.h[c][0], 0, None, ARGS[c])]
            if len({x.key() for x in l}) != 1 or l[0].const() in (None, 0):
                self.rep.viol("prev:" + c, self.h[c][0].body.where(), "path command %s does not "
                              "remember that it was the last command" % c)
                return
            codes[c] = l[0]
        if codes["Q"] == codes["C"]:
            self.rep.viol("prev:QC", self.h["Q"][0].body.where(), "path commands Q and C are not told "
                          "apart by a following S or T")
        for letter in "MLHVQTCSZ":
            for which, f in enumerate(self.h[letter]):
                l = "L" if letter == "M" and which else letter
                for rel in (0, 1):
                    for pc, prev in (("Q", codes["Q"]), ("C", codes["C"]), ("L", num(0))):
                        self.one(l, f, rel, pc, prev, codes)
        if "A" in self.h:
            self.arcs()

    def one(self, letter, f, rel, pc, prev, codes):
        k = ARGS[letter]
        cx, cy = self.sym("cur_x"), self.sym("cur_y")
        a = [var(("init", "arg", 8 * i)) for i in range(k)]
        if letter == "H":
            a = [a[0], P() if rel else cy]
        if letter == "V":
            a = [P() if rel else cx, a[0]]
        if rel:
            a = [add(x, cy if i % 2 else cx) for i, x in enumerate(a)]
        if letter == "Z":
            if rel:
                return
            ps = self.zpaths(f, prev)
        else:
            ps = self.paths(f, rel, prev, k)
        where = f.body.where()
        name = "%s (%s, after %s)" % (letter, "relative" if rel else "absolute",
                                      {"L": "a line"}.get(pc, pc))
        for p in ps:
            facts = zero_facts(p.conds)
            if bad(p.conds, facts):
                continue
            self.rep.count("paths through drawing functions")
            pushes = [e.args[-2:] for e in p.events if e.f is not None and e.f.key == self.push.key]
            start = p.conds.get(("equal", self.sym("point_idx").key()))
            kind, ctrl = None, None
            if letter == "Z":
                want, end = [], (self.sym("init_x"), self.sym("init_y"))
            elif letter == "M":
                want, end = [], tuple(a)
            elif letter in "LHV":
                want, end = [tuple(a)], tuple(a)
            elif letter in "QT":
                kind = "Q"
                if letter == "T":
                    r = (sub(mul(num(2), cx), self.sym("ctrl_x")),
                         sub(mul(num(2), cy), self.sym("ctrl_y"))) if pc == "Q" else (cx, cy)
                    a2 = list(r) + a
                else:
                    a2 = a
                ctrl = (a2[0], a2[1])
                end = (a2[2], a2[3])
                want = [bezier([(cx, cy), ctrl, end], Fraction(i, 3)) for i in (1, 2, 3)]
            else:
                kind = "C"
                if letter == "S":
                    r = (sub(mul(num(2), cx), self.sym("ctrl_x")),
                         sub(mul(num(2), cy), self.sym("ctrl_y"))) if pc == "C" else (cx, cy)
                    a2 = list(r) + a
                else:
                    a2 = a
                ctrl = (a2[2], a2[3])
                end = (a2[4], a2[5])
                want = [bezier([(cx, cy), (a2[0], a2[1]), ctrl, end], Fraction(i, 3))
                        for i in (1, 2, 3)]
            got = list(pushes)
            if letter not in "MZ" and got and start:
                g = got.pop(0)
                self.rep.count("points compared")
                if not (same(g[0], cx) and same(g[1], cy)):
                    self.rep.viol("start:" + letter, where, "path command %s: the first point of a "
                                  "subpath is not the current point" % name)
            if not got and want and letter in "LHV":
                # nothing drawn: only when the end is the current point
                ok = same(want[0][0], cx, facts) and same(want[0][1], cy, facts)
                if not ok:
                    self.rep.viol("draw:" + letter, where, "path command %s: no point is drawn" % name)
            else:
                ok = len(got) == len(want)
                for g, w in zip(got, want):
                    self.rep.count("points compared")
                    if not (same(g[0], w[0], facts) and same(g[1], w[1], facts)):
                        ok = False
                        self.rep.viol("draw:" + letter, where, "path command %s draws (%s, %s) where "
                                      "SVG defines (%s, %s)" % (name, show(g[0])[:70], show(g[1])[:70],
                                                                show(w[0])[:70], show(w[1])[:70]))
                        break
                if not ok:
                    self.rep.viol("draw:" + letter, where, "path command %s draws %d points instead of "
                                  "%d" % (name, len(got), len(want)))
            cur = self.state(p, "cur_x"), self.state(p, "cur_y")
            self.rep.count("points compared")
            if not (same(cur[0], end[0], facts) and same(cur[1], end[1], facts)):
                self.rep.viol("end:" + letter, where, "path command %s leaves the current point at "
                              "(%s, %s)" % (name, show(cur[0])[:60], show(cur[1])[:60]))
            pv = self.state(p, "prev_cmd")
            if kind is None and (pv == codes["Q"] or pv == codes["C"]):
                self.rep.viol("memory:" + letter, where, "after path command %s, a following S or T "
                              "still uses the control point of an earlier curve" % name)
            if kind is not None and pv != codes[kind]:
                self.rep.viol("memory:" + letter, where, "after path command %s, a following %s does "
                              "not continue the curve" % (name, "T" if kind == "Q" else "S"))
            if ctrl is not None:
                c = self.state(p, "ctrl_x"), self.state(p, "ctrl_y")
                self.rep.count("points compared")
                if not (same(c[0], ctrl[0], facts) and same(c[1], ctrl[1], facts)):
                    self.rep.viol("control:" + letter, where, "path command %s remembers (%s, %s) as its "
                                  "last control point" % (name, show(c[0])[:60], show(c[1])[:60]))
            if letter in "MZ":
                s = self.state(p, "point_idx")
                i = self.state(p, "init_x"), self.state(p, "init_y")
                if not (same(s, P(), facts)):
                    if not any(c[0] == "ptr" and not v for c, v in p.conds.items()):
                        self.rep.viol("subpath:" + letter, where, "path command %s does not end the "
                                      "subpath" % name)
                if letter == "M" and not (same(i[0], end[0], facts) and same(i[1], end[1], facts)):
                    self.rep.viol("initial:M", where, "a 'Z' that directly follows path command %s does "
                                  "not return to the point given with it" % name)

    def arcs(self):
        """the arc command: end point parametrisation to centre parametrisation"""
        rep, prog = self.rep, self.prog
        rep.rule("on every path of the arc command, radii, centre, start angle, sweep and rotation "
                 "of the ellipse are those of SVG's conversion from end points (implementation notes "
                 "B.2.4 and B.2.5), and the points drawn lie on that ellipse")
        f = self.h["A"][0]
        draw = [g for g in self.svg.fs if self.draws(g) and g is not self.push and
                sum(tn(p.type) == "double" for p in g.params) == 6 and
                g.params[-1].type.kind == "ptr"]
        ang = {g.key for g in prog.functions.values() if len(g.params) == 2 and
               g.decl.type.raw["s"].startswith(("cp_angle_t", "double")) and
               all(p.type.kind == "ptr" and p.type.ptr_rec() == "cp_vec2_t" for p in g.params) and
               "angle" in g.name}
        if len(draw) != 1 or not ang:
            raise Broken("no function that draws an ellipse segment")
        draw = draw[0]
        self.ellipse(draw)
        A = [var(("init", "arg", 8 * i)) for i in range(7)]
        cx0, cy0 = self.sym("cur_x"), self.sym("cur_y")
        where = f.body.where()
        z, o = num(0), num(1)
        for rel in (0, 1):
            for fa in (0, 1):
                for fs in (0, 1):
                    ps = self.arc_paths(f, rel, fa, fs, A, {draw.key} | ang)
                    ex, ey = (add(A[5], cx0), add(A[6], cy0)) if rel else (A[5], A[6])
                    full = 0
                    for p in ps:
                        facts = zero_facts(p.conds)
                        if bad(p.conds, facts):
                            continue
                        rep.count("paths through the arc command")
                        cur = self.state(p, "cur_x"), self.state(p, "cur_y")
                        pushes = [e.args[-2:] for e in p.events if e.f is self.push]
                        rep.count("points compared", 2)
                        if not (same(cur[0], ex, facts) and same(cur[1], ey, facts)):
                            rep.viol("arc:end", where, "an arc leaves the current point elsewhere "
                                     "than at its end (%s, %s)" % (show(cur[0])[:60],
                                                                   show(cur[1])[:60]))
                        if pushes and not (same(pushes[-1][0], ex, facts) and
                                           same(pushes[-1][1], ey, facts)):
                            rep.viol("arc:last", where, "the last point drawn for an arc is not its end")
                        if not pushes and not (same(ex, cx0, facts) and same(ey, cy0, facts)):
                            rep.viol("arc:none", where, "an arc to another point draws nothing")
                        if facts:
                            continue
                        ds = [e for e in p.events if e.f is draw]
                        if len(ds) != 1:
                            rep.viol("arc:draw", where, "an arc with radii and distinct end points is not "
                                     "drawn as part of one ellipse")
                            continue
                        full += 1
                        self.arc(p, ds[0], ang, rel, fa, fs, A, (ex, ey), where)
                    if not full:
                        rep.viol("arc:none", where, "no path draws an arc with flags %d %d" % (fa, fs))

    def arc_paths(self, f, rel, fa, fs, A, extra):
        m = Machine(self.prog, opaque={self.push.key} | self.counts | extra, max_paths=3000)

        def hook(m, e):
            if e.f is self.push or e.f is not None and e.f.key in extra:
                untouched(m, e)
            return None

        m.on_event = hook
        vals = [num(rel), A[0], A[1], A[2], num(fa), num(fs), A[5], A[6]]
        args, i = [], 0
        for p in f.params:
            if p.type.kind == "ptr":
                args.append(Ptr("p" if p is f.params[0] else p.name))
            else:
                args.append(vals[i])
                i += 1
        return follow(m, f, args)

    def arc(self, p, d, ang, rel, fa, fs, A, end, where):
        rep = self.rep
        ex, ey = end
        x1, y1 = self.sym("cur_x"), self.sym("cur_y")
        half = num(Fraction(1, 2))
        dx, dy = mul(half, sub(x1, ex)), mul(half, sub(y1, ey))
        c, s = fn("cos", A[2]), fn("sin", A[2])
        xp, yp = add(mul(c, dx), mul(s, dy)), sub(mul(c, dy), mul(s, dx))
        rx, ry = fn("fabs", A[0]), fn("fabs", A[1])
        xp2, yp2 = mul(xp, xp), mul(yp, yp)
        la = add(div(xp2, mul(rx, rx)), div(yp2, mul(ry, ry)))
        big = None
        for q, v in p.conds.items():
            if q[0] in ("less", "greater"):
                for sign, w in ((1, sub(la, num(1))), (-1, sub(num(1), la))):
                    if same(thaw(q[1]), w):
                        up = (sign == 1) == (q[0] == "greater")
                        big = up if v else not up
        if big is None:
            rep.viol("arc:radii", where, "whether the radii of an arc are too small is not decided as "
                     "SVG defines it")
            return
        if big:
            k = fn("sqrt", la)
            rx, ry = mul(rx, k), mul(ry, k)
        a = [x for x in d.args if isinstance(x, P)]
        tag = "arc with large-arc %d, sweep %d%s" % (fa, fs, ", radii too small" if big else "")
        rep.count("values of arcs compared", 8)
        if not (same(a[0], rx) and same(a[1], ry)):
            rep.viol("arc:radii", where, "%s: the radii are not SVG's" % tag)
            return
        rx2, ry2 = mul(rx, rx), mul(ry, ry)
        den = add(mul(rx2, yp2), mul(ry2, xp2))
        nu = sub(mul(rx2, ry2), den)
        cands = [nu]
        for i, e in enumerate(p.events):
            if e.callee in ("fmax", "fmin") and e.f is None:
                v = [x for x in e.args if isinstance(x, P)]
                if e.callee == "fmax" and len(v) == 2 and (
                        same(v[0], P()) and same(v[1], nu) or same(v[1], P()) and same(v[0], nu)):
                    cands.append(var(("res", e.callee, i + 1)))
        cands.append(P())
        ok = False
        for n in cands:
            try:
                co = fn("sqrt", div(n, den))
            except Unsupported:
                continue
            if fa == fs:
                co = sub(P(), co)
            ccx = mul(co, div(mul(rx, yp), ry))
            ccy = sub(P(), mul(co, div(mul(ry, xp), rx)))
            cx = add(sub(mul(c, ccx), mul(s, ccy)), mul(half, add(x1, ex)))
            cy = add(add(mul(s, ccx), mul(c, ccy)), mul(half, add(y1, ey)))
            if same(a[4], cx) and same(a[5], cy):
                ok = True
                break
        if not ok:
            rep.viol("arc:centre", where, "%s: the centre is not SVG's" % tag)
            return
        # angles
        gx, gy = div(sub(xp, ccx), rx), div(sub(yp, ccy), ry)
        hx, hy = div(sub(sub(P(), xp), ccx), rx), div(sub(sub(P(), yp), ccy), ry)
        vec = {}
        for i, e in enumerate(p.events):
            if e.f is not None and e.f.key in ang:
                vs = [[e.mem.get((x.obj, x.off + 8 * j)) for j in (0, 1)] for x in e.args]
                if any(not isinstance(y, P) for v in vs for y in v):
                    continue
                names = []
                for v in vs:
                    names.append("x" if same(v[0], num(1)) and same(v[1], P()) else
                                 "g" if same(v[0], gx) and same(v[1], gy) else
                                 "h" if same(v[0], hx) and same(v[1], hy) else "?")
                vec["".join(names)] = var(("res", e.callee, i + 1))
        if not ("xg" in vec and same(a[2], vec["xg"])):
            rep.viol("arc:start", where, "%s: the start angle is not SVG's" % tag)
            return
        dth = vec.get("gh")
        if dth is None:
            rep.viol("arc:sweep", where, "%s: the angle swept is not SVG's" % tag)
            return
        tau = Fraction("6.283185307179586")
        dd = sub(a[3], dth)
        k = dd.const()
        sign = None
        for q, v in p.conds.items():
            if q[0] in ("less", "greater") and same(thaw(q[1]), dth):
                sign = (q[0], v)
        want = 0
        if fs and sign == ("less", True):
            want = 1
        if not fs and sign == ("greater", True):
            want = -1
        if k is None or abs(k - want * tau) > Fraction(1, 10 ** 9) or \
                sign is None or sign[0] != ("less" if fs else "greater"):
            rep.viol("arc:sweep", where, "%s: the angle swept does not have the direction that the "
                     "flag asks for" % tag)
        r = [x for x in d.args if isinstance(x, Ptr)][-1]
        got = [d.mem.get((r.obj, r.off + 8 * i)) for i in range(4)] if r.obj else [None] * 4
        for g, w in zip(got, (c, sub(P(), s), s, c)):
            if not isinstance(g, P) or not same(g, w):
                rep.viol("arc:rotation", where, "%s: the rotation of the ellipse is not SVG's" % tag)
                return

    def ellipse(self, f):
        """the points drawn for a segment of an ellipse"""
        for rot in (0, 1):
            m = Machine(self.prog, opaque={self.push.key} | self.counts)

            def hook(m, e):
                untouched(m, e)
                return num(3) if e.f is not None and e.f.key in self.counts else None

            m.on_event = hook
            A = [var(("init", "arg", 8 * i)) for i in range(6)]
            args, i = [], 0
            for p in f.params:
                if p.type.kind == "ptr":
                    args.append(Ptr("p") if p is f.params[0] else
                                Ptr("rot" if rot else None) if p is f.params[-1] else Ptr(p.name))
                else:
                    args.append(A[i])
                    i += 1
            ps = follow(m, f, args)
            rx, ry, t1, dt, cx, cy = A
            for p in ps:
                facts = zero_facts(p.conds)
                if any(same(x, P(), facts) for x in (rx, ry, dt)):
                    continue
                got = [e.args[-2:] for e in p.events if e.f is self.push]
                if p.conds.get(("equal", self.sym("point_idx").key())) and got:
                    g = got.pop(0)
                    if not (same(g[0], self.sym("cur_x")) and same(g[1], self.sym("cur_y"))):
                        self.rep.viol("ellipse:start", f.body.where(), "the first point of a subpath "
                                      "that starts with an arc is not the current point")
                if len(got) not in (2, 3):
                    self.rep.viol("ellipse:count", f.body.where(), "%d points are drawn for an arc of "
                                  "3 segments" % len(got))
                    continue
                for i, g in enumerate(got, 1):
                    th = add(t1, mul(dt, num(Fraction(i, 3))))
                    x, y = mul(rx, fn("cosr", th)), mul(ry, fn("sinr", th))
                    if rot:
                        r = [var(("init", "rot", 8 * j)) for j in range(4)]
                        x, y = add(mul(r[0], x), mul(r[1], y)), add(mul(r[2], x), mul(r[3], y))
                    self.rep.count("points compared")
                    if not (same(g[0], add(x, cx)) and same(g[1], add(y, cy))):
                        self.rep.viol("ellipse:point", f.body.where(), "a point drawn for an arc is not "
                                      "on its ellipse: (%s, %s)" % (show(g[0])[:80], show(g[1])[:80]))
                        break

    def zpaths(self, f, prev):
        m = Machine(self.prog, opaque={self.push.key} | self.counts)

        def setup(m):
            m.mem["p", self.o["prev_cmd"]] = prev

        return follow(m, f, [Ptr("p" if p is f.params[0] else p.name) for p in f.params], setup)


def bezier(pts, t):
    while len(pts) > 1:
        pts = [tuple(add(mul(num(1 - t), a[i]), mul(num(t), b[i])) for i in (0, 1))
               for a, b in zip(pts, pts[1:])]
    return pts[0]


def follow(m, f, args, setup=None):
    try:
        r = m.paths(f, args, setup)
    except Unsupported as e:
        raise Broken("cannot follow %s(): %s" % (f.name, e))
    if m.unsup:
        raise Broken("cannot follow %s() in %s(): %s" % (sorted(m.unsup)[0], f.name,
                                                         m.unsup[sorted(m.unsup)[0]]))
    return r


def untouched(m, e):
    """a reader that fails changes nothing (checked in readers())"""
    m.mem, m.dflt = dict(e.mem), {k: list(v) for k, v in e.dflt.items()}


def readers(prog, rep, svg):
    rep.rule("a function that reads a number from SVG text leaves the variable alone unless it "
             "succeeds")
    for f in svg.fs:
        if f.key not in svg.readers:
            continue
        m = Machine(prog, havoc_loops=True, opaque={g.key for g in prog.functions.values()
                                                    if g is not f})
        paths = follow(m, f, [Ptr(p.name) for p in f.params])
        d = [p for p in f.params if is_dp(p.type)][0]
        rep.count("number readers")
        for p in paths:
            w = (d.name, 0) in p.mem and p.mem[d.name, 0] != var(("init", d.name, 0)) or \
                d.name in p.dflt
            if isinstance(p.ret, P) and p.ret.const() == 0 and w:
                rep.viol("reader:%s" % f.name, f.body.where(), "%s() changes the variable although it "
                         "reports that no number was read" % f.name)


def read(p, obj, o):
    v = p.mem.get((obj, o))
    if v is not None:
        return v
    for s, e, src, so in reversed(p.dflt.get(obj, ())):
        if s <= o < e:
            return num(0) if src is None else var(("init", src, so + o - s))
    return var(("init", obj, o))


def bad(conds, facts):
    """contradictory, or a matrix that cannot be inverted"""
    for c, v in conds.items():
        if c[0] in ("zero", "equal") and not v:
            try:
                if is_zero(apply_facts(thaw(c[1]), facts)):
                    return True
            except Unsupported:
                pass
    return False
