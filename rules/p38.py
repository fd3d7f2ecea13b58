"""P38: every layer is the cross-section of the model at its height."""
import math
from fractions import Fraction

from alg import Blob, P, Ptr, Unsupported, add, is_zero, mul, num, show, sub, div, var
from facts import Broken
from matalg import off
from p29 import lazyrec1, opty, sweeps
from p34 import OPAQUE, Solids, recsize
from point import Build, Pointed, evaluate

F = Fraction
# points of a body: (name, height in steps); faces
TETRA = ([0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2])
PRISM = ([0, 1, 2, 3], [3, 2, 6, 7], [7, 6, 5, 4], [4, 5, 1, 0], [0, 3, 7, 4], [1, 5, 6, 2])
STAR = ([0, 1, 2, 3, 4], [0, 4, 1], [1, 4, 2], [2, 4, 3], [3, 4, 0])
# heights of the corners, in steps above the reference
BODIES = {
    "a": (TETRA, [0, 0, 0, F(9, 4)]),
    "b": (TETRA, [F(1, 2), F(3, 2), F(-1, 4), F(7, 2)]),
    "c": (PRISM, [-2, -2, -2, -2, 5, 5, 5, 5]),
    "d": (PRISM, [1, 1, 3, 3, 2, 2, 4, 4]),
    "e": (STAR, [0, F(5, 2), F(1, 3), F(3, 2), F(1, 2)]),
    "f": (TETRA, [F(1, 2), F(1, 2), F(1, 2), F(5, 2)]),
    "g": (PRISM, [F(1, 2)] * 4 + [F(3, 2)] * 4),
}
# balls: matrix (in steps), height of the centre, number of corners
BALLS = {
    "ball0": (((3, 0, 0), (0, 3, 0), (0, 0, 3)), 3, 8),
    "ball1": (((1, 2, 0), (0, 1, 1), (2, -1, 2)), F(7, 2), 5),
    "ball2": (((2, 0, 0), (0, 1, 0), (0, 0, -2)), F(1, 3), 6),
    "ball3": (((1, 0, 1), (0, 2, 0), (0, 3, 4)), 4, 7),
    "ball4": (((0, 2, 0), (F(1, 2), 0, 0), (0, 0, F(1, 4))), F(3, 4), 3),
    "ball5": (((5, 0, 0), (0, 4, 0), (0, 0, 2000)), 2000, 4),
}
DEEP = ("a", ("sub", ("b",), ("c",)), ("cut", ("d", "c"), ("e",), ("c",)),
        ("xor", ("f",), ("g", "a")), ("add", ("e", ("sub", ("g",), ("f",)))))
# tree, lowest and highest point of what is not subtracted, options
CASES = [
    (("a",), 0, F(9, 4), {}),
    (("b",), F(-1, 4), F(7, 2), {}),
    (("g",), F(1, 2), F(3, 2), {}),
    (("f", "d"), F(1, 2), 4, {}),
    (DEEP, F(-1, 4), 4, {}),
    ((("sub", ("a",), ("c",)),), 0, F(9, 4), {}),
    ((("cut", ("a", "d"), ("c",)),), 0, 4, {}),
    ((("cut", ("b",), ("d",)),), 1, F(7, 2), {}),
    ((("xor", ("a",), ("d",)),), 0, 4, {}),
    (("b",), F(-1, 4), F(7, 2), {"min": 1}),
    (("b",), F(-1, 4), F(7, 2), {"max": 1}),
    (("b",), F(-1, 4), F(7, 2), {"min": F(1, 2), "max": F(5, 2)}),
    (("b",), F(-1, 4), F(7, 2), {"min": F(3, 4), "max": F(3, 4)}),
    (("b",), F(-1, 4), F(7, 2), {"min": F(3, 2), "max": F(3, 2)}),
    (("f", "d"), F(1, 2), 4, {"min": -2, "max": 6}),
    (("ball0",), 0, 6, {}),
    (("ball1",), F(1, 2), F(13, 2), {}),
    (("ball2", "ball4"), F(-5, 3), F(7, 3), {}),
    (("ball3",), -1, 9, {}),
    (("ball3", ("sub", ("a",), ("ball1",)), ("cut", ("ball0",), ("e",))), -1, 9, {}),
    (("ball4",), F(1, 2), 1, {"min": -1, "max": 3}),
    # layers close to the pole of a ball
    (("ball5",), 0, 4000, {"min": 0, "max": 2}),
]


def run(prog, rep):
    rep.rule("the run is followed from the 3D tree to the layers with symbolic coordinates, lowest "
             "height and step, and heights at fixed multiples of the step: number and heights of "
             "the layers, what each object of the tree contributes to each layer (for each face, "
             "the points where its edges cross the layer's height; for each ball, a closed polygon of "
             "the given number of corners at equal angles), and the Boolean combination of the "
             "objects that ends up in that layer of the result must be as documented")
    s = Layers(prog, rep)
    for c in CASES:
        s.pipeline(*c)
    rep.floor("layers compared", 40)
    rep.floor("contributions of objects to layers", 100)
    rep.floor("crossing points compared", 400)
    rep.floor("balls compared", 20)
    rep.floor("layers combined", 40)
    rep.floor("combinations of bodies compared", 2000)


def det(M):
    (a, b, c), (d, e, f), (g, h, i) = M
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)


def inverse(M):
    D = det(M)
    r = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = [x for x in range(3) if x != j]
            c, d = [x for x in range(3) if x != i]
            r[i][j] = F((-1) ** (i + j) * (M[a][c] * M[b][d] - M[a][d] * M[b][c])) / D
    return r


m_size = 4096


def rec(t):
    """the record a pointer type points to"""
    if t.kind != "ptr":
        return None
    return "cq_sweep" if "cq_sweep_t" in t.raw["s"] else t.ptr_rec()


class Run(Pointed):
    """tells which layers are combined"""
    def __init__(self, rule, env):
        super().__init__(rule.prog, env, opaque=OPAQUE, max_paths=50)
        self.rule = rule

    def do_call(self, n):
        g = self.prog.resolve(n)
        if g is not None and g.key in self.rule.flatten:
            self.rule.on_layer(self, [self.rvalue(a) for a in n.args], g)
        return super().do_call(n)


class Layers(Solids):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.enum = {n: v for l in prog.enums.values() for n, v in l}
        fs = prog.functions.values()

        def takes(g, *rs):
            have = [p.type.ptr_rec() for p in g.params if p.type.kind == "ptr"]
            return all(r in have for r in rs)
        self.start = [g for g in fs if takes(g, "cp_csg2_tree_t", "cp_csg3_tree_t", "cp_range_t")]
        if len(self.start) != 1:
            raise Broken("no unique start of the layers")
        from3 = {g.name for g in fs if takes(g, "cp_csg3_tree_t", "cp_scad_tree_t", "cp_err_t")}
        self.main = [g for g in fs if any(c.callee == self.start[0].name for c in g.calls()) and
                     any(c.callee in from3 for c in g.calls())]
        if len(self.main) != 1:
            raise Broken("no unique run")
        self.from3 = from3
        self.flatten = {g.key for g in fs if [p.type.ptr_rec() for p in g.params
                                              if p.type.kind == "ptr"].count("cp_csg2_tree_t") == 2 and
                        takes(g, "cp_err_t") and g.relfile != self.main[0].relfile}
        if not self.flatten:
            raise Broken("no function that combines the objects of a layer")
        lazy = [(g, [i for i, p in enumerate(g.params) if lazyrec1(p)]) for g in fs]
        self.combine = {g.key: l for g, l in lazy if len(l) == 2 and any(opty(p.type) for p in g.params)}
        self.eager = {g.key: l[0] for g, l in lazy if len(l) == 1 and sweeps(prog, g)}
        recs = {lazyrec1(g.params[i]) for g, l in lazy for i in l}
        if len(recs) != 1 or not self.combine or not self.eager:
            raise Broken("no unique way to combine the objects of a layer")
        o = lambda x: off(prog, list(recs)[0], x)
        self.lazy = (o("size"), o("data"))

    # ------------------------------------------------------------- input
    def z(self, k):
        return add(var(("init", "low", 0)), mul(num(k), var(("init", "step", 0))))

    def xy(self, name, i, d):
        return var(("init", "p%s%d.%s" % (name, i, "xy"[d]), 0))

    def environment(self):
        env = {("init", "infinite", 0): 1e30, ("init", "low", 0): 17.3, ("init", "step", 0): 2.0,
               ("init", "global:cp_eq_epsilon", 0): 1e-5,
               ("init", "global:cp_pt_epsilon", 0): 1e-5,
               ("init", "global:cp_sqr_epsilon", 0): 1e-10,
               ("init", "global:cq_dim_scale", 0): 1.0}
        for j, n in enumerate(sorted(BODIES) + sorted(BALLS)):
            for i in range(10):
                env["init", "p%s%d.x" % (n, i), 0] = 31.7 * j + 7 * math.cos(2 + i * i)
                env["init", "p%s%d.y" % (n, i), 0] = 11.3 * j + 7 * math.sin(1 + i * i + j)
        return env

    def tree(self, b, spec, path):
        """the objects of a list; the leaves are (object, body)"""
        ptrs = []
        for i, s in enumerate(spec):
            o = "%s/%d" % (path, i)
            if isinstance(s, str):
                ptrs.append(self.body(b, s, o))
                continue
            kind = s[0]
            b.rec(o)
            if kind == "add":
                b.set(o, "cp_csg_add_t", "type", self.enum["CP_CSG_ADD"])
                b.vec(o, "cp_csg_add_t", "add", self.tree(b, s[1:][0] if len(s) == 2 and
                                                          isinstance(s[1], tuple) else s[1:], o))
            elif kind == "sub":
                b.set(o, "cp_csg_sub_t", "type", self.enum["CP_CSG_SUB"])
                for side, l in zip(("add", "sub"), s[1:]):
                    b.set(o, "cp_csg_sub_t", side, self.sum(b, l, o + side))
            else:
                r = "cp_csg_%s_t" % kind
                b.set(o, r, "type", self.enum["CP_CSG_" + kind.upper()])
                b.vec(o, r, kind, [self.sum(b, l, "%s.%d" % (o, j)) for j, l in enumerate(s[1:])])
            ptrs.append(Ptr(o, 0))
        return ptrs

    def sum(self, b, spec, o):
        b.rec(o)
        b.set(o, "cp_csg_add_t", "type", self.enum["CP_CSG_ADD"])
        b.vec(o, "cp_csg_add_t", "add", self.tree(b, spec, o))
        return Ptr(o, 0)

    def body(self, b, name, o):
        if name in BALLS:
            return self.sphere(b, name, o)
        faces, hs = BODIES[name]
        b.rec(o)
        R = "cp_csg3_poly_t"
        b.set(o, R, "type", self.enum["CP_CSG3_POLY"])
        self.leaves[o] = name
        pz, pc = recsize(self.prog, "cp_vec3_loc_t"), off(self.prog, "cp_vec3_loc_t", "coord")
        b.array(o, off(self.prog, R, "point"), o + "P", len(hs))
        for i, h in enumerate(hs):
            for d in range(3):
                b.m.store(o + "P", i * pz + pc + 8 * d,
                          self.z(h) if d == 2 else self.xy(name, i, d), None)
        fz, fp = recsize(self.prog, "cp_csg3_face"), off(self.prog, "cp_csg3_face", "point")
        rz, rr = recsize(self.prog, "cp_vec3_loc_ref_t"), off(self.prog, "cp_vec3_loc_ref_t", "ref")
        b.array(o, off(self.prog, R, "face"), o + "F", len(faces))
        for j, f in enumerate(faces):
            b.array(o + "F", j * fz + fp, "%sF%d" % (o, j), len(f))
            for k, i in enumerate(f):
                b.m.store("%sF%d" % (o, j), k * rz + rr, Ptr(o + "P", i * pz), None)
        return Ptr(o, 0)

    def sphere(self, b, name, o):
        M, c, fn = BALLS[name]
        self.leaves[o] = name
        R, W = "cp_csg3_sphere_t", "cp_mat3wi_t"
        b.rec(o)
        b.set(o, R, "type", self.enum["CP_CSG3_SPHERE"])
        b.set(o, R, "_fn", fn)
        b.rec(o + "M")
        b.set(o, R, "mat", Ptr(o + "M", 0))
        step, t, inv = var(("init", "step", 0)), self.centre(name), inverse(M)
        n, i = off(self.prog, W, "n"), off(self.prog, W, "i")
        lin, tr = off(self.prog, "cp_mat3w_t", "b"), off(self.prog, "cp_mat3w_t", "w")
        for r in range(3):
            w = num(0)
            for k in range(3):
                b.m.store(o + "M", n + lin + 24 * r + 8 * k, mul(num(M[r][k]), step), None)
                x = div(num(inv[r][k]), step)
                b.m.store(o + "M", i + lin + 24 * r + 8 * k, x, None)
                w = sub(w, mul(x, t[k]))
            b.m.store(o + "M", n + tr + 8 * r, t[r], None)
            b.m.store(o + "M", i + tr + 8 * r, w, None)
        b.set(o + "M", W, "d", mul(mul(mul(num(det(M)), step), step), step))
        return Ptr(o, 0)

    def centre(self, name):
        return (self.xy(name, 0, 0), self.xy(name, 0, 1), self.z(BALLS[name][1]))

    def machine(self, env):
        m = Run(self, env)
        m.max_steps = 4000000
        m.recursion = 8
        m.on_event = self.event38
        m.children = set()
        for g in self.prog.functions.values():
            if g.relfile.startswith("src/hob3lbase/") and "sort" in g.name or \
                    g.name in ("cq_import_dim", "cq_divw_rnd") or g.key in self.combine or \
                    g.key in self.eager or g.name in self.from3:
                m.opaque.add(g.key)
            if g.relfile == self.main[0].relfile:
                continue
            rs = [rec(p.type) for p in g.params]
            if ("cp_stream_t" in rs or "cp_err_t" in rs or "cp_syn_input_t" in rs or
                    "cq_sweep" in rs) and g.key not in self.flatten:
                m.opaque.add(g.key)
        return m

    # ------------------------------------------------------------- library
    def restore(self, m, e):
        pass

    def event38(self, m, e):
        a, name = e.args, e.callee
        c = lambda i: int(a[i].const())
        self.restore(m, e)
        if e.f is None and name in ("__builtin_inff", "__builtin_inf", "__builtin_huge_val"):
            return var(("init", "infinite", 0))
        if e.f is None and name in ("calloc", "malloc"):
            return self.zeroed(m, 1 << 16)
        if e.f is None and name == "realloc":
            p = self.zeroed(m, 1 << 16)
            if isinstance(a[0], Ptr) and a[0].obj is not None:
                m.store(p.obj, 0, m.blob(a[0].obj, a[0].off, 1 << 16), None)
            return p
        if name == "cq_import_dim":
            return a[0]
        if name == "cq_divw_rnd":
            return div(a[0], a[1])
        if e.f is not None and e.f.key in self.combine:
            return self.on_combine(m, e)
        if e.f is not None and e.f.key in self.eager:
            return self.on_eager(m, e)
        rs = [rec(p.type) for p in e.f.params] if e.f is not None else []
        if "cq_sweep" in rs and "cq_csg2_poly_t" in rs and "cp_err_t" in rs:
            s, p = a[rs.index("cq_sweep")], a[rs.index("cq_csg2_poly_t")]
            self.polys[p.obj] = self.table(s)
            m.store(p.obj, p.off + off(self.prog, "cq_csg2_poly_t", "point.size"), num(3), None)
            return num(1)
        if "cp_stream_t" in rs and "cp_csg2_tree_t" in rs:
            self.final = (a[rs.index("cp_csg2_tree_t")], dict(m.mem), {k: list(v) for k, v in m.dflt.items()})
            return None
        if e.f is not None and name in self.from3:
            for x, p in zip(a, e.f.params):
                if p.type.kind == "ptr" and p.type.ptr_rec() == "cp_csg3_tree_t":
                    b = Build(self.prog, m)
                    self.leaves = {}
                    m.store(x.obj, x.off + off(self.prog, "cp_csg3_tree_t", "root"),
                            self.sum(b, self.spec, "T"), None)
            return num(1)
        if name in ("cp_v_init0_", "cp_v_ensure_size_", "cp_v_set_size_") and False:
            return None
        if name == "?" and a and isinstance(a[0], Ptr) and str(a[0].obj).startswith("global:"):
            if e.call.type is None or e.call.type.kind != "ptr":
                return None
            old = [x for x in a[1:] if isinstance(x, Ptr)]
            p = self.zeroed(m, 1 << 16)
            if old and old[0].obj is not None:
                m.store(p.obj, 0, m.blob(old[0].obj, old[0].off, 1 << 16), None)
            return p
        if name in ("cp_v_ensure_size_", "cp_v_set_size_", "cp_v_copy_arr_"):
            return self.vector(m, e, name, c)
        if e.f is not None and ("sort" in name or "cp_err_t" in str([p.type.raw["s"] for p in e.f.params])
                                or e.f.key in m.opaque and name not in OPAQUE):
            t = e.call.type
            return num(1) if t is not None and t.kind in ("bool", "int") else None
        if e.f is None and name != "?":
            return None
        return self.event(m, e, 3, None)

    def operand(self, m, p):
        """table of what is combined so far"""
        n = self.const(m.mem, m.dflt, p.obj, p.off + self.lazy[0])
        if n not in (0, 1):
            raise Unsupported("%s objects that are not combined yet" % n)
        return self.table(self.get(m.mem, m.dflt, p.obj, p.off + self.lazy[1])) if n else frozenset()

    def table(self, p):
        """for which sets of bodies a point is inside: a set of (sorted) tuples"""
        if isinstance(p, Ptr) and p.obj in self.tables:
            return self.tables[p.obj]
        if isinstance(p, Ptr):
            return ("object", p.obj)
        raise Unsupported("combination of an unknown object")

    def single(self, m, p, t, kind):
        o = "combined%d" % len(self.tables)
        self.tables[o] = t
        b = Build(self.prog, m)
        b.rec(o)
        m.store(o, off(self.prog, "cp_csg_add_t", "type"), num(self.enum[kind]), None)
        m.store(p.obj, p.off + self.lazy[0], num(1), None)
        m.store(p.obj, p.off + self.lazy[1], Ptr(o, 0), None)

    def on_combine(self, m, e):
        r, b = [e.args[i] for i in self.combine[e.f.key]]
        op = [a.const() for a, p in zip(e.args, e.f.params) if opty(p.type)]
        names = {v: n for n, v in self.enum.items() if n.startswith("CP_OP_")}
        if len(op) != 1 or op[0] not in names:
            raise Unsupported("operation")
        self.single(m, r, (names[op[0]], self.operand(m, r), self.operand(m, b)), "CP_CSG2_VLINE2")
        m.store(b.obj, b.off, Blob(m_size, {}, [(0, m_size, "garbage", 0)]), None)
        return None

    def on_eager(self, m, e):
        r = e.args[self.eager[e.f.key]]
        t = self.operand(m, r)
        if t:
            self.single(m, r, t, "CP_CSG2_SWEEP")
        return None

    def inside(self, t, here):
        """whether a point in the bodies of some objects is inside"""
        if not t:
            return False
        if t[0] == "object":
            return t[1] in here
        x, y = self.inside(t[1], here), self.inside(t[2], here)
        return {"CP_OP_ADD": x or y, "CP_OP_CUT": x and y, "CP_OP_XOR": x != y,
                "CP_OP_SUB": x and not y}[t[0]]

    def model(self, spec, path, here):
        """whether a point that is in the given leaves is in the model"""
        r = False
        for i, s in enumerate(spec):
            o = "%s/%d" % (path, i)
            if isinstance(s, str):
                r |= o in here
            elif s[0] == "add":
                r |= self.model(s[1:][0] if len(s) == 2 and isinstance(s[1], tuple) else s[1:], o, here)
            elif s[0] == "sub":
                r |= self.model(s[1], o + "add", here) and not self.model(s[2], o + "sub", here)
            else:
                l = [self.model(x, "%s.%d" % (o, j), here) for j, x in enumerate(s[1:])]
                r |= all(l) if s[0] == "cut" else sum(l) % 2 == 1
        return r

    def combined(self, zi, found, tree, mem, dflt, k):
        """the polygon in the layer of the result is the model's combination of what is in the layer"""
        leaves = {}
        for o, (stack, live) in found.items():
            if o in self.leaves and any(self.crossing(self.leaves[o], k)):
                for q in self.objects(stack, zi, mem, dflt):
                    leaves[q.obj] = o
        names = sorted(leaves.values())
        root = self.get(mem, dflt, tree.obj, tree.off + off(self.prog, "cp_csg2_tree_t", "root"))
        out = self.objects(root, zi, mem, dflt)
        self.rep.count("layers combined")
        if any(q.obj not in self.polys for q in out) or len(out) > 1:
            self.bad("result", "layer %d of the result is not one combined polygon" % zi)
            return
        t = self.polys[out[0].obj] if out else frozenset()
        byname = {o: q for q, o in leaves.items()}
        some = False
        for c in range(1 << len(names)):
            here = {n for i, n in enumerate(names) if c >> i & 1}
            want = self.model(self.spec, "T", here)
            some |= want
            self.rep.count("combinations of bodies compared")
            if self.inside(t, {byname[n] for n in here}) != want:
                self.bad("combination", "in layer %d, a point in %s is %s" % (
                    zi, "+".join("%s(%s)" % (self.leaves[n], n) for n in sorted(here)) or "nothing",
                    "lost" if want else "in the result"))
                return
        v = self.vecget(mem, dflt, tree, "cp_csg2_tree_t", "flag")
        fl = self.const(mem, dflt, v[0], v[1] + zi * 8) if v and zi < v[2] else None
        if some and not fl:
            self.bad("flag", "layer %d is not marked as not empty" % zi)

    def objects(self, stack, zi, mem, dflt):
        """the objects in a layer of a stack"""
        S, L = "cp_csg2_stack", "cp_csg2_layer_t"
        v = self.vecget(mem, dflt, stack, S, "layer")
        i0 = self.const(mem, dflt, stack.obj, stack.off + off(self.prog, S, "idx0"))
        if v is None or i0 is None:
            raise Broken("layers of an object")
        if not i0 <= zi < i0 + v[2]:
            return []
        lo = v[1] + (zi - i0) * recsize(self.prog, L)
        root = self.get(mem, dflt, v[0], lo + off(self.prog, L, "root"))
        if not isinstance(root, Ptr) or root.obj is None:
            return []
        x = self.vecget(mem, dflt, root, "cp_csg_add_t", "add")
        n = self.const(mem, dflt, v[0], lo + off(self.prog, L, "zi"))
        if x is None:
            raise Broken("objects of a layer")
        if n != zi and x[2]:
            self.bad("index", "layer %d is marked as layer %s" % (zi, n))
        return [self.get(mem, dflt, x[0], x[1] + 8 * i) for i in range(x[2])]

    def vector(self, m, e, name, c):
        """lists get as large as asked for; new elements are zero"""
        a = e.args
        esz = c(2)
        n = c(3) + (c(5) if name == "cp_v_copy_arr_" else 0)
        v = self.vecof(m, a[1])
        if v is None:
            raise Unsupported("list of unknown size %s" % (a,))
        if v[0] is None:
            d = self.zeroed(m, 1 << 16)
            m.store(a[1].obj, a[1].off + self.vec["data"], d, None)
            v = (d.obj, d.off, v[2])
        if n > v[2]:
            m.store(v[0], v[1] + v[2] * esz, Blob((n - v[2]) * esz, {}, [(0, (n - v[2]) * esz, None, 0)]), None)
        if n > v[2] or name == "cp_v_set_size_":
            m.store(a[1].obj, a[1].off + self.vec["size"], num(n), None)
        if name == "cp_v_copy_arr_":
            m.store(v[0], v[1] + c(3) * esz, m.blob(a[4].obj, a[4].off, esz * c(5)), None)
            return Ptr(v[0], v[1] + c(3) * esz)
        return None

    # ------------------------------------------------------------- the run
    def pipeline(self, spec, lo, hi, opts):
        f = self.main[0]
        env = self.environment()
        self.spec = spec
        self.called = []
        self.what = "%s%s" % (spec, opts or "")
        m = self.machine(env)
        args, O = [], "cp_opt_t"
        for p in f.params:
            args.append(Ptr(p.name, 0) if p.type.kind == "ptr" else num(0))
        on = [p.name for p in f.params if p.type.kind == "ptr" and p.type.ptr_rec() == O]
        if len(on) != 1:
            raise Broken("options of the run")

        def setup(m):
            b = Build(self.prog, m)
            b.rec(on[0])
            b.set(on[0], O, "z_step", var(("init", "step", 0)))
            b.set(on[0], O, "dump", self.enum["DUMP_JS"])
            for k, v in opts.items():
                b.set(on[0], O, "z_" + k, self.z(v))
                b.set(on[0], O, "have_z_" + k, 1)
            for p in f.params:
                if p.type.kind == "ptr" and p.name != on[0]:
                    b.rec(p.name)
            self.called.clear()
            self.tables, self.polys, self.final = {}, {}, None

        try:
            paths = m.paths(f, args, setup)
        except Unsupported as e:
            if "division by zero" in m.unsup.values():
                self.bad("zero", "a crossing point is computed by a division by zero in %s" % sorted(
                    k for k, v in m.unsup.items() if v == "division by zero"))
                return
            raise Broken("cannot follow %s(): %s %s" % (f.name, e, "; ".join(m.unsup.values())))
        if len(paths) != 1:
            raise Broken("%s() goes several ways" % f.name)
        if any(v == "division by zero" for v in m.unsup.values()):
            self.bad("zero", "a crossing point is computed by a division by zero in %s" % sorted(
                k for k, v in m.unsup.items() if v == "division by zero"))
            return
        if (not self.called or self.flatten & set(m.unsup)) and m.unsup:
            raise Broken("cannot follow %s(): %s" % (f.name, m.unsup))
        self.rep.count("runs followed")
        self.layers(lo, hi, opts)

    def on_layer(self, m, args, f):
        ts = [a for a, p in zip(args, f.params)
              if p.type.kind == "ptr" and p.type.ptr_rec() == "cp_csg2_tree_t"]
        zi = [a for a, p in zip(args, f.params) if p.type.kind == "int"]
        if len(zi) != 1 or zi[0].const() is None:
            raise Unsupported("layer index")
        self.called.append((int(zi[0].const()), ts))

    def expected(self, lo, hi, opts):
        a = F(opts["min"]) if "min" in opts else lo + F(1, 2)
        b = F(opts["max"]) if "max" in opts else F(hi)
        if a == b:
            return [a]
        if a > b:
            return None
        return [a + i for i in range(max(1, math.ceil(b - a)))]

    def bad(self, key, text):
        f = self.main[0]
        self.rep.viol(key, "%s:%d" % (f.relfile, f.line), text + " (run with objects %s)" % self.what)

    def layers(self, lo, hi, opts):
        want = self.expected(lo, hi, opts)
        got = [x[0] for x in self.called]
        if got != list(range(len(want))):
            self.bad("layers", "layers %s are made instead of %d" % (got, len(want)))
            return
        T = "cp_csg2_tree_t"
        if self.final is None:
            raise Broken("no layers are written")
        end, mem, dflt = self.final
        for t in {t.obj: t for zi, ts in self.called for t in ts + [end]}.values():
            if True:
                thick = self.get(mem, dflt, t.obj, t.off + off(self.prog, T, "thick"))
                if thick != var(("init", "step", 0)):
                    self.bad("thick", "the thickness of the layers is %s instead of the step" % thick)
                zs = self.vecget(mem, dflt, t, T, "z")
                if zs is None or zs[2] != len(want):
                    self.bad("heights", "%s heights are noted for %d layers" %
                             (zs and zs[2], len(want)))
                    continue
                for i, w in enumerate(want):
                    v = self.get(mem, dflt, zs[0], zs[1] + 8 * i)
                    self.rep.count("layers compared")
                    if not isinstance(v, P) or not is_zero(sub(v, self.z(w))):
                        self.bad("height", "layer %d is at height %s instead of %s" % (
                            i, show(v) if isinstance(v, P) else v, show(self.z(w))))
                        return
        # what the last step got, and the result tree
        for zi, (r, a) in self.called:
            if r != end:
                raise Broken("layers that are not written")
            found = self.contents(zi, want[zi], a, mem, dflt)
            if found:
                self.combined(zi, found, end, mem, dflt, want[zi])

    def vecget(self, mem, dflt, t, rec, path):
        o = t.off + off(self.prog, rec, path)
        n = self.const(mem, dflt, t.obj, o + self.vec["size"])
        d = self.get(mem, dflt, t.obj, o + self.vec["data"])
        if n is None or n and (not isinstance(d, Ptr) or d.obj is None):
            return None
        return (d.obj, d.off, n) if n else (None, 0, 0)

    # ------------------------------------------------------------- a layer
    def contents(self, zi, k, tree, mem, dflt):
        """every stack of the tree in the layer"""
        root = self.get(mem, dflt, tree.obj, tree.off + off(self.prog, "cp_csg2_tree_t", "root"))
        found = {}
        self.walk(root, mem, dflt, found, k)
        for o, name in self.leaves.items():
            if o not in found:
                self.bad("missing", "an object is not in the tree of layers")
                return
        for o, (stack, live) in found.items():
            if o in self.leaves:
                self.leaf(zi, k, o, self.leaves[o], stack, mem, dflt, live)
        return found

    def walk(self, p, mem, dflt, found, k, live=True):
        A = "cp_csg_add_t"
        t = self.const(mem, dflt, p.obj, p.off + off(self.prog, A, "type"))
        e = self.enum
        if t == e["CP_CSG2_STACK"]:
            c = self.get(mem, dflt, p.obj, p.off + off(self.prog, "cp_csg2_stack", "csg3"))
            if isinstance(c, Ptr):
                found[c.obj] = (p, live)
            return
        for kind in ("add", "cut", "xor"):
            if t == e["CP_CSG_" + kind.upper()]:
                v = self.vecget(mem, dflt, p, "cp_csg_%s_t" % kind, kind)
                if v is None:
                    raise Broken("list of a tree")
                for i in range(v[2]):
                    self.walk(self.get(mem, dflt, v[0], v[1] + 8 * i), mem, dflt, found, k, live)
                return
        if t == e["CP_CSG_SUB"]:
            for side in ("add", "sub"):
                q = self.get(mem, dflt, p.obj, p.off + off(self.prog, "cp_csg_sub_t", side))
                n = set(found)
                self.walk(q, mem, dflt, found, k, live)
                if side == "add":
                    # of nothing, nothing needs to be subtracted
                    mine = [o for o in found if o not in n]
                    live = live and all(any(self.crossing(self.leaves[o], k)) for o in mine)
            return
        raise Broken("tree of layers")

    def crossing(self, name, k):
        """the points of each face, as (edge, coordinates)"""
        if name in BALLS:
            M, c, fn = BALLS[name]
            return [[1]] if (k - c) ** 2 < sum(x * x for x in M[2]) else []
        faces, hs = BODIES[name]
        r = []
        for f in faces:
            ps = []
            for i, j in zip(f, f[1:] + f[:1]):
                if hs[i] > hs[j]:
                    i, j = j, i
                if hs[i] <= k < hs[j]:
                    t = F(k - hs[i]) / F(hs[j] - hs[i])
                    ps.append(tuple(add(mul(num(1 - t), self.xy(name, i, d)),
                                        mul(num(t), self.xy(name, j, d))) for d in range(2)))
            r.append(ps)
        return r

    def leaf(self, zi, k, o, name, stack, mem, dflt, live):
        faces = self.crossing(name, k)
        want = [f for f in faces if f]
        self.rep.count("contributions of objects to layers")
        got = []
        for q in self.objects(stack, zi, mem, dflt):
            got += self.lines(q, mem, dflt)
        if not got and not live:
            return
        if name in BALLS:
            self.ellipse(name, zi, k, bool(want), got)
        else:
            self.compare(o, name, zi, k, want, got)

    def lines(self, p, mem, dflt):
        V = "cp_csg2_vline2"
        t = self.const(mem, dflt, p.obj, p.off + off(self.prog, V, "type"))
        if t != self.enum["CP_CSG2_VLINE2"]:
            raise Broken("an object of a layer that is not a list of lines")
        q = self.vecget(mem, dflt, p, V, "q")
        if q is None:
            raise Broken("lines of a layer")
        r = []
        for i in range(q[2]):
            # two points of two coordinates
            x = [self.get(mem, dflt, q[0], q[1] + 16 * i + 4 * d) for d in range(4)]
            r.append((tuple(x[:2]), tuple(x[2:])))
        return r

    def compare(self, o, name, zi, k, want, got):
        """each line belongs to one face, and all points of a face are used once"""
        left = []
        for f in want:
            left.append(list(f))
        eq = lambda p, q: all(isinstance(x, P) and is_zero(sub(x, y)) for x, y in zip(p, q))

        def take(f, p):
            for i, q in enumerate(f):
                if eq(p, q):
                    return f[:i] + f[i + 1:]
            return None
        lines = list(got)
        # faces in which both ends of the line are left
        for a, b in lines:
            self.rep.count("crossing points compared", 2)
            for i, f in enumerate(left):
                g = take(f, a)
                h = take(g, b) if g is not None else None
                if h is not None:
                    left[i] = h
                    break
            else:
                self.bad("line", "layer %d has a line from %s to %s that is not where a face of body "
                         "%s crosses the layer" % (zi, self.pt(a), self.pt(b), name))
                return
        for f in left:
            # what is left has no length
            while f:
                g = take(f[1:], f[0])
                if g is None:
                    self.bad("lost", "layer %d lacks a point where a face of body %s crosses the "
                             "layer: %s" % (zi, name, self.pt(f[0])))
                    return
                f = g

    def ellipse(self, name, zi, k, want, got):
        """a closed polygon in the ball's surface, with corners at equal angles of the ball"""
        M, c, fn = BALLS[name]
        if not want:
            if got:
                self.bad("ball-outside", "layer %d has lines of ball %s, which it does not cross" % (zi, name))
            return
        if len(got) != fn:
            self.bad("ball-corners", "layer %d has %d lines of ball %s instead of %d" % (
                zi, len(got), name, fn))
            return
        env, inv, t, h = self.environment(), inverse(M), self.centre(name), k - c
        step = var(("init", "step", 0))
        pts, ends = [], []
        for l in got:
            two = []
            for p in l:
                if not all(isinstance(x, P) for x in p):
                    raise Broken("corner of a ball: %s" % (p,))
                q = tuple(evaluate(div(sub(x, y), step), env) for x, y in zip(p, t))
                if None in q:
                    raise Broken("corner of a ball: %s" % self.pt(p))
                q = tuple(sum(float(a) * b for a, b in zip(r, q + (float(h),))) for r in inv)
                self.rep.count("crossing points compared")
                if abs(sum(x * x for x in q) - 1) > 1e-7:
                    self.bad("ball-surface", "layer %d has a corner that is not in the surface of ball "
                             "%s: %s" % (zi, name, self.pt(p)))
                    return
                for i, r in enumerate(pts):
                    if math.dist(q, r) < 1e-6:
                        break
                else:
                    i = len(pts)
                    pts.append(q)
                two.append(i)
            ends.append(two)
        nb = {}
        for a, b in ends:
            nb.setdefault(a, []).append(b)
            nb.setdefault(b, []).append(a)
        rad = math.sqrt(1 - float(h * h / sum(x * x for x in M[2])))
        d = 2 * rad * math.sin(math.pi / fn)
        if len(pts) != fn or any(len(x) != 2 for x in nb.values()) or \
                any(abs(math.dist(pts[a], pts[b]) - d) > 1e-6 for a, b in ends):
            self.bad("ball-polygon", "the lines of ball %s in layer %d are no closed polygon of %d equal "
                     "parts" % (name, zi, fn))
        self.rep.count("balls compared")

    def pt(self, p):
        return "(%s)" % ", ".join(show(x) if isinstance(x, P) else str(x) for x in p)
