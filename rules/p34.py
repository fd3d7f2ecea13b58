"""P34: primitive solids, shapes and extrusions have the documented vertices and closed faces."""
import math
import multiprocessing
from fractions import Fraction

from alg import (ANAME, Blob, Machine, P, Ptr, Unsupported, add, apply_facts, atom, div, fn, is_eps, is_zero,
                 mul, num, show, solve, sub, subst, thaw, var, zero_facts)
from facts import Broken
from matalg import off
from p22 import has_mat, mat, read
from p33 import conds_say

TOL = 1e-7
COUNTS = (3, 4, 5, 6, 9)
OPAQUE = ("cp_csg3_get_fn", "cp_v_insert_arr_", "cp_v_inflate_", "cp_v_reverse_", "cp_v_clear_",
          "cp_v_fini_", "cp_csg2_flatten", "cp_pool_clear", "cp_pool_calloc", "cp_panic",
          "cp_v_ensure_size_", "cp_v_set_size_", "cp_v_copy_arr_")


def run(prog, rep):
    rep.rule("for every path of a solid's or shape's construction that produces an object, and for "
             "each of a set of vertex counts: the vertices are the current matrix times the "
             "documented ones (as polynomials in matrix and parameters), the faces refer to these "
             "vertices, use each edge once in each direction, and are seen clockwise from outside "
             "whatever the sign of the determinant")
    Solids(prog, rep).run()
    rep.floor("constructions", 7)
    rep.floor("paths that make an object", 60)
    rep.floor("vertices compared", 500)
    rep.floor("edges matched", 1000)
    rep.floor("orientations compared", 40)


CURRENT = None


class Log:
    def __init__(self):
        self.log = []

    def __getattr__(self, name):
        return lambda *a: self.log.append((name, a))


def part(p):
    """one part of the analysis, in a process of its own"""
    s = CURRENT
    s.rep = Log()
    err = None
    try:
        getattr(s, p[0])(*p[1:])
    except (Broken, Unsupported) as e:
        err = str(e)
    return s.rep.log, err


class Solids:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.vec = {n: off(prog, "cp_v_t", n) for n in ("data", "size")}
        self.o3 = {n: off(prog, "cp_csg3_poly_t", n) for n in ("point", "face", "type")}
        self.o2 = {n: off(prog, "cp_csg2_poly", n) for n in ("point", "path", "type")}
        self.sz = {r: recsize(prog, r) for r in (
            "cp_vec3_loc_t", "cp_vec2_loc_t", "cp_vec3_loc_ref_t", "cp_csg2_path_t",
            "cp_csg2_poly")}
        self.sz["face"] = recsize(prog, "cp_csg3_face")
        self.pidx = off(prog, "cp_csg2_path_t", "point_idx")
        self.fpt = off(prog, "cp_csg3_face", "point")
        self.ref = off(prog, "cp_vec3_loc_ref_t", "ref")
        self.co3 = off(prog, "cp_vec3_loc_t", "coord")
        self.co2 = off(prog, "cp_vec2_loc_t", "coord")

    # ------------------------------------------------------------- driver
    def handler(self, kind):
        r = []
        for f in self.prog.functions.values():
            rs = [p.type.ptr_rec() if p.type.kind == "ptr" else None for p in f.params]
            if "cp_scad_%s_t" % kind in rs and any(x and has_mat(self.prog, x) for x in rs) and \
                    "cp_v_obj_p_t" in rs:
                r.append(f)
        # the one that is not called by another one
        sub_ = {g.key for f in r for c in f.calls() for g in [self.prog.resolve(c)] if g is not None}
        r = [f for f in r if f.key not in sub_] or r
        if len(r) != 1:
            raise Broken("no unique construction of %s" % kind)
        return r[0]

    def run(self):
        parts = [("simple", "cube", (4,), False), ("simple", "square", (4,), True),
                 ("simple", "circle", COUNTS, True), ("simple", "sphere", (3, 4, 5, 6, 0), False)]
        parts += [("simple", "cylinder", (n,), False) for n in (3, 4, 5)]
        parts += [("linext", 1), ("linext", 3), ("rotext", 3), ("rotext", 4), ("count",)]
        parts += [("given", "polyhedron", "cp_scad_face_t", 3,
                   [[0, 1, 2], [0, 2, 3], [0, 3, 1], [3, 2, 1]], "faces"),
                  ("given", "polygon", "cp_scad_path_t", 2, [[2, 0, 3], [1, 0, 2, 3]], "paths")]
        global CURRENT
        CURRENT = self
        broken = None
        with multiprocessing.get_context("fork").Pool(8) as pool:
            for log, err in pool.map(part, sorted(parts, key=lambda p: p[0] == "simple"), 1):
                for name, args in log:
                    getattr(self.rep, name)(*args)
                broken = broken or err
        if broken:
            raise Broken(broken)

    def machine(self, n, flat=None):
        m = Machine(self.prog, opaque=OPAQUE + ("csg3_from_v_scad",), max_paths=3000,
                    max_steps=2000000)
        m.children = {g.key for g in self.prog.functions.values() if self.converts_list(g)}
        m.opaque |= m.children

        def hook(m, e):
            return self.event(m, e, n, flat)

        m.on_event = hook
        return m

    def converts_list(self, g):
        rs = [p.type.ptr_rec() if p.type.kind == "ptr" else None for p in g.params]
        return "cp_v_scad_p_t" in rs

    def args(self, f, kind):
        r = []
        for p in f.params:
            x = p.type.ptr_rec() if p.type.kind == "ptr" else None
            r.append(Ptr("s" if x == "cp_scad_%s_t" % kind else
                         "mo" if x and has_mat(self.prog, x) else
                         "r" if x == "cp_v_obj_p_t" else p.name))
        return r

    def restore(self, m, e):
        m.mem, m.dflt = dict(e.mem), {k: list(v) for k, v in e.dflt.items()}

    def get(self, mem, dflt, obj, o):
        v = mem.get((obj, o))
        if v is not None:
            return v
        for s, e, src, so in reversed(dflt.get(obj, ())):
            if s <= o < e:
                return num(0) if src is None else var(("init", src, so + o - s))
        return None

    def const(self, mem, dflt, obj, o):
        v = self.get(mem, dflt, obj, o)
        c = v.const() if isinstance(v, P) else None
        return int(c) if c is not None and c.denominator == 1 else None

    def vecof(self, m, v):
        """(data object, offset, size) of a list with known contents"""
        if not isinstance(v, Ptr) or v.obj is None:
            return None
        n = self.const(m.mem, m.dflt, v.obj, v.off + self.vec["size"])
        d = self.get(m.mem, m.dflt, v.obj, v.off + self.vec["data"])
        if n is None:
            return None
        if isinstance(d, P) and d.const() == 0 or isinstance(d, Ptr) and d.obj is None:
            return (None, 0, n)
        if not isinstance(d, Ptr):
            return None
        return (d.obj, d.off, n)

    def zeroed(self, m, size):
        o = m.fresh("mem")
        m.store(o, 0, Blob(size, {}, [(0, size, None, 0)]), None)
        return Ptr(o, 0)

    # ------------------------------------------------------------- library
    def event(self, m, e, n, flat):
        a = e.args
        name = e.callee

        def c(i):
            x = a[i].const() if i < len(a) and isinstance(a[i], P) else None
            return int(x) if x is not None else None

        if name == "?" and a and isinstance(a[0], Ptr) and str(a[0].obj).startswith("global:") and \
                len(a) >= 3 and e.call.type is not None and e.call.type.kind == "ptr":
            self.restore(m, e)
            k = [c(i) for i in range(1, len(a))]
            k = [x for x in k if x is not None]
            if len(k) < 2:
                raise Unsupported("allocation of unknown size")
            return self.zeroed(m, max(1, k[-1] * k[-2]))
        if name == "cp_pool_calloc":
            self.restore(m, e)
            k = [c(i) for i in range(1, len(a))]
            k = [x for x in k if x is not None]
            if len(k) < 2:
                raise Unsupported("allocation of unknown size")
            return self.zeroed(m, 1 << 16)
        if name == "cp_csg3_get_fn":
            self.restore(m, e)
            return num(n)
        if name == "cp_csg2_flatten":
            self.restore(m, e)
            return flat if flat is not None else Ptr(None, 0)
        if e.f is not None and e.f.key in m.children:
            # what the children push is not looked at
            self.restore(m, e)
            return num(1)
        if name in ("cp_pool_clear", "cp_v_fini_"):
            self.restore(m, e)
            return None
        if name == "cp_v_reverse_":
            self.restore(m, e)
            v = self.vecof(m, a[0])
            esz, lo, cnt = c(1), c(2), c(3)
            if v is None or v[0] is None or None in (esz, lo, cnt):
                raise Unsupported("reversal of unknown contents")
            cnt = min(cnt, v[2] - lo)
            bl = [m.blob(v[0], v[1] + (lo + i) * esz, esz) for i in range(cnt)]
            for i in range(cnt):
                m.store(v[0], v[1] + (lo + i) * esz, bl[cnt - 1 - i], None)
            return None
        if name in ("cp_v_insert_arr_", "cp_v_inflate_"):
            self.restore(m, e)
            v = self.vecof(m, a[1])
            esz, pos = c(2), c(3)
            cnt = c(5) if name == "cp_v_insert_arr_" else c(4)
            if v is None:
                if name == "cp_v_inflate_":
                    raise Unsupported("list of unknown size")
                return None                # an unknown list: seen as an event
            if None in (esz, pos, cnt) or pos != v[2]:
                raise Unsupported("insertion")
            if v[0] is None:
                d = self.zeroed(m, 1 << 16)
                m.store(a[1].obj, a[1].off + self.vec["data"], d, None)
                v = (d.obj, d.off, v[2])
            if name == "cp_v_insert_arr_":
                m.store(v[0], v[1] + pos * esz, m.blob(a[4].obj, a[4].off, esz * cnt), None)
            else:
                m.store(v[0], v[1] + pos * esz, Blob(esz * cnt, {}, [(0, esz * cnt, None, 0)]), None)
            m.store(a[1].obj, a[1].off + self.vec["size"], num(v[2] + cnt), None)
            return Ptr(v[0], v[1] + pos * esz)
        if name == "cp_v_clear_":
            self.restore(m, e)
            if self.vecof(m, a[1]) is None:
                raise Unsupported("list of unknown size")
            m.store(a[1].obj, a[1].off + self.vec["size"], num(0), None)
            return None
        if name == "cp_panic" or "sort" in name:
            # what is sorted is a temporary copy
            self.restore(m, e)
            return None
        if e.f is not None and e.f.decl.type.raw.get("variadic") or name == "cp_syn_msg":
            # ignored errors: the construction goes on
            self.restore(m, e)
            return num(1)
        if e.f is None and name != "?":
            return None
        raise Unsupported("call of %s()" % name)

    # ------------------------------------------------------------- results
    def objects(self, p):
        r = []
        for e in p.events:
            if e.callee == "cp_v_insert_arr_" and isinstance(e.args[1], Ptr) and \
                    e.args[1].obj == "r":
                x = self.get(e.mem, e.dflt, e.args[4].obj, e.args[4].off)
                if not isinstance(x, Ptr):
                    raise Unsupported("object")
                r.append(x)
        return r

    def list(self, p, ptr):
        n = self.const(p.mem, p.dflt, ptr.obj, ptr.off + self.vec["size"])
        d = self.get(p.mem, p.dflt, ptr.obj, ptr.off + self.vec["data"])
        if n is None:
            raise Unsupported("size of a list")
        if n == 0:
            return None, 0
        if not isinstance(d, Ptr):
            raise Unsupported("contents of a list")
        return d, n

    def points(self, p, ptr, esz, co, dim):
        d, n = self.list(p, ptr)
        r = []
        for i in range(n):
            r.append([read(self.prog, p.mem, p.dflt, d.obj, d.off + i * esz + co + 8 * k, None)
                      for k in range(dim)])
        return d, r

    def poly3(self, p, o):
        d, pts = self.points(p, Ptr(o.obj, o.off + self.o3["point"]), self.sz["cp_vec3_loc_t"],
                             self.co3, 3)
        fd, fnum = self.list(p, Ptr(o.obj, o.off + self.o3["face"]))
        faces = []
        for i in range(fnum):
            rd, rn = self.list(p, Ptr(fd.obj, fd.off + i * self.sz["face"] + self.fpt))
            f = []
            for j in range(rn):
                v = self.get(p.mem, p.dflt, rd.obj,
                             rd.off + j * self.sz["cp_vec3_loc_ref_t"] + self.ref)
                k = None
                if isinstance(v, Ptr) and d is not None and v.obj == d.obj:
                    k, rest = divmod(v.off - d.off, self.sz["cp_vec3_loc_t"])
                    if rest or not 0 <= k < len(pts):
                        k = None
                f.append(k)
            faces.append(f)
        return pts, faces

    def poly2(self, p, o):
        d, pts = self.points(p, Ptr(o.obj, o.off + self.o2["point"]), self.sz["cp_vec2_loc_t"],
                             self.co2, 2)
        pd, pn = self.list(p, Ptr(o.obj, o.off + self.o2["path"]))
        paths = []
        for i in range(pn):
            rd, rn = self.list(p, Ptr(pd.obj, pd.off + i * self.sz["cp_csg2_path_t"] + self.pidx))
            paths.append([self.const(p.mem, p.dflt, rd.obj, rd.off + 8 * j) for j in range(rn)])
        return pts, paths

    # ------------------------------------------------------------- checks
    def s(self, kind, path, i=0):
        return var(("init", "s", off(self.prog, "cp_scad_%s_t" % kind, path) + 8 * i))

    def outer(self):
        rec = None
        for r in self.prog.records:
            if has_mat(self.prog, r) and r.endswith("local_t"):
                rec = r
        if rec is None:
            raise Broken("no context with a matrix")
        return Ptr("(mo+%d)" % off(self.prog, rec, "mat"))

    def context(self):
        o = self.outer()
        m0 = mat(self.prog, {}, {}, o, "n")
        return m0, var(("init", o.obj, off(self.prog, "cp_mat3wi_t", "d")))

    def place(self, v):
        m0, _ = self.context()
        r = []
        for i in range(3):
            x = m0[i][3]
            for k in range(3):
                x = add(x, mul(m0[i][k], v[k]))
            r.append(x)
        return r

    def truth(self, p, v):
        """what a path decided about a flag"""
        for c, val in p.conds.items():
            if c[0] == "equal" and c[1] == v.key():
                return not val
        return None

    def simple(self, kind, counts, flat):
        rep = self.rep
        f = self.handler(kind)
        rep.count("constructions")
        made = 0
        for n in counts:
            m = self.machine(n)
            try:
                paths = m.paths(f, self.args(f, kind))
            except Unsupported as e:
                raise Broken("cannot follow %s(): %s" % (f.name, e))
            for p in paths:
                rep.count("paths")
                facts = zero_facts(p.conds)
                if contradiction(p.conds, facts):
                    continue
                objs = self.objects(p)
                if not objs:
                    if not any(e.callee == "cp_syn_msg" or e.f is not None and
                               e.f.decl.type.raw.get("variadic") for e in p.events):
                        rep.viol("nothing:" + kind, f.body.where(), "%s: a path makes no object and "
                                 "says nothing" % kind)
                    continue
                if not (isinstance(p.ret, P) and p.ret.const() == 1):
                    continue
                if len(objs) != 1:
                    rep.viol("objects:" + kind, f.body.where(), "%s makes %d objects" % (
                        kind, len(objs)))
                    continue
                made += 1
                rep.count("paths that make an object")
                if flat:
                    self.shape(kind, f, p, objs[0], n, facts)
                elif n == 0:
                    self.ball(f, p, objs[0], facts)
                else:
                    pts, faces = self.poly3(p, objs[0])
                    want = self.solid(kind, p, n)
                    self.solid_check(kind, "%s with $fn=%d" % (kind, n) if kind != "cube" else kind,
                                     f, p, pts, faces, want, facts)
        rep.sample("construction", "%s: %s, %d paths with an object" % (kind, f.key, made))
        if not made:
            rep.viol("none:" + kind, f.body.where(), "%s: no path makes an object" % kind)

    def solid(self, kind, p, n):
        s = self.s
        if kind == "cube":
            c = self.truth(p, self.flag(kind, "center"))
            if c is None:
                return None
            h = Fraction(1, 2) if c else 0
            return [[mul(s(kind, "size", i), num(b - h)) for i, b in enumerate(v)]
                    for v in ((x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1))]
        if kind == "cylinder":
            c = self.truth(p, self.flag(kind, "center"))
            if c is None:
                return None
            h = s(kind, "h")
            sh = Fraction(1, 2) if c else 0
            r = []
            for rad, b in ((s(kind, "r1"), 0), (s(kind, "r2"), 1)):
                for i in range(n):
                    a = num(Fraction(360 * i, n))
                    r.append([mul(rad, fn("cos", a)), mul(rad, fn("sin", a)), mul(h, num(b - sh))])
            return r
        k = (n + 1) // 2
        r = []
        rad = s(kind, "r")
        for i in range(k):
            w = num(Fraction(180 * (2 * i + 1), 2 * k))
            for j in range(n):
                a = num(Fraction(360 * j, n))
                q = mul(rad, fn("sin", w))
                r.append([mul(q, fn("cos", a)), mul(q, fn("sin", a)), mul(rad, fn("cos", w))])
        return r

    def flag(self, kind, name):
        return var(("init", "s", off(self.prog, "cp_scad_%s_t" % kind, name)))

    def ball(self, f, p, o, facts):
        """a sphere that is not a polyhedron: the unit sphere and its matrix"""
        w = f.body.where()
        om = off(self.prog, "cp_csg3_sphere_t", "mat")
        mp = self.get(p.mem, p.dflt, o.obj, o.off + om)
        if not isinstance(mp, Ptr) or mp.obj is None:
            self.rep.viol("ball", w, "sphere: the sphere has no matrix")
            return
        got = mat(self.prog, p.mem, p.dflt, mp, "n")
        m0, _ = self.context()
        r = self.s("sphere", "r")
        for i in range(3):
            for j in range(4):
                self.rep.count("vertices compared")
                want = m0[i][j] if j == 3 else mul(m0[i][j], r)
                if not near(got[i][j], want, facts):
                    self.rep.viol("ball", w, "sphere: row %d, column %d of the sphere's matrix is %s, "
                                  "not %s" % (i + 1, j + 1, show(got[i][j])[:60], show(want)[:60]))
                    return

    def shape(self, kind, f, p, o, n, facts):
        rep = self.rep
        w = f.body.where()
        pts, paths = self.poly2(p, o)
        z = num(0)
        if kind == "square":
            c = self.truth(p, self.flag(kind, "center"))
            if c is None:
                rep.viol("center:" + kind, w, "%s: center is not looked at" % kind)
                return
            h = Fraction(1, 2) if c else 0
            want = [[mul(self.s(kind, "size", i), num(b - h)) for i, b in enumerate(v)] + [z]
                    for v in ((0, 0), (1, 0), (1, 1), (0, 1))]
        else:
            want = []
            for i in range(n):
                a = num(Fraction(360 * i, n))
                want.append([mul(self.s(kind, "r"), fn("cos", a)), mul(self.s(kind, "r"), fn("sin", a)),
                             z])
        want = [self.place(v)[:2] for v in want]
        name = kind if kind == "square" else "%s with $fn=%d" % (kind, n)
        ix = self.match(kind, name, w, pts, want, facts)
        if ix is None:
            return
        if len(paths) != 1 or len(paths[0]) != len(want) or None in paths[0] or \
                any(not 0 <= i < len(pts) for i in paths[0]):
            rep.viol("path:" + kind, w, "%s: the outline does not run through all %d vertices" % (
                name, len(want)))
            return
        q = [ix[i] for i in paths[0]]
        k = len(q)
        for d in (1, -1):
            if all((q[(i + 1) % k] - q[i] - d) % k == 0 for i in range(k)):
                rep.count("edges matched", k)
                return
        rep.viol("path:" + kind, w, "%s: the outline connects the vertices in the order %s" % (name, q))

    def match(self, kind, name, w, pts, want, facts):
        """for each point, the index of the wanted one"""
        rep = self.rep
        used = {}
        r = []
        nw = [[norm(x, facts) for x in v] for v in want]
        for v in pts:
            rep.count("vertices compared")
            nv = [norm(x, facts) for x in v]
            hit = [i for i, x in enumerate(nw) if all(close(a, b) for a, b in zip(nv, x))]
            if not hit:
                rep.viol("vertex:" + kind, w, "%s: there is a vertex at [%s], which is not a documented "
                         "one" % (name, ", ".join(show(num_trig(x))[:60] if isinstance(x, P) else "?"
                                                  for x in v)))
                return None
            r.append(hit)
            for i in hit:
                used[i] = True
        for i, x in enumerate(want):
            if i not in used:
                rep.viol("vertex:" + kind, w, "%s: the vertex at [%s] is missing" % (
                    name, ", ".join(show(num_trig(y))[:60] for y in x)))
                return None
        # documented vertices that coincide count as one
        return [min(h) for h in r]

    def solid_check(self, kind, name, f, p, pts, faces, want, facts, inst=()):
        w = f.body.where()
        if want is None:
            self.rep.viol("center:" + kind, w, "%s: center is not looked at" % name)
            return
        want = [self.place(v) for v in want]
        ix = self.match(kind, name, w, pts, want, facts)
        if ix is None or not self.closed(kind, name, w, faces):
            return None
        self.orientation(kind, name, w, p, pts, faces, facts, inst)
        return ix

    def closed(self, kind, name, w, faces):
        rep = self.rep
        edges = {}
        for f in faces:
            if None in f or len(set(f)) != len(f) or len(f) < 3:
                rep.viol("face:" + kind, w, "%s: a face has the vertices %s" % (name, f))
                return False
            for a, b in zip(f, f[1:] + f[:1]):
                edges[a, b] = edges.get((a, b), 0) + 1
        for (a, b), n in sorted(edges.items()):
            rep.count("edges matched")
            if n != 1 or edges.get((b, a)) != 1:
                rep.viol("closed:" + kind, w, "%s: the surface is not closed: the edge from vertex %d "
                         "to %d occurs %d times, its reverse %d times" % (
                             name, a, b, n, edges.get((b, a), 0)))
                return False
        return True

    def orientation(self, kind, name, w, p, pts, faces, facts, inst):
        """six times the signed volume, for a diagonal matrix, divided by the determinant that the
        path has looked at, does not change its sign"""
        rep = self.rep
        m0, d0 = self.context()
        diag = []
        det = num(1)
        for i in range(3):
            det = mul(det, m0[i][i])
            for j in range(4):
                if i != j:
                    (mm, _), = m0[i][j].items()
                    diag.append((mm[0][0], P()))

        def local(x):
            x = apply_facts(x, facts) if facts else x
            for a, v in inst:
                x = subst(x, a, v)
            x = num_trig(x)
            for a, v in diag:
                x = subst(x, a, v)
            (mm, _), = d0.items()
            return num_trig(subst(x, mm[0][0], det))

        q = [[local(x) for x in v] for v in pts]
        vol = P()
        for f in faces:
            a = q[f[0]]
            for i in range(1, len(f) - 1):
                b, c = q[f[i]], q[f[i + 1]]
                cr = [sub(mul(b[(k + 1) % 3], c[(k + 2) % 3]), mul(b[(k + 2) % 3], c[(k + 1) % 3]))
                      for k in range(3)]
                for k in range(3):
                    vol = add(vol, mul(a[k], cr[k]))
        vol = tiny(vol)
        if not vol:
            rep.viol("volume:" + kind, w, "%s: the surface encloses nothing" % name)
            return
        rep.count("orientations compared")
        for c, val in p.conds.items():
            if c[0] not in ("less", "greater"):
                continue
            d = local(thaw(c[1]))
            if len(d) != 1 or not any(a in {x for mm in det for x, _ in mm} for mm in d
                                      for a, _ in mm):
                continue
            s = definite(div(vol, d))
            if s is None:
                continue
            neg = val if c[0] == "less" else not val
            if s * (-1 if neg else 1) > 0:
                rep.viol("orientation:" + kind, w, "%s: the faces are seen counterclockwise from "
                         "outside when the determinant is %s" % (
                             name, "negative" if (c[0] == "less") == val else "not negative"))
            return
        rep.viol("mirror:" + kind, w, "%s: the orientation of the faces does not depend on the sign of "
                 "the determinant" % name)

    # ------------------------------------------------------------- extrusions
    def flat_object(self, m, xs, ys, paths):
        """a flattened polygon with the given vertices"""
        o = "flat"
        m.store(o, 0, Blob(self.sz["cp_csg2_poly"], {}, [(0, self.sz["cp_csg2_poly"], None, 0)]),
                None)
        m.store(o, self.o2["point"] + self.vec["data"], Ptr("flatpt", 0), None)
        m.store(o, self.o2["point"] + self.vec["size"], num(len(xs)), None)
        for i, (x, y) in enumerate(zip(xs, ys)):
            m.store("flatpt", i * self.sz["cp_vec2_loc_t"] + self.co2, x, None)
            m.store("flatpt", i * self.sz["cp_vec2_loc_t"] + self.co2 + 8, y, None)
        m.store(o, self.o2["path"] + self.vec["data"], Ptr("flatpath", 0), None)
        m.store(o, self.o2["path"] + self.vec["size"], num(len(paths)), None)
        for i, q in enumerate(paths):
            b = i * self.sz["cp_csg2_path_t"] + self.pidx
            m.store("flatpath", b + self.vec["data"], Ptr("flatidx%d" % i, 0), None)
            m.store("flatpath", b + self.vec["size"], num(len(q)), None)
            for j, k in enumerate(q):
                m.store("flatidx%d" % i, 8 * j, num(k), None)
        return Ptr(o, 0)

    def extruded(self, kind, f, n, xs, ys, sign=None, slices=None):
        m = self.machine(n, Ptr("flat", 0))

        def setup(m):
            self.flat_object(m, xs, ys, [list(range(len(xs)))])
            if slices is not None:
                m.store("s", off(self.prog, "cp_scad_linext_t", "slices"), num(slices), None)
            for x in xs:
                if sign is not None and x.const() is None:
                    m.conds["zero", x.key()] = False
                    m.conds["less", x.key()] = sign < 0
                    m.conds["greater", x.key()] = sign > 0

        try:
            return m.paths(f, self.args(f, kind), setup)
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s" % (f.name, e))

    def made(self, kind, f, paths):
        """(path, objects, facts) of the paths that succeed with objects"""
        for p in paths:
            self.rep.count("paths")
            facts = zero_facts(p.conds)
            if contradiction(p.conds, facts) or not (isinstance(p.ret, P) and p.ret.const() == 1):
                continue
            objs = self.objects(p)
            if objs:
                self.rep.count("paths that make an object")
                yield p, objs, facts

    def linext(self, slices):
        rep = self.rep
        f = self.handler("linext")
        rep.count("constructions")
        s = lambda path, i=0: self.s("linext", path, i)
        xs = [var(("init", "flat.x", i)) for i in range(3)]
        ys = [var(("init", "flat.y", i)) for i in range(3)]
        w = f.body.where()
        seen = set()
        name = "linear_extrude with slices=%d" % slices
        for p, objs, facts in self.made("linext", f, self.extruded("linext", f, 0, xs, ys,
                                                                  slices=slices)):
            if len(objs) != 1:
                rep.viol("objects:linext", w, "%s makes %d objects of one outline" % (
                    name, len(objs)))
                continue
            c = self.truth(p, self.flag("linext", "center"))
            if c is None:
                rep.viol("center:linext", w, "linear_extrude: center is not looked at")
                return
            sc = []
            for i in range(2):
                v = s("scale", i)
                k = self.sign(p, v)
                sc.append(num(0) if k < 0 else v)
            want = []
            for k in range(slices + 1):
                z = Fraction(k, slices)
                a = mul(s("twist"), num(-z))
                for x, y in zip(xs, ys):
                    px = sub(mul(x, fn("cos", a)), mul(y, fn("sin", a)))
                    py = add(mul(x, fn("sin", a)), mul(y, fn("cos", a)))
                    l = [add(num(1 - z), mul(num(z), q)) for q in sc]
                    want.append([mul(l[0], px), mul(l[1], py),
                                 mul(s("height"), num(z - (Fraction(1, 2) if c else 0)))])
            seen.add((c, any(q == num(0) for q in sc)))
            tw = self.sign(p, s("twist"))
            inst = [(one(v), num(Fraction(k))) for v, k in zip(xs + ys, (0, 0, 1, 0, 1, 0))]
            inst += [(one(s("scale", i)), num(Fraction(1, 2))) for i in range(2)]
            inst += [(one(s("twist")), num(20 * tw if tw else 20))]
            inst += [(one(s("height")), num(3))]
            pts, faces = self.poly3(p, objs[0])
            self.solid_check("linext", name, f, p, pts, faces, want, facts, inst)
        if len(seen) < 2:
            rep.viol("none:linext", w, "linear_extrude: no path makes the documented object")

    def given(self, kind, rec, dim, outlines, field):
        """polyhedron and polygon: the given points, in the given order"""
        rep = self.rep
        f = self.handler(kind)
        w = f.body.where()
        rep.count("constructions")
        n = 4
        v = [[var(("init", "given", 8 * (dim * i + k))) for k in range(dim)] for i in range(n)]
        esz = self.sz["cp_vec3_loc_t" if dim == 3 else "cp_vec2_loc_t"]
        co = self.co3 if dim == 3 else self.co2
        scad = "cp_scad_%s_t" % kind
        po, fo = off(self.prog, scad, "points"), off(self.prog, scad, field)
        fsz, fp = recsize(self.prog, rec), off(self.prog, rec, "points")
        rrec = "cp_vec%d_loc_ref_t" % dim
        rsz, ro = recsize(self.prog, rrec), off(self.prog, rrec, "ref")
        m = self.machine(0)

        def setup(m):
            for o, d, k in ((po, "pts", n), (fo, "outl", len(outlines))):
                m.store("s", o + self.vec["data"], Ptr(d, 0), None)
                m.store("s", o + self.vec["size"], num(k), None)
            for i, x in enumerate(v):
                for k in range(dim):
                    m.store("pts", i * esz + co + 8 * k, x[k], None)
            for i, q in enumerate(outlines):
                m.store("outl", i * fsz + fp + self.vec["data"], Ptr("outl%d" % i, 0), None)
                m.store("outl", i * fsz + fp + self.vec["size"], num(len(q)), None)
                for j, k in enumerate(q):
                    m.store("outl%d" % i, j * rsz + ro, Ptr("pts", k * esz), None)
            for i in range(n):
                for j in range(n):
                    if i != j:
                        m.conds["zero", sub(v[i][0], v[j][0]).key()] = False

        try:
            paths = m.paths(f, self.args(f, kind), setup)
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s" % (f.name, e))
        made = 0
        for p, objs, facts in self.made(kind, f, paths):
            if len(objs) != 1:
                rep.viol("objects:" + kind, w, "%s makes %d objects" % (kind, len(objs)))
                continue
            made += 1
            pts, out = self.poly3(p, objs[0]) if dim == 3 else self.poly2(p, objs[0])
            want = [self.place(x if dim == 3 else x + [num(0)])[:dim] for x in v]
            ix = self.match(kind, kind, w, pts, want, facts)
            if ix is None:
                return
            if any(k is None or not 0 <= k < len(ix) for q in out for k in q):
                rep.viol("face:" + kind, w, "%s: an index is not the one of a point" % kind)
                return
            out = [[ix[k] for k in q] for q in out]
            rep.count("edges matched", sum(len(q) for q in out))
            same_ = len(out) == len(outlines) and all(turned(a, b) for a, b in zip(out, outlines))
            back = len(out) == len(outlines) and all(turned(a, b[::-1])
                                                     for a, b in zip(out, outlines))
            if dim == 2:
                if not same_ and not back:
                    rep.viol("outline:" + kind, w, "%s: the outlines are %s instead of %s" % (
                        kind, out, outlines))
                continue
            _, d0 = self.context()
            said = conds_say(p, d0)
            neg = True if said & {"<", "<="} else False if said & {">", ">="} else None
            if neg is None:
                rep.viol("mirror:" + kind, w, "%s: the orientation of the faces does not depend on the "
                         "sign of the determinant" % kind)
                continue
            rep.count("orientations compared")
            if not (back if neg else same_):
                rep.viol("outline:" + kind, w, "%s: the faces are %s instead of %s when the determinant "
                         "is %s" % (kind, out, [q[::-1] for q in outlines] if neg else outlines,
                                    "negative" if neg else "positive"))
        if not made:
            rep.viol("none:" + kind, w, "%s: no path makes an object" % kind)

    def sign(self, p, v):
        """-1 if the path decided that v is less than zero, 1 if greater, or 0"""
        for c, val in p.conds.items():
            if c[0] in ("less", "greater"):
                q = thaw(c[1])
                q = P({m: x for m, x in q.items() if m and not is_eps(P({m: x}))})
                if q == v or q == sub(P(), v):
                    k = -1 if c[0] == "less" else 1
                    if q != v:
                        k = -k
                    if val:
                        return k
        return 0

    def rotext(self, n):
        rep = self.rep
        f = self.handler("rotext")
        rep.count("constructions")
        w = f.body.where()
        angle = self.s("rotext", "angle")
        seen = set()
        for xc, sign in ((("x", "x", "x"), 1), ((0, "x", "x"), 1), ((0, "x", 0), 1),
                         (("x", "x", "x"), -1), (("x", 0, "x"), -1)):
            xs = [num(0) if x == 0 else var(("init", "flat.x", i)) for i, x in enumerate(xc)]
            ys = [var(("init", "flat.y", i)) for i in range(3)]
            # clockwise, like outlines are
            nx = [0 if x == 0 else sign * v for x, v in zip(xc, (1, 3, 2))]
            ny = [0, 1, 5]
            if sum(nx[i] * ny[(i + 1) % 3] - ny[i] * nx[(i + 1) % 3] for i in range(3)) > 0:
                ny = [-v for v in ny]
            name = "rotate_extrude with %d segments" % n
            for p, objs, facts in self.made("rotext", f, self.extruded("rotext", f, n, xs, ys,
                                                                      sign)):
                full = any(c[0] == "zero" and val and one(angle) in
                           {a for m in thaw(c[1]) for a, _ in m} for c, val in p.conds.items())
                d = sub(angle, num(360))
                big = any(val and (c[0], thaw(c[1])) in (("greater", d), ("less", sub(P(), d)))
                          for c, val in p.conds.items())
                within = any(not val and (c[0], thaw(c[1])) in (
                    ("greater", d), ("less", sub(P(), d))) or val and (c[0], thaw(c[1])) in (
                    ("less", d), ("greater", sub(P(), d))) for c, val in p.conds.items())
                if not full and not big and not within:
                    rep.viol("angle:rotext", w, "rotate_extrude: an angle larger than 360 is taken "
                             "as it is")
                    return
                full = full or big
                seen.add(full)
                segs = n if full else n + 1
                want = []
                for j in range(segs):
                    if full:
                        a = num(180 - Fraction(360 * j, n))
                    else:
                        a = mul(angle, num(Fraction(j, n)))
                    for x, y in zip(xs, ys):
                        want.append([mul(x, fn("cos", a)), mul(x, fn("sin", a)), y])
                inst = [(one(v), num(k)) for v, k in zip(xs, nx) if v.const() is None]
                inst += [(one(v), num(k)) for v, k in zip(ys, ny)]
                inst += [(one(angle), num(90))]
                steps = []
                for o in objs:
                    pts, faces = self.poly3(p, o)
                    st = self.arc(name, w, pts, faces, want, 3, segs, facts, xc)
                    if st is None:
                        return
                    steps += st
                    at = {k for s in st for k in s}
                    part = [v for i, v in enumerate(want) if i // 3 in at]
                    part = [self.place(v) for v in part]
                    if self.match("rotext", name, w, pts, part, facts) is None:
                        return
                    if not self.closed("rotext", name, w, faces):
                        return
                    self.orientation("rotext", name, w, p, pts, faces, facts, inst)
                need = [(k, (k + 1) % segs) for k in range(n)]
                if sorted(steps) != sorted(need):
                    rep.viol("steps:rotext", w, "%s: the parts of the ring make the steps %s" % (
                        name, sorted(steps)))
                    return
        if seen != {True, False}:
            rep.viol("none:rotext", w, "rotate_extrude: the full ring and the arc are not both made")

    def arc(self, name, w, pts, faces, want, k, segs, facts, xc):
        """the steps between neighbouring positions of the outline that these faces make"""
        placed = [[norm(x, facts) for x in self.place(v)] for v in want]
        at = []
        for v in pts:
            nv = [norm(x, facts) for x in v]
            hit = [i for i, x in enumerate(placed) if all(close(a, b) for a, b in zip(nv, x))]
            at.append((hit[0] // k, hit[0] % k) if hit and xc[hit[0] % k] != 0 else None)
        r = set()
        for f in faces:
            for a, b in zip(f, f[1:] + f[:1]):
                if a is None or b is None or at[a] is None or at[b] is None:
                    continue
                (j, i), (j2, i2) = at[a], at[b]
                if i == i2 and j != j2:
                    r.add((j, j2) if (j2 - j) % segs == 1 else (j2, j))
        if not r:
            self.rep.viol("vertex:rotext", w, "%s: a part of the ring does not connect documented "
                          "vertices" % name)
            return None
        return sorted(r)

    def count(self):
        """the number of vertices of round objects"""
        rep = self.rep
        rep.rule("the number of vertices is $fn; the largest allowed number (or a round object) if "
                 "$fn is 0 or larger than that, and the smallest number if it is less than that")
        fs = [f for f in self.prog.functions.values() if f.name == "cp_csg3_get_fn"]
        if len(fs) != 1:
            raise Broken("no cp_csg3_get_fn()")
        f = fs[0]
        m = Machine(self.prog)
        cases = [(0, 3, 100, 100), (1, 3, 100, 3), (2, 3, 100, 3), (3, 3, 100, 3), (7, 3, 100, 7),
                 (99, 3, 100, 99), (100, 3, 100, 100), (101, 3, 100, 100), (1, 1, 100, 1),
                 (5000, 3, 200, 200)]
        for have, lo, hi, want in cases:
            for circ in (0, 1):
                args = []
                ints = iter((lo, hi, circ))
                for p in f.params:
                    if p.type.kind == "ptr":
                        args.append(Ptr("detail", 0))
                    elif p.type.kind == "float":
                        args.append(num(0))
                    else:
                        args.append(num(next(ints)))
                o = off(self.prog, "cp_detail_t", "_fn")
                for p in m.paths(f, args, lambda m: m.store("detail", o, num(have), None)):
                    rep.count("vertex counts")
                    x = 0 if circ and (have == 0 or have > hi) else want
                    if not isinstance(p.ret, P) or p.ret.const() != x:
                        rep.viol("count", f.body.where(), "$fn=%d (allowed: %d to %d, %s) makes %s "
                                 "vertices instead of %d" % (
                                     have, lo, hi, "may be round" if circ else "must be a polygon",
                                     show(p.ret), x))
                        return


def turned(a, b):
    """the same cyclic sequence"""
    return len(a) == len(b) and any(a == b[i:] + b[:i] for i in range(len(b)))


def one(v):
    (m, _), = v.items()
    return m[0][0]


def norm(x, facts):
    if not isinstance(x, P):
        return None
    try:
        return num_trig(apply_facts(x, facts) if facts else x)
    except Unsupported:
        return num_trig(x)


def close(a, b):
    if a is None or b is None:
        return False
    if a == b:
        return True
    if len(a) > len(b) + 40 or len(b) > len(a) + 40:
        return False
    d = tiny(sub(a, b))
    if not d:
        return True
    if all(e > 0 and ANAME[x][0] != "poly" for m in d for x, e in m):
        return False
    try:
        return is_zero(d)
    except Unsupported:
        return False


def near(a, b, facts):
    return close(norm(a, facts), norm(b, facts))


def tiny(p):
    return P({m: c for m, c in p.items() if abs(c) > TOL})


def num_trig(p):
    """sine and cosine of constants as numbers"""
    for m in p:
        for a, e in m:
            k = ANAME[a]
            if k[0] in ("sin", "cos", "sinr", "cosr"):
                x = thaw(k[1]).const()
                if x is not None:
                    f = math.sin if k[0][0] == "s" else math.cos
                    x = float(x) if k[0].endswith("r") else math.radians(float(x))
                    return num_trig(subst(p, a, num(Fraction(f(x)).limit_denominator(10 ** 14))))
    return p


def definite(p):
    """sign of a polynomial in non-negative atoms"""
    p = tiny(p)
    s = {1 if c > 0 else -1 for c in p.values()}
    return s.pop() if len(s) == 1 else None


def contradiction(conds, facts):
    """a path that no values of the parameters take"""
    bound = {}
    for c, v in conds.items():
        try:
            if c[0] in ("zero", "equal") and not v and is_zero(apply_facts(thaw(c[1]), facts)):
                return True
            if c[0] not in ("less", "greater"):
                continue
            q = apply_facts(thaw(c[1]), facts)
            for a in {a for m in q for a, _ in m}:
                if is_eps(P({((a, 1),): 1})):
                    q = subst(q, a, num(Fraction(1, 10 ** 6)))
        except Unsupported:
            continue
        k = q.const()
        if k is not None:
            # equality is neither less nor greater
            if (k < 0 if c[0] == "less" else k > 0) != v:
                return True
            continue
        ms = [m for m in q if m]
        if len(ms) != 1 or len(q) > 2:
            continue
        b = -q.get((), Fraction(0)) / q[ms[0]]
        up = (c[0] == "less") == v          # q < 0 or q <= 0
        if q[ms[0]] < 0:
            up = not up
        lo, hi = bound.get(ms[0], (None, None))
        if up:
            hi = b if hi is None else min(hi, b)
        else:
            lo = b if lo is None else max(lo, b)
        if lo is not None and hi is not None and lo > hi:
            return True
        bound[ms[0]] = lo, hi
    return False


def recsize(prog, rec):
    for tu in prog.tus:
        for t in tu.types:
            if t.kind == "rec" and t.rec == rec and t.raw.get("sz"):
                return t.raw["sz"]
    raise Broken("unknown size of %s" % rec)
