"""P35: the layers written as STL and JavaScript are closed prisms at the right place."""
import re
from fractions import Fraction

from alg import ANAME, Blob, Machine, P, Ptr, Unsupported, add, apply_facts, is_zero, mul, num, show, sub, \
    subst, thaw, var, zero_facts
from facts import Broken
from matalg import off
from p34 import contradiction, near, norm, recsize, turned

# points of a polygon, clockwise seen from above, with a triangulation: (three points, outline flags)
QUAD = ([(0, 0), (1, 4), (5, 5), (4, -1)], [((0, 1, 2), 3), ((2, 3, 0), 3)])
TRI = ([(0, 0), (2, 3), (3, 1)], [((1, 2, 0), 7)])
FAN = ([(0, 0), (-1, 4), (3, 6), (7, 3), (6, -1)], [((0, 1, 2), 3), ((3, 0, 2), 4),
                                                    ((3, 4, 0), 3)])
# a square ring: outline inside and outside
RING = ([(0, 0), (0, 6), (6, 6), (6, 0), (2, 2), (2, 4), (4, 4), (4, 2)],
        [((0, 1, 4), 1), ((1, 5, 4), 2), ((1, 2, 5), 1), ((2, 6, 5), 2),
         ((2, 3, 6), 1), ((3, 7, 6), 2), ((3, 0, 7), 1), ((0, 4, 7), 2)])
# layers: None: no contents at all; a list: polygons
LAYERS = ([QUAD, TRI], None, [], [FAN], [RING])
# the stack of layers starts above the lowest position
FIRST = 2


def run(prog, rep):
    rep.rule("the STL and JavaScript writers are followed for a tree of layers with triangulated "
             "polygons at symbolic coordinates and heights: the triangles found in the text (or bytes) "
             "must be, per polygon, its triangulation at the top and at the bottom and two "
             "triangles per outline edge; each edge is used once in each direction, seen from outside "
             "counterclockwise, with the normal that points outside; nothing of an empty layer is "
             "written, and the counts and indices in the output are those of its triangles")
    w = Writers(prog, rep)
    w.stl(False)
    w.stl(True)
    w.js()
    w.js_full()
    rep.floor("writers followed", 3)
    rep.floor("triangles", 300)
    rep.floor("edges matched", 600)
    rep.floor("paths", 6)


class Writers:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        e = {n: v for l in prog.enums.values() for n, v in l}
        self.enum = e
        self.env = {("init", "thick", 0): 3.0, ("init", "gap", 0): 1.0}
        for i in range(-FIRST, len(LAYERS)):
            self.env["init", "z", i] = 10.0 * i
        for i, l in enumerate(LAYERS):
            for j, (pts, _) in enumerate(l or ()):
                for k, c in enumerate(pts):
                    for d in range(2):
                        self.env["init", "p%d_%d_%d.%s" % (i, j, k, "xy"[d]), 0] = float(c[d])
        self.reset = None
        self.vd, self.vs = off(prog, "cp_v_t", "data"), off(prog, "cp_v_t", "size")

    def fn(self, name):
        fs = [f for f in self.prog.functions.values() if f.name == name]
        if len(fs) != 1:
            raise Broken("no %s()" % name)
        return fs[0]

    # ------------------------------------------------------------- input
    def tree(self, m, layers=LAYERS):
        o = lambda r, p: off(self.prog, r, p)
        st = lambda obj, at, v: m.store(obj, at, v, None)

        def zero(obj, size=4096):
            m.store(obj, 0, Blob(size, {}, [(0, size, None, 0)]), None)

        def vec(obj, at, data, n):
            st(obj, at + self.vd, Ptr(data, 0) if n else Ptr(None, 0))
            st(obj, at + self.vs, num(n))

        for obj in ("tree", "opt", "root", "stack"):
            zero(obj)
        T = "cp_csg2_tree_t"
        st("tree", o(T, "root"), Ptr("root", 0))
        st("tree", o(T, "opt"), Ptr("opt", 0))
        st("tree", o(T, "thick"), var(("init", "thick", 0)))
        st("opt", o("cp_csg_opt_t", "layer_gap"), var(("init", "gap", 0)))
        vec("tree", o(T, "z"), "zs", FIRST + len(layers))
        vec("tree", o(T, "flag"), "flags", FIRST + len(layers))
        for i in range(FIRST):
            st("zs", 8 * i, var(("init", "z", i - FIRST)))
            st("flags", i * self.flagsize(), num(0))
        for i, l in enumerate(layers):
            st("zs", 8 * (FIRST + i), var(("init", "z", i)))
            st("flags", (FIRST + i) * self.flagsize(), num(self.enum.get("CP_CSG2_FLAG_NON_EMPTY", 1) if l else 0))
        A = "cp_csg_add_t"
        st("root", o(A, "type"), num(self.enum["CP_CSG_ADD"]))
        vec("root", o(A, "add"), "rootv", 1)
        st("rootv", 0, Ptr("stack", 0))
        S, L = "cp_csg2_stack", "cp_csg2_layer_t"
        st("stack", o(S, "type"), num(self.enum["CP_CSG2_STACK"]))
        vec("stack", o(S, "layer"), "layers", len(layers))
        st("stack", o(S, "idx0"), num(FIRST))
        lsz = recsize(self.prog, L)
        zero("layers")
        Q = "cp_csg2_poly"
        psz, tsz = recsize(self.prog, "cp_vec2_loc_t"), recsize(self.prog, "cp_csg2_tri_t")
        csz, co = recsize(self.prog, "cp_csg2_path_t"), o("cp_vec2_loc_t", "coord")
        for i, l in enumerate(layers):
            st("layers", i * lsz + o(L, "zi"), num(FIRST + i))
            if l is None:
                continue
            a = "add%d" % i
            zero(a)
            st("layers", i * lsz + o(L, "root"), Ptr(a, 0))
            st(a, o(A, "type"), num(self.enum["CP_CSG_ADD"]))
            vec(a, o(A, "add"), a + "v", len(l))
            for j, (pts, tris) in enumerate(l):
                q = "poly%d_%d" % (i, j)
                zero(q)
                st(a + "v", 8 * j, Ptr(q, 0))
                st(q, o(Q, "type"), num(self.enum["CP_CSG2_POLY"]))
                vec(q, o(Q, "point"), q + "p", len(pts))
                for k in range(len(pts)):
                    for d in range(2):
                        st(q + "p", k * psz + co + 8 * d, self.coord(i, j, k, d))
                vec(q, o(Q, "tri"), q + "t", len(tris))
                for k, (t, fl) in enumerate(tris):
                    for d in range(3):
                        st(q + "t", k * tsz + o("cp_csg2_tri_t", "size3") + 8 * d, num(t[d]))
                    st(q + "t", k * tsz + o("cp_csg2_tri_t", "flags"), num(fl))
                paths = outlines(tris)
                vec(q, o(Q, "path"), q + "c", len(paths))
                for k, c in enumerate(paths):
                    vec(q + "c", k * csz + o("cp_csg2_path_t", "point_idx"), q + "c%d" % k, len(c))
                    for d, x in enumerate(c):
                        st(q + "c%d" % k, 8 * d, num(x))

    def flagsize(self):
        tu, r = self.prog.records["cp_csg2_tree_t"]
        for f in r["f"]:
            if f["n"] == "flag":
                rr = tu.records.get(tu.types[f["t"]].rec)
                for g in (rr or {}).get("f", ()):
                    t = tu.types[g["t"]]
                    if t.kind == "ptr" and t.to_t is not None and t.to_t.raw.get("sz"):
                        return t.to_t.raw["sz"]
        return 4

    def coord(self, i, j, k, d):
        return var(("init", "p%d_%d_%d.%s" % (i, j, k, "xy"[d]), 0))

    # ------------------------------------------------------------- running
    def follow(self, f, extra, layers=LAYERS, setup=None, first=None, opaque=()):
        m = Machine(self.prog, opaque=OPAQUE + tuple(opaque), max_paths=200, max_steps=3000000)
        m.on_event = self.event
        m.recursion = 6
        m.max_loop = 1000
        m.assumed = self.generic
        args = list(first or ())
        for p in f.params[len(args):]:
            r = p.type.ptr_rec() if p.type.kind == "ptr" else None
            args.append(Ptr("tree", 0) if r == "cp_csg2_tree_t" else Ptr("out", 0)
                        if r == "cp_stream_t" else extra.get(p.type.kind, Ptr(p.name, 0)))

        def init(m):
            self.tree(m, layers)
            if setup:
                setup(m)

        try:
            return m.paths(f, args, init)
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s" % (f.name, e))

    def generic(self, key):
        """conditions about coordinates are those of polygons in general position"""
        if key[0] not in ("zero", "equal", "less", "greater"):
            return None
        x = thaw(key[1])
        if not any("p" == str(k[1])[0] for k in inits(x)):
            return None
        v = value_of(x, self.env)
        if v is None:
            return None
        return {"zero": abs(v) < 1e-9, "equal": v == 0, "less": v < 0, "greater": v > 0}[key[0]]

    def event(self, m, e):
        name, a = e.callee, e.args
        if e.f is None and "isfinite" in str(name):
            m.mem, m.dflt = dict(e.mem), {k: list(v) for k, v in e.dflt.items()}
            return num(1)
        if e.f is None and ("isnan" in str(name) or "isinf" in str(name)):
            m.mem, m.dflt = dict(e.mem), {k: list(v) for k, v in e.dflt.items()}
            return num(0)
        if e.f is None and name in ("lrint", "llrint", "lround", "llround", "rint", "round") and \
                isinstance(a[0], P):
            m.mem, m.dflt = dict(e.mem), {k: list(v) for k, v in e.dflt.items()}
            return var(("round", a[0].key()))
        if name == "?" and isinstance(a[0], Ptr) and str(a[0].obj).startswith("global:"):
            # allocation
            m.mem, m.dflt = dict(e.mem), {k: list(v) for k, v in e.dflt.items()}
            if e.call.type is None or e.call.type.kind != "ptr":
                return None
            o = m.fresh("mem")
            m.store(o, 0, Blob(1 << 24, {}, [(0, 1 << 24, None, 0)]), None)
            return Ptr(o, 0)
        # the rest neither reads back nor changes what is written
        m.mem, m.dflt = dict(e.mem), {k: list(v) for k, v in e.dflt.items()}
        return None

    def texts(self, p):
        """what is written, in order: text, values, and pieces of bytes"""
        r = []
        for e in p.events:
            f = e.f
            if f is not None and f.decl.type.raw.get("variadic") and len(e.args) > 1 and \
                    isinstance(e.args[1], Ptr) and str(e.args[1].obj).startswith("str:"):
                r += expand(e.args[1].obj[4:], e.args[2:])
            elif e.callee == "?" and len(e.args) == 3 and isinstance(e.args[1], Ptr) and \
                    isinstance(e.args[2], P) and e.args[2].const() is not None:
                r.append(self.bytes(e, e.args[1], int(e.args[2].const())))
        return r

    def bytes(self, e, ptr, n):
        l = []
        for i in range(n):
            v = e.mem.get((ptr.obj, ptr.off + i))
            if v is None:
                for s, en, src, so in reversed(e.dflt.get(ptr.obj, ())):
                    if s <= ptr.off + i < en and src is None:
                        v = num(0)
                        break
            l.append(v)
        return l

    # ------------------------------------------------------------- STL
    def stl(self, binary):
        name = "STL (%s)" % ("binary" if binary else "text")
        f = self.fn("cp_csg2_tree_put_stl")
        self.rep.count("writers followed")
        for p in self.follow(f, {"bool": num(binary), "int": num(binary)}):
            facts = zero_facts(p.conds)
            if contradiction(p.conds, facts):
                continue
            self.rep.count("paths")
            w = f.body.where()
            t = self.read_bin(name, w, p) if binary else self.read_text(name, w, p)
            if t is None:
                return
            if not self.layers(name, w, p, facts, t, Fraction(1, 100)):
                return
        self.rep.sample("writer", "%s: %s" % (name, f.key))

    def read_text(self, name, w, p):
        toks = []
        for x in self.texts(p):
            if isinstance(x, str):
                toks += x.split()
            else:
                toks.append(x)
        bad = lambda s: self.rep.viol("grammar:stl", w, "%s: %s" % (name, s))
        i = 0
        nums = []

        def word(s):
            nonlocal i
            for q in s.split():
                if i >= len(toks) or toks[i] != q:
                    return False
                i += 1
            return True

        def three():
            nonlocal i
            r = toks[i:i + 3]
            i += 3
            return r if len(r) == 3 and all(isinstance(x, P) for x in r) else None

        if not word("solid"):
            return bad("it does not start with 'solid'")
        n0 = toks[i] if i < len(toks) else None
        if isinstance(n0, str) and n0 not in ("facet", "endsolid"):
            i += 1
        tris = []
        while i < len(toks) and toks[i] == "facet":
            if not word("facet normal"):
                return bad("a facet without a normal")
            nn = three()
            if not word("outer loop"):
                return bad("a facet without 'outer loop'")
            vs = []
            for _ in range(3):
                if not word("vertex"):
                    return bad("a facet with less than three vertices")
                vs.append(three())
            if not word("endloop endfacet") or nn is None or None in vs:
                return bad("a facet that does not end after three vertices of three numbers")
            tris.append((nn, vs))
        if not word("endsolid"):
            return bad("it does not end with 'endsolid', but with %s" % (
                [str(x) for x in toks[i:i + 3]],))
        if isinstance(n0, str) and n0 not in ("facet", "endsolid"):
            if not word(n0):
                return bad("'endsolid' does not name the solid")
        if i != len(toks):
            return bad("there is text after 'endsolid'")
        return tris

    def read_bin(self, name, w, p):
        bad = lambda s: self.rep.viol("grammar:stlb", w, "%s: %s" % (name, s))
        data = []
        for x in self.texts(p):
            if not isinstance(x, list):
                return bad("text in a binary file: %r" % (x,))
            data += x
        words, at = [], 0

        def take(k):
            nonlocal at
            v = value(data[at:at + k])
            at += k
            return v

        if len(data) < 84:
            return bad("less than the 84 bytes of the header")
        if any(not isinstance(x, P) or x.const() is None for x in data[:80]):
            return bad("the header is not constant")
        if bytes(int(x.const()) % 256 for x in data[:5]) == b"solid":
            return bad("the header starts like that of a text file")
        at = 80
        cnt = take(4)
        cnt = cnt.const() if isinstance(cnt, P) else None
        if (len(data) - 84) % 50:
            return bad("the data is no sequence of 50 byte records: %d bytes" % (len(data) - 84))
        n = (len(data) - 84) // 50
        if cnt != n:
            return bad("the count in the header is %s, but there are %d triangles" % (cnt, n))
        tris = []
        for i in range(n):
            v = [take(4) for _ in range(12)]
            a = take(2)
            if any(not isinstance(x, P) for x in v):
                return bad("the numbers of a triangle are not stored in 4 bytes, lowest first")
            if not isinstance(a, P) or a.const() != 0:
                return bad("the attribute of a triangle is not 0")
            # a constant was split like a whole number
            v = [num(x.const() - 2 ** 32) if x.const() is not None and x.const() >= 2 ** 31 else x
                 for x in v]
            tris.append((v[:3], [v[3:6], v[6:9], v[9:12]]))
        return tris

    # ------------------------------------------------------------- JavaScript
    def js(self):
        f = self.fn("cp_csg2_tree_put_js")
        w = f.body.where()
        self.rep.count("writers followed")
        for p in self.follow(f, {}):
            facts = zero_facts(p.conds)
            if contradiction(p.conds, facts):
                continue
            self.rep.count("paths")
            text, vals = "", []
            for x in self.texts(p):
                if isinstance(x, str):
                    text += x
                else:
                    text += "\x01%d\x02" % len(vals)
                    vals.append(x)
            tris = []
            scenes = re.findall(r"scene\.push\(\{(.*?)\}\);", text, re.S)
            rest = re.sub(r"scene\.push\(\{(.*?)\}\);", "", text, flags=re.S)
            if rest.strip():
                self.rep.viol("grammar:js", w, "JavaScript: text outside of scene.push({...}): %r" %
                              rest.strip()[:60])
                return
            for s in scenes:
                t = self.scene(w, s, vals)
                if t is None:
                    return
                tris += t
            if not self.layers("JavaScript", w, p, facts, tris, 0):
                return
        self.rep.sample("writer", "JavaScript: %s" % f.key)

    def scene(self, w, s, vals):
        bad = lambda t: self.rep.viol("grammar:js", w, "JavaScript: " + t)
        g = {}
        for m in re.finditer(r"'(\w+)'\s*:\s*(\[[^\]]*\]|\{[^}]*\}|[^,\s]+)", s):
            if m.group(1) in g:
                return bad("'%s' is written twice in a scene" % m.group(1))
            g[m.group(1)] = m.group(2)

        def one(t):
            t = t.strip()
            m = re.fullmatch(r"\x01(\d+)\x02", t)
            if m:
                return vals[int(m.group(1))]
            m = re.fullmatch(r"-?\d+(\.\d+)?", t)
            return num(Fraction(t)) if m else None

        def arr(k):
            t = g.get(k, "")
            if not t.startswith("["):
                return None
            t = t[1:-1].strip()
            r = [one(x) for x in t.split(",")] if t else []
            return None if any(x is None for x in r) else r

        v, n, c, ix = arr("vertex"), arr("normal"), arr("color"), arr("index")
        if None in (v, n, c, ix):
            return bad("a scene without vertex, normal, color or index list of numbers")
        sv, sc, si = (one(g.get(k, "")) for k in ("scaleV", "scaleC", "shiftI"))
        if None in (sv, sc, si):
            return bad("a scene without scales")
        if len(v) % 3 or len(n) != len(v) or 3 * len(c) != 4 * len(v) or len(ix) % 3:
            return bad("the lists have %d vertex, %d normal, %d color numbers and %d indices" % (
                len(v), len(n), len(c), len(ix)))
        if si.const() is None or any(x.const() is None for x in ix):
            return bad("indices are not constant")
        last, idx = 0, []
        for x in ix:
            last += int(x.const() - si.const())
            if not 0 <= last < len(v) // 3:
                return bad("an index is out of range: %d of %d vertices" % (last, len(v) // 3))
            idx.append(last)
        if sorted(set(idx)) != list(range(len(v) // 3)):
            return bad("there are vertices without triangle")
        for x in c:
            if x.const() is None or sc.const() is None or not 0 <= x.const() <= sc.const():
                return bad("a color value is out of range")
        unit = mul(sv, num(Fraction(1, 1000)))
        tris = []
        for i in range(0, len(idx), 3):
            t = idx[i:i + 3]
            pos = [[self.unscale(v[3 * k + d], unit) for d in range(3)] for k in t]
            nor = [[self.unscale(n[3 * k + d], sv) for d in range(3)] for k in t]
            if any(x is None for q in pos + nor for x in q):
                return bad("a coordinate is not the rounded number times the scale")
            if nor[0] != nor[1] or nor[0] != nor[2]:
                return bad("the normals of a triangle's corners differ")
            tris.append((nor[0], pos))
        return tris

    def unscale(self, x, unit):
        """x is round(y * unit), or a multiple of a rounded number: y"""
        k = Fraction(1)
        if len(x) == 1 and x.const() is None:
            (m, k), = x.items()
            if len(m) != 1 or m[0][1] != 1 or ANAME[m[0][0]][0] != "round":
                return None
            x = thaw(ANAME[m[0][0]][1])
        elif x.const() is None:
            return None
        try:
            from alg import div
            return div(mul(x, num(k)), unit)
        except Unsupported:
            return None

    def js_full(self):
        """a scene that gets full is flushed in time: nothing is lost, no index out of range"""
        rep = self.rep
        f = self.fn("cp_csg2_tree_put_js")
        w = f.body.where()
        fl = self.flusher(f)
        if fl is None:
            rep.assume("the scene buffer of the JavaScript writer was not found")
            return
        rep.rule("the JavaScript writer is also followed with a scene buffer that is nearly full: all "
                 "stores are in the bounds of the buffer's arrays, every index is below the number of "
                 "vertices, and each triangle gets into exactly one scene")
        want = None
        for left in (None, 0, 1, 2, 3, 4, 5, 7, 30):
            got = self.filled(f, fl, left)
            if got is None:
                return
            if want is None:
                want = got
            elif got != want:
                a, b = sum(want.values()), sum(got.values())
                rep.viol("full:js", w, "JavaScript: with a buffer that has room for %d more vertices, %d "
                         "triangles get into the output instead of %d" % (left, b, a) if a != b else
                         "JavaScript: with a buffer that has room for %d more vertices, triangles get "
                         "wrong corners" % left)
                return

    def flusher(self, f):
        """(function that writes the buffer, its record, the two counters, the two arrays)"""
        for g in self.prog.functions.values():
            if g.relfile != f.relfile or g is f:
                continue
            if not any(h is not None and h.decl.type.raw.get("variadic") for c in g.calls()
                       for h in [self.prog.resolve(c)]):
                continue
            for p in g.params:
                r = p.type.ptr_rec() if p.type.kind == "ptr" else None
                rec = g.tu.records.get(r)
                if rec is None or r.startswith("cp_"):
                    continue
                arrs, cnts = [], []
                for x in rec["f"]:
                    t = g.tu.types[x["t"]]
                    if t.kind == "arr" and t.to_t is not None and t.to_t.raw.get("sz"):
                        es = t.to_t.raw["sz"]
                        arrs.append((es, x["off"], t.raw["sz"] // es))
                    elif t.kind == "int":
                        cnts.append(x["off"])
                if len(arrs) == 2 and len(cnts) >= 2:
                    return g, p, sorted(arrs), cnts
        return None

    def filled(self, f, fl, left):
        from collections import Counter
        g, prm, arrs, cnts = fl
        (tsz, toff, tcap), (vsz, voff, vcap) = arrs
        at = g.params.index(prm)
        r = Counter()
        state = {}
        rep = self.rep
        w = f.body.where()

        def start(m, o):
            # counters at the given room; found by the plain run
            if left is not None:
                vc, tc = self.counters
                m.store(o.obj, o.off + vc, num(vcap - left), None)
                m.store(o.obj, o.off + tc, num((vcap - left) // 3), None)
                return (vcap - left) // 3, vcap - left
            for c in cnts:
                m.store(o.obj, o.off + c, num(0), None)
            return 0, 0

        def hook(m, e):
            if e.f is not g:
                return self.event(m, e)
            m.mem, m.dflt = dict(e.mem), {k: list(v) for k, v in e.dflt.items()}
            o = e.args[at]
            if state.get("from") is not None and "count" in state:
                self.take(m, o, state["from"], arrs, r, state)
            if state.get("from") is None:
                state["from"], state["v0"] = start(m, o)
                state["count"] = 0
                state["obj"] = o
            else:
                if left is None:
                    state["last"] = {c: m.mem.get((o.obj, o.off + c)) for c in cnts}
                for c in resets:
                    m.store(o.obj, o.off + c, num(0), None)
                state["from"] = 0
            return None

        resets = self.resets(g, prm, cnts)
        if left is None:
            self.counters = None
        m = Machine(self.prog, opaque=OPAQUE + (g.key,), max_paths=50, max_steps=3000000)
        m.recursion, m.max_loop = 6, 1000

        def generic(key):
            v = self.generic(key)
            if v is None and key[0] in ("zero", "equal", "less", "greater"):
                v0 = value_of(thaw(key[1]), self.env)
                v = {"zero": abs(v0) < 1e-9, "equal": v0 == 0, "less": v0 < 0,
                     "greater": v0 > 0}[key[0]] if v0 is not None else None
            return v

        m.assumed, m.on_event = generic, hook
        args = [Ptr("tree", 0) if p.type.kind == "ptr" and p.type.ptr_rec() == "cp_csg2_tree_t"
                else Ptr("out", 0) for p in f.params]
        try:
            ps = m.paths(f, args, self.tree)
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s" % (f.name, e))
        if len(ps) != 1:
            raise Broken("%s(): more than one path with a buffer" % f.name)
        if left is None:
            last = {c: v.const() for c, v in state.get("last", {}).items() if isinstance(v, P)}
            t = [c for c, v in last.items() if v]
            t.sort(key=lambda c: last[c])
            if len(t) != 2 or last[t[1]] != 3 * last[t[0]]:
                rep.assume("the counters of the JavaScript writer's buffer were not found")
                return None
            self.counters = (t[1], t[0])
            # once more, now that the counters are known
            r.clear()
            self.gather(ps[0].mem, state["obj"], 0, int(last[t[0]]), int(last[t[1]]), arrs, r, {})
            return r
        if state.get("bad"):
            rep.viol("full:js", w, "JavaScript: with a buffer that has room for %d more vertices, %s" % (
                left, state["bad"]))
            return None
        return r

    def resets(self, g, prm, cnts):
        """the counters of the buffer that its writer sets to 0"""
        if self.reset is None:
            args = [Ptr("buf" if p is prm else "tree" if p.type.kind == "ptr" and
                        p.type.ptr_rec() == "cp_csg2_tree_t" else p.name, 0) for p in g.params]

            def setup(m):
                self.tree(m)
                m.store("buf", 0, Blob(1 << 24, {}, [(0, 1 << 24, None, 0)]), None)
                for x in g.tu.records[prm.type.ptr_rec()]["f"]:
                    if g.tu.types[x["t"]].kind == "ptr":
                        m.store("buf", x["off"], Ptr("tree", 0), None)
                for c in cnts:
                    m.store("buf", c, num(1), None)

            m = Machine(self.prog, opaque=OPAQUE, max_paths=50, max_steps=100000)
            m.on_event = self.event
            try:
                ps = m.paths(g, args, setup)
            except Unsupported as e:
                raise Broken("cannot follow %s(): %s" % (g.name, e))
            self.reset = [c for c in cnts if all(
                isinstance(p.mem.get(("buf", c)), P) and p.mem["buf", c].const() == 0 for p in ps)]
        return self.reset

    def take(self, m, o, first, arrs, r, state):
        if self.counters is None:
            return
        vc, tc = self.counters
        nv, nt = (m.mem.get((o.obj, o.off + c)) for c in (vc, tc))
        if not isinstance(nv, P) or not isinstance(nt, P) or None in (nv.const(), nt.const()):
            state["bad"] = "a vertex is stored beyond the end of the buffer"
            return
        self.gather(m.mem, o, first, int(nt.const()), int(nv.const()), arrs, r, state)

    def gather(self, mem, o, first, nt, nv, arrs, r, state):
        """what the triangles first..nt refer to"""
        (tsz, toff, tcap), (vsz, voff, vcap) = arrs
        if nt > tcap or nv > vcap:
            state["bad"] = "%d vertices and %d triangles are stored in a buffer for %d and %d" % (
                nv, nt, vcap, tcap)
            return
        vert = {}
        for (ob, x), v in mem.items():
            if ob == o.obj and voff <= x - o.off < voff + vcap * vsz:
                k, d = divmod(x - o.off - voff, vsz)
                vert.setdefault(k, []).append((d, v.key() if isinstance(v, P) else str(v)))
        for t in range(first, nt):
            sig = []
            for j in range(3):
                x = mem.get((o.obj, o.off + toff + t * tsz + j * (tsz // 3)))
                k = x.const() if isinstance(x, P) else None
                if k is None or not 0 <= k < nv:
                    state["bad"] = "a triangle refers to vertex %s of %d" % (k, nv)
                    return
                sig.append(tuple(sorted(vert.get(int(k), ()))))
            r[tuple(sig)] += 1

    # ------------------------------------------------------------- the prisms
    def layers(self, name, w, p, facts, tris, gap0):
        rep = self.rep
        rep.count("triangles", len(tris))
        todo = [(nn, vs) for nn, vs in tris]
        gap = var(("init", "gap", 0))
        default = is_zero_f(add(gap, num(1)), facts)
        g = num(gap0) if default else gap
        thick = var(("init", "thick", 0))
        high = sub(thick, g)
        z1s = [norm(add(var(("init", "z", i)), high), facts) for i in range(len(LAYERS))]
        flat = not self.above(p, facts, high)
        for i, l in enumerate(LAYERS):
            for j, (pts, pt) in enumerate(l or ()):
                z0 = norm(var(("init", "z", i)), facts)
                key = {}
                for k in range(len(pts)):
                    c = [norm(self.coord(i, j, k, d), facts) for d in range(2)]
                    key[tup(c + [z0])] = (k, 0)
                    if not flat:
                        key[tup(c + [z1s[i]])] = (k, 1)
                mine, rest = [], []
                for nn, vs in todo:
                    t = [key.get(tup([norm(x, facts) for x in v])) for v in vs]
                    (rest if None in t else mine).append((nn, t) if None not in t else (nn, vs))
                todo = rest
                if not self.prism(name, w, pts, pt, mine, flat, facts, i, j):
                    return False
        if todo:
            rep.viol("stray:" + name, w, "%s: a triangle with a vertex at [%s] is no part of a layer%s" % (
                name, ", ".join(show(x)[:60] for x in todo[0][1][0]),
                "" if not flat else " of height 0"))
            return False
        return True

    def above(self, p, facts, high):
        """is a layer higher than 0 on this path"""
        h = norm(high, facts)
        if h is not None and not h:
            return False
        for c, v in p.conds.items():
            if c[0] not in ("less", "greater", "zero"):
                continue
            q = norm(thaw(c[1]), facts)
            if q is None:
                continue
            if c[0] == "zero":
                if v and (q == h or q == sub(P(), h)):
                    return False
                continue
            s = 1 if q == h else -1 if q == sub(P(), h) else 0
            if s and c[0] == ("greater" if s > 0 else "less"):
                if not v:
                    return False
            elif s:
                if v:
                    return False
        return True

    def prism(self, name, w, pts, pt, mine, flat, facts, i, j):
        rep = self.rep
        short = name.split()[0]

        def bad(what, text):
            rep.viol("%s:%s" % (what, short), w, "%s: %s" % (name, text))
            return False

        top = [t for _, t in mine if all(k[1] == 1 for k in t)]
        bottom = [t for _, t in mine if all(k[1] == 0 for k in t)]
        cap = [[k for k in t] for t, _ in pt]
        want_b = sorted(rot([(k, 0) for k in t]) for t in cap)
        want_t = sorted(rot([(k, 1) for k in t[::-1]]) for t in cap)
        if sorted(map(rot, bottom)) != want_b:
            return bad("bottom", "the triangles at the bottom of a layer are %s instead of %s" % (
                brief(bottom), brief(want_b)))
        if flat:
            if len(mine) != len(bottom):
                return bad("flat", "a layer of height 0 has more than one side")
            return True
        if sorted(map(rot, top)) != want_t:
            return bad("top", "the triangles at the top of a layer are %s instead of %s" % (
                brief(top), brief(want_t)))
        if len(mine) - len(top) - len(bottom) != 2 * sum(bin(f).count("1") for _, f in pt):
            return bad("sides", "there are %d triangles at the sides instead of 2 for each of %d outline "
                       "edges" % (len(mine) - len(top) - len(bottom),
                                  sum(bin(f).count("1") for _, f in pt)))
        edges = {}
        for _, t in mine:
            for a, b in zip(t, t[1:] + t[:1]):
                edges[a, b] = edges.get((a, b), 0) + 1
        for (a, b), k in edges.items():
            rep.count("edges matched")
            if k != 1 or edges.get((b, a)) != 1:
                return bad("edges", "a layer is not closed: the edge %s-%s is used %d and %d times" % (
                    a, b, k, edges.get((b, a), 0)))
        for nn, t in mine:
            if not self.normal(nn, t, pts, i, j, facts):
                return bad("normal", "the normal of triangle %s is [%s]" % (
                    brief([t]), ", ".join(show(x)[:40] for x in nn)))
        return True

    def normal(self, nn, t, pts, i, j, facts):
        """evaluate at the sample coordinates"""
        self.rep.count("normals compared")
        v = []
        for k, h in t:
            v.append((pts[k][0], pts[k][1], 2 * h))
        a = [v[1][d] - v[0][d] for d in range(3)]
        b = [v[2][d] - v[0][d] for d in range(3)]
        n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        l = sum(x * x for x in n) ** .5
        got = []
        for x in nn:
            x = value_of(norm(x, facts), self.env)
            if x is None:
                return False
            got.append(x)
        return all(abs(g - x / l) < 1e-6 for g, x in zip(got, n))


OPAQUE = ()


def value_of(x, env):
    """number of a polynomial for given values of its variables"""
    if x is None:
        return None
    s = 0.0
    for m, c in x.items():
        t = float(c)
        for a, e in m:
            k = ANAME[a]
            if k in env:
                v = env[k]
            elif k[0] in ("sqrt", "poly", "fabs"):
                v = value_of(thaw(k[1]), env)
                if v is None:
                    return None
                if k[0] == "sqrt":
                    v = abs(v) ** .5
                elif k[0] == "fabs":
                    v = abs(v)
            else:
                # scales cancel out
                v = 7.0
            if v == 0 and e < 0:
                return None
            t *= v ** e
        s += t
    return s


def inits(x):
    r = set()
    for m in x:
        for a, _ in m:
            k = ANAME[a]
            if k[0] == "init":
                r.add(k)
            elif k[0] in ("sqrt", "poly", "fabs"):
                r |= inits(thaw(k[1]))
    return r


def is_zero_f(x, facts):
    x = norm(x, facts)
    return x is not None and not x


def tup(v):
    return tuple(x.key() if x is not None else None for x in v)


def rot(t):
    i = t.index(min(t))
    return tuple(t[i:]) + tuple(t[:i])


def brief(ts):
    return [[k[0] for k in t] for t in ts][:4]


def outlines(tris):
    """the outline of a triangulation as closed paths"""
    nxt = {}
    for t, f in tris:
        for b in range(3):
            if f & (1 << b):
                nxt[t[b]] = t[(b + 1) % 3]
    r = []
    while nxt:
        a = min(nxt)
        p = []
        while a in nxt:
            p.append(a)
            a = nxt.pop(a)
        r.append(p)
    return r


FORMAT = re.compile(r"%(?:%|[-+ #0]*(\*|\d+)?(?:\.(\*|-?\d+))?(?:hh|h|ll|l|z|t|j|L)?([a-zA-Z]))")


def expand(fmt, args):
    """text and values that a formatted print writes"""
    r, pos, args = [], 0, list(args)
    for m in FORMAT.finditer(fmt):
        r.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group() == "%%":
            r.append("%")
            continue
        for s in (m.group(1), m.group(2)):
            if s == "*":
                args.pop(0)
        if not args:
            raise Unsupported("format with too few values")
        a = args.pop(0)
        if isinstance(a, Ptr):
            r.append(a.obj[4:] if str(a.obj).startswith("str:") else a)
        elif isinstance(a, P) and a.const() is not None and m.group(3) in "diuxX":
            r.append(str(int(a.const())))
        else:
            r.append(a)
    r.append(fmt[pos:])
    return [x for x in r if x != ""]


def value(bs):
    """the number whose bytes these are, lowest first"""
    cs = [b.const() if isinstance(b, P) else None for b in bs]
    if all(c is not None for c in cs):
        return num(sum((int(c) % 256) << (8 * i) for i, c in enumerate(cs)))
    if isinstance(bs[0], P) and all(b is None for b in bs[1:]):
        return bs[0]
    r = None
    for i, b in enumerate(bs):
        x, sh, mask = byte(b)
        if x is None or sh != 8 * i or mask & 0xff != 0xff or (r is not None and x != r):
            return None
        r = x
    return r


def byte(b, depth=0):
    """(value, shift, mask) of a byte of a value"""
    if not isinstance(b, P) or depth > 5:
        return None, 0, 0
    if len(b) == 1:
        (m, c), = b.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k = ANAME[m[0][0]]
            if k[0] == "op" and k[1] in ("&", ">>"):
                y, z = thaw(k[2]), thaw(k[3])
                if z.const() is None and y.const() is not None and k[1] == "&":
                    y, z = z, y
                if z.const() is not None:
                    x, sh, mask = byte(y, depth + 1)
                    if x is None:
                        x, sh, mask = y, 0, -1
                    q = int(z.const())
                    return (x, sh, mask & q) if k[1] == "&" else (x, sh + q, mask >> q)
    return b, 0, -1
