"""P39: STL files are imported as the triangles they list."""
from fractions import Fraction

from alg import Blob, Fun, P, Ptr, Unsupported, add, is_zero, mul, num, show, sub, var
from bits import BV, inbit
from facts import Broken
from matalg import off
from p34 import OPAQUE, Solids, recsize
from point import Build, Pointed, evaluate

# one triangle of each file is (three) corners of this list; no two coordinates are the same number
CORNERS = [("1", "2", "3"), ("4.5", "-5", ".75"), ("-7", "+8.25", "1e1"), ("11.", "2.5E-1", "1.3e+1"),
           ("1.0", "2", "30"), ("1", "21", "3.000000001")]
MESHES = {
    "no triangle": [],
    "a triangle": [(0, 1, 2)],
    "two triangles with a common edge": [(0, 1, 2), (2, 1, 3)],
    "a tetrahedron": [(0, 1, 2), (0, 2, 3), (0, 3, 1), (3, 2, 1)],
    "corners that differ in one coordinate": [(0, 4, 1), (4, 0, 2), (5, 0, 4)],
}
STYLES = {
    "lines": ("solid x\n", "  ", "\n", "endsolid x\n"),
    "DOS lines": ("solid x\r\n", "\t", "\r\n", "endsolid x\r\n"),
    "no name": ("solid\n", " ", "\n", "endsolid"),
    "words as name": ("solid facet vertex endsolid\n", "", " ", "endsolid facet loop\n"),
}
WORDS = ("solid", "facet", "normal", "outer", "loop", "vertex", "endloop", "endfacet", "endsolid")
HEAD = b"\x80binary, 80 bytes, \n\x00\xff solid"


# the matrix has the determinant 2 x + 3: 5, -5, 1/2, -1/2, 1/32, -1/32
DETS = [1, -4] + [Fraction(-3 + s * d, 2) for d in (Fraction(1, 2), Fraction(1, 32)) for s in (1, -1)]


def run(prog, rep):
    rep.rule("the import of STL files, text and binary, is followed from the bytes of the file to "
             "the polyhedron, with numbers (of binary files: bytes) as symbols: each triangle of the "
             "file, in order, is one face with the current matrix times the file's corners, the other "
             "way round than in the file if the matrix does not mirror, equal corners are one vertex; "
             "texts that lack a word or number or have a different one, numbers that are not finite, "
             "rest after the end, and binary files that are too short are refused with a message")
    s = Stl(prog, rep)
    s.texts()
    s.refused()
    s.binary()
    rep.floor("files followed", 20)
    rep.floor("vertices compared", 60)
    rep.floor("files that must be refused", 30)


class Reader(Pointed):
    """words of the file that are read as numbers become symbols"""

    def load(self, obj, o, ty):
        v = super().load(obj, o, ty)
        if isinstance(v, BV) and ty.kind == "float":
            if ty.raw.get("sz") != 4:
                raise Unsupported("number of %s bytes" % ty.raw.get("sz"))
            return self.single(v)
        if ty.kind == "int" and ty.raw.get("sz") == 1 and "unsigned" not in ty.raw["s"] and \
                isinstance(v, P) and v.const() is not None and 127 < v.const() < 256:
            return num(v.const() - 256)
        return v


class Stl(Solids):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.f = self.handler("import")
        self.where = self.f.body.where()
        self.err = off(prog, "cp_err_t", "msg.size")
        # the context in which a file of triangles can be imported
        one = self.text(self.words([(0, 1, 2)], STYLES["lines"]))
        for self.dim in (0, 1):
            if any(isinstance(p.ret, P) and p.ret.const() == 1 for p in self.follow(one)):
                break

    # ------------------------------------------------------------- following
    def follow(self, data, det=1, symbols=(), infinite=None):
        """data: bytes of the file; symbols: ranges that are not looked into"""
        self.env = {}
        env = self.env
        base = [[2, 1, 0], [0, 1, 3], [1, 0, det]]      # determinant: 2 det + 3
        d = 2 * det + 3
        m = Reader(self.prog, env, max_paths=64, opaque=set(OPAQUE) | {
            "cp_dict_find_ref_", "cp_dict_insert_ref", "cp_dict_min", "cp_dict_next", "cp_syn_read",
            "cp_xml_parse", "cp_svg_parse"})
        m.max_steps = 10 ** 7
        m.max_loop = 10 ** 5
        m.recursion = 0
        m.single = self.single
        m.children = set()
        m.mixed = True
        args = self.args(self.f, "import")
        ci = [(i, x["off"]) for i, p in enumerate(self.f.params)
              for x in (self.f.tu.records.get(p.type.ptr_rec() if p.type.kind == "ptr" else None) or
                        {}).get("f", ()) if x["n"] == "context"]
        mi = [(i, x["off"]) for i, p in enumerate(self.f.params)
              for x in (self.f.tu.records.get(p.type.ptr_rec() if p.type.kind == "ptr" else None) or
                        {}).get("f", ()) if x["n"] == "mat"]
        ei = [x for i, p in enumerate(self.f.params)
              for x in (self.f.tu.records.get(p.type.ptr_rec() if p.type.kind == "ptr" else None) or
                        {}).get("f", ()) if x["n"] == "err"]
        if len(ci) != 1 or len(mi) != 1 or len(ei) != 1:
            raise Broken("%s() has no context or matrix" % self.f.name)
        M = "cp_mat3wi_t"
        mb = off(self.prog, M, "n") + off(self.prog, "cp_mat3w_t", "b")
        mw = off(self.prog, M, "n") + off(self.prog, "cp_mat3w_t", "w")
        self.mat = [[var(("init", "mat", mb + 8 * (3 * i + j))) for j in range(3)] +
                    [var(("init", "mat", mw + 8 * i))] for i in range(3)]
        for i in range(3):
            for j in range(3):
                env["init", "mat", mb + 8 * (3 * i + j)] = base[i][j]
            env["init", "mat", mw + 8 * i] = 5 + i
        env["init", "mat", off(self.prog, M, "d")] = d

        def setup(m):
            b = Build(self.prog, m)
            for o in ("s", "text", "err", "r", "tmp", "syn"):
                b.rec(o, 1 << 16)
            c = args[ci[0][0]]
            b.rec(c.obj)
            m.store(c.obj, ci[0][1], num(self.dim), None)
            m.store(c.obj, ei[0]["off"], Ptr("err", 0), None)
            m.store(args[mi[0][0]].obj, mi[0][1], Ptr("mat", 0), None)
            for i, x in enumerate(data):
                if not any(lo <= i < hi for lo, hi in symbols):
                    m.mem["text", i] = num(x)
            m.store("text", len(data), num(0), None)
            for lo, hi in symbols:
                # these bytes are what they are
                m.dflt.setdefault("text", []).append((lo, hi, "text!", lo))
            m.bitmem = [("text!", lo, hi, "byte%d." % lo) for lo, hi in symbols]
            self.nodes = []

        def hook(m, e):
            return self.on39(m, e, len(data), infinite)

        m.on_event = hook
        try:
            return m.paths(self.f, args, setup)
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s %s" % (self.f.name, e, m.unsup))

    def single(self, v):
        k = ("single",) + tuple(b.vs for b in v.bits) + tuple(b.tt for b in v.bits)
        # a number that depends on which bits they are
        x = 1.0
        for i, b in enumerate(v.bits):
            x = (x * 31 + sum(map(ord, str(b.vs))) * (i + 3) + b.tt) % 9973
        self.env[k] = x
        return var(k)

    def bytes_at(self, m, p, n=None):
        """the constant bytes from p on (n of them, or up to a zero)"""
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported("text of unknown place")
        if p.obj.startswith("str:"):
            t = p.obj[4:].encode("latin1", "replace")[p.off:] + b"\0"
            return t[:n] if n is not None else t[:-1]
        r = bytearray()
        while n is None or len(r) < n:
            v = m.mem.get((p.obj, p.off + len(r)))
            if isinstance(v, BV):
                v = v.fold()
            if v is None and self.get(m.mem, m.dflt, p.obj, p.off + len(r)) == num(0):
                v = num(0)
            c = v.const() if isinstance(v, P) else None
            if c is None:
                raise Unsupported("text that is not known")
            if n is None and c == 0:
                break
            r.append(int(c) & 255)
        return bytes(r)

    def on39(self, m, e, size, infinite):
        a, name = e.args, e.callee

        def c(i):
            x = a[i].const() if i < len(a) and isinstance(a[i], P) else None
            if x is None:
                raise Unsupported("%s() with an unknown number" % name)
            return int(x)

        if name == "cp_syn_read":
            m.store(a[0].obj, a[0].off + off(self.prog, "cp_syn_file_t", "content.data"), Ptr("text", 0), None)
            m.store(a[0].obj, a[0].off + off(self.prog, "cp_syn_file_t", "content.size"), num(size), None)
            return num(1)
        if name in ("memcmp", "strncmp"):
            n = c(2)
            x, y = self.bytes_at(m, a[0], n), self.bytes_at(m, a[1], n)
            if name == "strncmp":
                x, y = x.split(b"\0")[0], y.split(b"\0")[0]
            return num((x > y) - (x < y))
        if name == "strcmp":
            x, y = self.bytes_at(m, a[0]), self.bytes_at(m, a[1])
            return num((x > y) - (x < y))
        if name == "strlen":
            return num(len(self.bytes_at(m, a[0])))
        if name in ("strtod", "atof", "strtold"):
            t = self.bytes_at(m, a[0]).decode("latin1")
            try:
                k = ("number", float(t))
                self.env[k] = min(float(t), 1e9)
            except ValueError:
                # there is no number here: the C library says 0
                if a[0].obj == "text":
                    return num(0)
                raise Unsupported("number from '%s'" % t)
            return var(k)
        if name in ("__builtin_isfinite", "isfinite", "finite", "__finite") or "isfinite" in (name or ""):
            return num(0 if infinite is not None and a[0] == infinite or
                       a[0] == var(("number", float("inf"))) else 1)
        if name == "cp_dict_find_ref_":
            fun = [x for x in a if isinstance(x, Fun)]
            ps = [x for x in a if isinstance(x, Ptr)]
            if len(fun) != 1 or fun[0].f is None or len(ps) < 3:
                raise Unsupported("search")
            for k in self.nodes:
                r = m.call(fun[0].f, [a[1], k, a[4]])
                v = r.const() if isinstance(r, P) else None
                if v is None:
                    raise Unsupported("order of vertices")
                if v == 0:
                    return k
            return Ptr(None, 0)
        if name == "cp_dict_insert_ref":
            self.nodes.append(a[0])
            m.store(a[2].obj, a[2].off, self.nodes[0], None)
            return None
        if name in ("cp_dict_min", "cp_dict_next"):
            # some order
            l = self.nodes[1::2] + self.nodes[0::2]
            i = 0 if name == "cp_dict_min" else [i for i, x in enumerate(l) if x == a[0]][0] + 1
            return l[i] if i < len(l) else Ptr(None, 0)
        if e.f is not None and e.f.decl.type.raw.get("variadic") or name == "cp_syn_msg":
            if name != "cp_syn_msg":
                m.store("err", self.err, num(1), None)
            return num(0)
        if name in ("cp_v_ensure_size_", "cp_v_set_size_", "cp_v_copy_arr_"):
            return self.vector(m, e, name)
        if name in ("calloc", "malloc"):
            return self.zeroed(m, 1 << 16)
        if e.f is None and name != "?":
            return None
        if name == "cp_pool_calloc":
            return self.zeroed(m, 1 << 12)
        if name == "?" and a and isinstance(a[0], Ptr) and str(a[0].obj).startswith("global:"):
            if e.call.type is None or e.call.type.kind != "ptr":
                return None
            old = [x for x in a[1:] if isinstance(x, Ptr)]
            p = self.zeroed(m, 1 << 16)
            if old and old[0].obj is not None:
                m.store(p.obj, 0, m.blob(old[0].obj, old[0].off, 1 << 16), None)
            return p
        return self.event(m, e, 3, None)

    def restore(self, m, e):
        pass

    def vector(self, m, e, name):
        a = e.args
        k = [x.const() if isinstance(x, P) else None for x in a]
        v = self.vecof(m, a[1])
        if v is None or k[2] is None or k[3] is None:
            raise Unsupported("list of unknown size %s" % (a,))
        esz, n = int(k[2]), int(k[3] + (k[5] if name == "cp_v_copy_arr_" else 0))
        if v[0] is None:
            d = self.zeroed(m, 1 << 16)
            m.store(a[1].obj, a[1].off + self.vec["data"], d, None)
            v = (d.obj, d.off, v[2])
        if n > v[2]:
            m.store(v[0], v[1] + v[2] * esz, Blob((n - v[2]) * esz, {}, [(0, (n - v[2]) * esz, None, 0)]), None)
        if n > v[2] or name == "cp_v_set_size_":
            m.store(a[1].obj, a[1].off + self.vec["size"], num(n), None)
        if name == "cp_v_copy_arr_":
            m.store(v[0], v[1] + int(k[3]) * esz, m.blob(a[4].obj, a[4].off, esz * int(k[5])), None)
            return Ptr(v[0], v[1] + int(k[3]) * esz)
        return None

    # ------------------------------------------------------------- results
    def bad(self, what, key, text):
        self.rep.viol("stl:%s" % key, self.where, "%s: %s" % (what, text))

    def result(self, p):
        """(vertices, faces) of the one object"""
        v = self.vecof(p, Ptr("r", 0))
        if v is None or v[2] != 1:
            return None
        o = self.get(p.mem, p.dflt, v[0], v[1])
        if not isinstance(o, Ptr):
            return None
        return self.poly3(p, o)

    def compare(self, what, ps, mesh, names, det):
        """names: numbers of the corners"""
        self.rep.count("files followed")
        if not ps:
            self.bad(what, "aborted", "the import does not come to an end")
        for p in ps:
            if not isinstance(p.ret, P) or p.ret.const() != 1:
                self.bad(what, "refused", "a correct file is refused")
                return
            try:
                r = self.result(p)
            except Unsupported as e:
                self.bad(what, "object", "the object that is made is not complete (%s)" % e)
                return
            if r is None:
                self.bad(what, "object", "not one object is made")
                return
            pts, faces = r
            if len(faces) != len(mesh):
                self.bad(what, "count", "%d triangles become %d faces" % (len(mesh), len(faces)))
                return
            used = {i for t in mesh for i in t}
            if len(pts) != len(used):
                self.bad(what, "vertices", "%d different corners become %d vertices" % (len(used), len(pts)))
                return
            for k, (t, f) in enumerate(zip(mesh, faces)):
                if len(f) != 3 or None in f:
                    self.bad(what, "corners", "face %d has corners %s" % (k, f))
                    return
                want = list(t) if 2 * det + 3 < 0 else list(reversed(t))
                ok = False
                for s in range(3):
                    w = want[s:] + want[:s]
                    ok = ok or all(self.same(pts[j], names[i]) for i, j in zip(w, f))
                if not ok:
                    self.bad(what, "triangle", "face %d is not triangle %d of the file, seen from the same side: "
                             "%s" % (k, k, ", ".join("(%s)" % ", ".join(self.say(c) for c in pts[j])
                                                     for j in f))[:400])
                    return
                self.rep.count("vertices compared", 3)

    def say(self, c):
        v = evaluate(c, self.env) if isinstance(c, P) else None
        return "%g" % v if v is not None else "?"

    def same(self, pt, name):
        for i in range(3):
            w = self.mat[i][3]
            for j in range(3):
                w = add(w, mul(self.mat[i][j], self.named(name[j])))
            if not isinstance(pt[i], P) or not is_zero(sub(pt[i], w)):
                return False
        return True

    def named(self, t):
        """the number that a piece of the file stands for"""
        return t if isinstance(t, P) else var(("number", float(t)))

    # ------------------------------------------------------------- files
    def words(self, mesh, style, corners=CORNERS, normal="0.6 0 -.8"):
        """the text as a list of (word, what follows it)"""
        head, ind, nl, tail = style
        r = []

        def line(t, last=nl):
            l = t.split(" ")
            for i, w in enumerate(l):
                r.append([w, " " if i < len(l) - 1 else last])

        for t in mesh:
            line("facet normal " + normal, nl + ind)
            line("outer loop", nl + ind * 2)
            for i in t:
                line("vertex %s %s %s" % corners[i], nl + ind)
            line("endloop")
            line("endfacet")
        return head, r, tail

    def text(self, w):
        return (w[0] + "".join(x + y for x, y in w[1]) + w[2]).encode("latin1")

    def texts(self):
        for what, mesh in MESHES.items():
            for det in DETS:
                for name, st in STYLES.items():
                    if det != 1 and name != "lines":
                        continue
                    ps = self.follow(self.text(self.words(mesh, st)), det)
                    self.compare("text with %s, %s" % (what, name), ps, mesh, CORNERS, det)

    def refuse(self, what, data, **kw):
        self.rep.count("files that must be refused")
        ps = self.follow(data, **kw)
        if not ps:
            self.bad(what, "aborted", "the import does not come to an end")
        for p in ps:
            if not isinstance(p.ret, P) or p.ret.const() != 0:
                self.bad(what, "accepted", "the file is not refused")
                return
            v = self.get(p.mem, p.dflt, "err", self.err)
            if not isinstance(v, P) or v.const() == 0:
                self.bad(what, "silent", "the file is refused without a message")
                return

    def refused(self):
        st = STYLES["lines"]
        w = self.words([(0, 1, 2)], st)
        n = len(w[1])
        for i in range(n):
            name = "text without word %d ('%s')" % (i, w[1][i][0])
            self.refuse(name, self.text((w[0], w[1][:i] + w[1][i + 1:], w[2])))
            self.refuse("text that ends before word %d ('%s')" % (i, w[1][i][0]),
                        self.text((w[0], w[1][:i], "")))
            if w[1][i][0].isalpha():
                for x in WORDS[(i + 1) % 9], w[1][i][0] + "x", w[1][i][0][:-1], w[1][i][0].upper():
                    if x != w[1][i][0]:
                        self.refuse("text with '%s' instead of '%s'" % (x, w[1][i][0]),
                                    self.text((w[0], w[1][:i] + [[x, w[1][i][1]]] + w[1][i + 1:], w[2])))
            elif i > 4:
                for x in "1e999", "x", "-", "(":
                    if x == "-":
                        continue
                    self.refuse("text with '%s' as a coordinate" % x,
                                self.text((w[0], w[1][:i] + [[x, w[1][i][1]]] + w[1][i + 1:], w[2])))
        self.refuse("text with a fourth coordinate", self.text((w[0], w[1][:9] + [["5", " "]] + w[1][9:], w[2])))
        self.refuse("text without 'endsolid'", self.text((w[0], w[1], "")))
        self.refuse("text with something after the end", self.text((w[0], w[1], w[2] + "facet")))
        self.refuse("empty file", b"")
        self.refuse("some text", b"hello, this is not a file of triangles\n")

    def binary(self):
        for what, mesh in MESHES.items():
            if what.startswith("corners"):
                continue
            for det in DETS:
                data, sym, names = self.bin(mesh)
                ps = self.follow(data, det, sym)
                self.compare("binary file with %s" % what, ps, [tuple(range(3 * i, 3 * i + 3)) for i in range(len(mesh))],
                             names, det)
        data, sym, names = self.bin([(0, 1, 2), (0, 1, 3)])
        for cut in 1, 2, 49, 50, 60:
            lo = len(data) - cut
            self.refuse("binary file with %d bytes less than it says" % cut, data[:lo],
                        symbols=[(a, b) for a, b in sym if b <= lo])
        for k in (3, 11, 12 + 6):
            bad = names[k // 3 % 6][k % 3]
            self.refuse("binary file with a coordinate that is not finite", data, symbols=sym, infinite=bad)

    def bin(self, mesh):
        data = bytearray((HEAD + bytes(80))[:80]) + len(mesh).to_bytes(4, "little")
        sym, names = [], []
        for t in mesh:
            data += bytes(12)                       # the normal is not looked at
            for i in t:
                c = []
                for k in range(3):
                    lo = len(data)
                    sym.append((lo, lo + 4))
                    data += bytes(4)
                    c.append(lo)
                names.append(c)
            data += bytes(2)
        return bytes(data), sym, [tuple(self.at(lo) for lo in c) for c in names]

    def at(self, lo):
        """the number in the four bytes from lo on"""
        old = getattr(self, "env", None)
        self.env = {}
        r = self.single(BV([inbit("byte%d." % lo, k) for k in range(32)]))
        self.env = old
        return r
