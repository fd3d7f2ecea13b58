"""P37: the plane sweep loses no edge and no membership."""
from alg import Blob, P, Ptr, Restart, Unsupported, num, var
from bits import BV, Bits, ZERO, inbit, op2
from facts import Broken
from matalg import off

EDGE = "edge"
# where the ends of the other edge lie on the line: o is (0, ro), e is (le, re)
CASES = [(3, 0, 3), (3, 1, 3), (2, 0, 3), (2, 1, 3), (3, 0, 2), (3, 1, 2)]
DIRS = [(1, 0), (0, 1), (2, -3)]


def run(prog, rep):
    rep.rule("the edges of an operand are followed from polygon, line list or other result into "
             "the sweep: each exactly once, with the operand's membership; where edges overlap or are "
             "split, on each stretch of the line the memberships of the edges there must sum (xor) to "
             "what they were, and exactly the ends ahead of the sweep line are on the agenda at their "
             "place and exactly the edge at the sweep line is in the state; the reduction decides by "
             "the Boolean function below and above an edge, where above is below xor membership")
    s = Sweep(prog, rep)
    s.add_edge()
    s.add_lines()
    s.add_poly()
    s.add_sweep()
    s.overlap()
    s.split()
    s.bundle()
    s.sums()
    s.reduce()
    rep.floor("line arrangements", 12)
    rep.floor("edges followed into the sweep", 20)
    rep.floor("paths", 40)


class Way:
    """a path with its sets"""


class Body:
    """part of a function, followed on its own"""
    def __init__(self, f, body):
        self.f, self.body, self.params = f, body, []
        self.key = f.key + ":part"

    def __getattr__(self, n):
        return getattr(self.f, n)


class Sweep:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        if EDGE not in prog.records:
            raise Broken("the edge record of the sweep has vanished")
        o = lambda p: off(prog, EDGE, p)
        self.left, self.rigt = o("left"), o("rigt")
        self.member, self.below, self.keep = o("member"), o("below"), o("keep")
        self.sum = o("sum_member")
        self.in_tree, self.free = o("in_tree"), o("free_next")
        self.xings = (o("prev_xing"), o("next_xing"))
        self.vec = off(prog, "vertex", "vec2")
        self.side, self.in_agenda = off(prog, "vertex", "side"), off(prog, "vertex", "in_agenda")
        tu, r = prog.records["vertex"]
        self.cx, self.cy = off(prog, "vertex", "vec2.x"), off(prog, "vertex", "vec2.y")
        enum = {n: v for l in prog.enums.values() for n, v in l}
        if "LEFT" not in enum or "RIGT" not in enum and "RIGHT" not in enum:
            raise Broken("the sides of an edge have vanished")
        self.L, self.R = enum["LEFT"], enum["RIGHT"] if "RIGHT" in enum else enum["RIGT"]
        self.data = self.datarec()
        d = lambda p: off(prog, self.data, p)
        self.agenda, self.state, self.result = d("agenda_vertex"), d("state"), d("result")
        self.freelist = d("free_edge")

    def datarec(self):
        for k in self.prog.records:
            if k in ("cq_sweep", "cq_sweep_t"):
                return k
        raise Broken("the sweep record has vanished")

    # ---------------------------------------------------------------- machine
    def machine(self, opaque=(), hook=None):
        names = {g.key for g in self.prog.functions.values()
                 if g.name.startswith(("cp_dict_", "cp_list_", "cp_v_", "cq_ps", "cp_heap",
                                       "cq_sweep_trace", "cp_pool")) and not g.name.endswith("_of")}
        m = Bits(self.prog, opaque=names | set(opaque))
        m.sets = None

        def on_event(m, e):
            m.mem, m.dflt = dict(e.mem), {k: list(v) for k, v in e.dflt.items()}
            if hook is not None:
                r = hook(m, e)
                if r is not None:
                    return r
            return self.event(m, e)
        m.on_event = on_event
        return m

    def event(self, m, e):
        n, a = e.callee, e.args
        if n.startswith("cp_pool") or n == "?" and e.call.type is not None and \
                e.call.type.kind == "ptr":
            return self.new(m)
        if n in ("memset", "__builtin_memset"):
            return a[0]
        if n == "cp_dict_swap_update_root":
            self.swap(m, a)
        elif n.startswith("cp_dict_insert"):
            self.insert(m, a)
        elif n.startswith("cp_dict_remove"):
            self.remove(m, a)
        elif e.f is not None and not e.f.name.startswith(("cp_", "cq_ps", "cq_sweep_trace")):
            raise Unsupported("call of %s()" % n)
        return None

    def new(self, m):
        o = m.fresh("mem")
        m.store(o, 0, Blob(1 << 12, {}, [(0, 1 << 12, None, 0)]), None)
        m.fresh_edges.append(o)
        return Ptr(o, 0)

    def root(self, m, a):
        for x in a:
            if isinstance(x, Ptr) and x.obj == "D":
                if x.off == self.agenda:
                    return "agenda"
                if x.off == self.state:
                    return "state"
                if x.off == self.result:
                    return "result"
        return None

    def cell(self, m, x):
        """(edge object, which of its cells)"""
        if not isinstance(x, Ptr) or x.obj is None:
            return None
        for w, b in (("left", self.left), ("rigt", self.rigt)):
            if x.off == b + self.in_agenda:
                return x.obj, w
        if x.off == self.in_tree:
            return x.obj, "tree"
        return None

    def pos(self, m, obj, w):
        b = self.left if w == "left" else self.rigt
        return tuple(self.number(m, obj, b + o) for o in (self.cx, self.cy))

    def number(self, m, obj, o):
        t = self.int4
        v = m.load(obj, o, t)
        c = v.const() if isinstance(v, P) else None
        return None if c is None else int(c)

    @property
    def int4(self):
        tu, r = self.prog.records["vertex"]
        from matalg import find
        h = find(self.prog, tu, r, "side")
        return tu.types[h[1]]

    def insert(self, m, a):
        if m.sets is None:
            return
        r, c = self.root(m, a), self.cell(m, a[0])
        if r is None or c is None:
            return
        if c in m.sets[r]:
            m.bad.append("%s of %s is put on the %s twice" % (c[1], c[0], r))
        m.sets[r][c] = self.pos(m, *c) if r != "state" else None

    def remove(self, m, a):
        if m.sets is None:
            return
        r, c = self.root(m, a), self.cell(m, a[0])
        if r is None or c is None:
            return
        if m.sets[r].pop(c, 0) == 0:
            m.bad.append("%s of %s is taken from the %s without being there" % (c[1], c[0], r))

    def swap(self, m, a):
        if m.sets is None:
            return
        r, x, y = self.root(m, a), self.cell(m, a[1]), self.cell(m, a[2])
        if r is None or x is None or y is None:
            return
        s = m.sets[r]
        has = [x in s, y in s]
        for c, h in ((y, has[0]), (x, has[1])):
            s.pop(c, None)
        for c, h in ((y, has[0]), (x, has[1])):
            if h:
                s[c] = None

    def fn(self, name):
        l = self.prog.by_name.get(name)
        if not l:
            raise Broken("%s() has vanished" % name)
        return l[0]

    def paths(self, f, args, setup, opaque=(), hook=None):
        m = self.machine(opaque, hook)

        def s(m):
            m.fresh_edges = []
            m.sets = None
            m.bad = []
            setup(m)
        snaps = []

        def record(r, mm):
            snaps.append((mm.sets and {k: dict(v) for k, v in mm.sets.items()}, list(mm.bad),
                          list(mm.fresh_edges)))
            return r
        m.on_end = record
        while True:
            del snaps[:]
            try:
                ps = m._paths(f, args, s)
                break
            except Restart:
                continue
            except Unsupported as e:
                raise Broken("%s(): %s" % (f.name, e))
        out = []
        for p, x in zip(ps, snaps):
            q = Way()
            q.mem, q.dflt, q.events, q.conds = p.mem, p.dflt, p.events, p.conds
            q.sets, q.bad, q.fresh = x
            out.append(q)
        self.rep.count("paths", len(out))
        return m, out

    def at(self, m, p):
        m.mem, m.dflt, m.frames = p.mem, p.dflt, [{"f": self.fn("cq_sweep_add_edge"), "id": 0}]

    # ---------------------------------------------------------------- edges
    def put_vec(self, m, obj, o, xy, edge=True):
        base = o + (self.vec if edge else 0)
        m.mem[(obj, base + self.cx - self.vec)] = num(xy[0])
        m.mem[(obj, base + self.cy - self.vec)] = num(xy[1])

    def put_edge(self, m, obj, l, r):
        self.put_vec(m, obj, self.left, l)
        self.put_vec(m, obj, self.rigt, r)
        m.mem[(obj, self.left + self.side)] = num(self.L)
        m.mem[(obj, self.rigt + self.side)] = num(self.R)
        m.mem[(obj, self.free)] = Ptr(None, 0)
        for x in self.xings:
            m.mem[(obj, x)] = Ptr(None, 0)
        m.bitmem.append((obj, self.member, self.member + 8, obj))

    def empty_freelist(self, m):
        m.mem[("D", self.freelist)] = num(1)

    def bits(self, m, obj, o, n=8):
        r = []
        try:
            for i in range(n):
                r.extend(m.byte(obj, o + i))
        except Unsupported:
            return (inbit("unknown", 0),) * (8 * n)
        return tuple(r)

    def live(self, m, obj):
        v = m.mem.get((obj, self.free))
        return v is None or isinstance(v, Ptr) and v.obj is None or isinstance(v, P) and not v

    def where(self, f):
        return "%s:%d" % (f.relfile, f.line)

    def viol(self, f, kind, text):
        self.rep.viol("%s:%s" % (f.key, kind), self.where(f), "%s() %s" % (f.name, text))

    def edges_of(self, m, p, names):
        out = []
        for o in list(names) + p.fresh:
            if o in names and not self.live(m, o):
                continue
            if o not in names:
                v = m.mem.get((o, self.left + self.side)), m.mem.get((o, self.rigt + self.side))
                if None in v:
                    continue
            l, r = self.pos(m, o, "left"), self.pos(m, o, "rigt")
            if None in l or None in r:
                raise Broken("the place of an edge is unknown")
            out.append((o, l, r, self.bits(m, o, self.member)))
        return out

    def line(self, f, p, m, dir, n, before, scan):
        """the edges on a line: memberships per stretch, agenda and state"""
        at = {(dir[0] * k, dir[1] * k): k for k in range(n + 1)}
        for t in p.bad:
            self.viol(f, "agenda", t)
        now = self.edges_of(m, p, ("e", "o"))
        spans = []
        for o, l, r, b in now:
            if l not in at or r not in at:
                self.viol(f, "place", "moves the end of an edge to a new place")
                return
            if at[l] >= at[r]:
                self.viol(f, "order", "leaves an edge without length or with its ends exchanged")
                return
            spans.append((o, at[l], at[r], b))
        for k in range(n):
            got = [ZERO] * 64
            for o, l, r, b in spans:
                if l <= k < r:
                    got = [op2("^", x, y) for x, y in zip(got, b)]
            if tuple(got) != before(k):
                self.viol(f, "member", "changes to which polygons the line belongs: between %d and "
                          "%d of the points (of %s) it belongs to %s instead of %s" %
                          (k, k + 1, dir, got[0], before(k)[0]))
        for o, l, r, b in spans:
            want = {"left": l > scan, "rigt": r > scan}
            for w in ("left", "rigt"):
                c = (o, w)
                have = c in p.sets["agenda"]
                if have != want[w]:
                    self.viol(f, "agenda", "%s the %s end of an edge that %s the sweep line" %
                              ("does not expect" if want[w] else "still expects", w,
                               "is ahead of" if want[w] else "is behind"))
                elif have and p.sets["agenda"][c] != (l if w == "left" else r) and \
                        at.get(p.sets["agenda"][c]) != (l if w == "left" else r):
                    self.viol(f, "agenda-order", "does not re-sort the %s end of an edge that was "
                              "moved" % w)
            if ((o, "tree") in p.sets["state"]) != (l <= scan < r):
                self.viol(f, "state", "%s the state an edge that is %s the sweep line" %
                          (("leaves out of", "at") if l <= scan < r else ("keeps in", "not at")))
        gone = {c[0] for s in (p.sets["agenda"], p.sets["state"]) for c in s} - {x[0] for x in spans}
        if gone:
            self.viol(f, "dangling", "deletes an edge that is still on the agenda or in the state")
        self.rep.count("line arrangements")

    # ---------------------------------------------------------------- checks
    def xor(self, *names):
        r = [ZERO] * 64
        for n in names:
            r = [op2("^", x, inbit(n, i)) for i, x in enumerate(r)]
        return tuple(r)

    def overlap(self):
        f = self.fn("ev_overlap")
        for ro, le, re in CASES:
            for d in DIRS:
                at = lambda k: (d[0] * k, d[1] * k)

                def setup(m):
                    m.bitmem = []
                    self.put_edge(m, "e", at(le), at(re))
                    self.put_edge(m, "o", at(0), at(ro))
                    self.empty_freelist(m)
                    m.sets = {"agenda": {("e", "rigt"): at(re), ("o", "rigt"): at(ro)},
                              "state": {("o", "tree"): None}, "result": {}}
                m, ps = self.paths(f, [Ptr("D"), Ptr("e"), Ptr("o")], setup)
                if not ps:
                    raise Broken("%s() has no path" % f.name)

                def before(k):
                    return self.xor(*[n for n, l, r in (("e", le, re), ("o", 0, ro)) if l <= k < r])
                for p in ps:
                    self.at(m, p)
                    self.line(f, p, m, d, max(ro, re), before, le)

    def split(self):
        f = self.fn("ev_split")
        for d in DIRS:
            at = lambda k: (d[0] * k, d[1] * k)
            for s in (0, 1):
                def setup(m):
                    m.bitmem = []
                    self.put_edge(m, "o", at(0), at(3))
                    m.mem[("e", self.free)] = var(("gone",))
                    self.put_vec(m, "i", 0, at(2), False)
                    self.empty_freelist(m)
                    m.sets = {"agenda": {("o", "rigt"): at(3)}, "state": {("o", "tree"): None},
                              "result": {}}
                m, ps = self.paths(f, [Ptr("D"), Ptr("i"), Ptr("o")], setup)
                for p in ps:
                    self.at(m, p)
                    self.line(f, p, m, d, 3, lambda k: self.xor("o"), s)

    def add_edge(self):
        f = self.fn("cq_sweep_add_edge")
        for a, b in (((0, 0), (2, 1)), ((2, 1), (0, 0)), ((1, 5), (1, 2)), ((1, 2), (1, 5)),
                     ((-4, 3), (7, -2)), ((3, 3), (3, 3))):
            def setup(m):
                m.bitmem = []
                self.put_vec(m, "a", 0, a, False)
                self.put_vec(m, "b", 0, b, False)
                self.empty_freelist(m)
                m.sets = {"agenda": {}, "state": {}, "result": {}}
            m, ps = self.paths(f, [Ptr("D"), Ptr("a"), Ptr("b"), BV(self.xor("member"))], setup)
            for p in ps:
                self.at(m, p)
                es = self.edges_of(m, p, ())
                want = [] if a == b else [(min(a, b), max(a, b))]
                self.rep.count("edges followed into the sweep")
                if [(l, r) for o, l, r, x in es] != want:
                    self.viol(f, "edge", "makes %s of an edge from %s to %s" %
                              ([(l, r) for o, l, r, x in es] or "nothing", a, b))
                    continue
                for o, l, r, x in es:
                    if x != self.xor("member"):
                        self.viol(f, "member", "does not give the edge the membership of its polygon")
                    for w, q in (("left", l), ("rigt", r)):
                        if p.sets["agenda"].get((o, w)) != q:
                            self.viol(f, "agenda", "does not put the %s end on the agenda" % w)

    def collect(self, f, args, setup, extra=()):
        """edges that f hands over: list of (from, to, membership) per path"""
        add = self.fn("cq_sweep_add_edge")
        got = []

        def hook(m, e):
            if e.f is not None and e.f.key == add.key or e.callee == add.name:
                q = []
                for x in e.args[1:3]:
                    q.append(tuple(self.number(m, x.obj, x.off + o) for o in
                                   (self.cx - self.vec, self.cy - self.vec)))
                m.added.append((q[0], q[1], e.args[3]))
                return num(0)
            if e.callee == "cq_import_vec2":
                x = e.args[0]
                o = m.fresh("vec")
                for i, t in ((self.cx, 0), (self.cy, 8)):
                    v = m.mem.get((x.obj, x.off + t))
                    if v is None:
                        raise Unsupported("point")
                    m.mem[(o, i - self.vec)] = v
                return m.blob(o, 0, 8)
            return None
        out = []

        def s(m):
            m.added = []
            m.bitmem = []
            setup(m)
            out.append(m.added)
        m, ps = self.paths(f, args, s, opaque={add.key, "cq_import_vec2"} | set(extra), hook=hook)
        return m, ps, out

    def judge(self, f, out, want, what):
        for l in out:
            es = {}
            for a, b, mm in l:
                if None in a or None in b:
                    raise Broken("%s(): the place of an edge is unknown" % f.name)
                k = frozenset((a, b))
                es[k] = es.get(k, 0) ^ 1
                if mm != var(("mask",)):
                    self.viol(f, "member", "gives an edge of %s another membership" % what)
            es = {k for k, v in es.items() if v}
            self.rep.count("edges followed into the sweep", len(l))
            if es != want:
                x = sorted(tuple(sorted(k)) for k in es ^ want)
                self.viol(f, "edges", "%s the edge %s of %s" %
                          ("leaves out" if frozenset(x[0]) in want else "makes up", x[0], what))

    def add_lines(self):
        f = self.fn("cq_sweep_add_v_line2")
        rec = f.params[1].type.ptr_rec()
        size, dat = off(self.prog, rec, "size"), off(self.prog, rec, "data")
        lines = [((0, 0), (5, 1)), ((5, 1), (4, 7)), ((9, 9), (2, 3))]

        def setup(m):
            m.mem[("G", size)] = num(len(lines))
            m.mem[("G", dat)] = Ptr("lines", 0)
            for i, (a, b) in enumerate(lines):
                self.put_vec(m, "lines", 16 * i, a, False)
                self.put_vec(m, "lines", 16 * i + 8, b, False)
        m, ps, out = self.collect(f, [Ptr("D"), Ptr("G"), var(("mask",))], setup)
        self.judge(f, out, {frozenset(x) for x in lines}, "a list of lines")

    def add_poly(self):
        f = self.fn("cq_sweep_add_poly")
        rec = f.params[1].type.ptr_rec()
        o = lambda p: off(self.prog, rec, p)
        pts = [(3, 1), (8, 2), (7, 9), (1, 6), (4, 4), (5, 4), (4, 5)]
        paths = [[0, 1, 2, 3], [6, 4, 5]]
        tris = [(0, 1, 3), (3, 1, 2), (4, 5, 6)]
        prec, trec, qrec = self.elem(rec, "path"), self.elem(rec, "tri"), self.elem(rec, "point")
        io = off(self.prog, prec, "point_idx.size"), off(self.prog, prec, "point_idx.data")
        xy = off(self.prog, qrec, "coord")
        for which in ("paths", "path", "triangles"):
            np = {"paths": 2, "path": 1, "triangles": 0}[which]

            def setup(m):
                m.mem[("G", o("point.size"))] = num(len(pts))
                m.mem[("G", o("point.data"))] = Ptr("pts", 0)
                m.mem[("G", o("path.size"))] = num(np)
                m.mem[("G", o("path.data"))] = Ptr("paths", 0)
                m.mem[("G", o("tri.size"))] = num(0 if np else len(tris))
                m.mem[("G", o("tri.data"))] = Ptr("tris", 0)
                for i, (x, y) in enumerate(pts):
                    b = i * self.size(qrec) + xy
                    m.mem[("pts", b)], m.mem[("pts", b + 8)] = num(x), num(y)
                for i, l in enumerate(paths):
                    b = i * self.size(prec)
                    m.mem[("paths", b + io[0])] = num(len(l))
                    m.mem[("paths", b + io[1])] = Ptr("idx%d" % i, 0)
                    for j, x in enumerate(l):
                        m.mem[("idx%d" % i, j * 8)] = num(x)
                for i, l in enumerate(tris):
                    b = i * self.size(trec)
                    for n, x in zip("abc", l):
                        m.mem[("tris", b + off(self.prog, trec, n))] = num(x)
            m, ps, out = self.collect(f, [Ptr("D"), Ptr("G"), var(("mask",))], setup)
            want = {}
            for l in paths[:np] if np else tris:
                for a, b in zip(l, l[1:] + l[:1]):
                    k = frozenset((pts[a], pts[b]))
                    want[k] = want.get(k, 0) ^ 1
            self.judge(f, out, {k for k, v in want.items() if v}, "a polygon given by its " + ("paths" if np else which))

    def elem(self, rec, field):
        from matalg import find
        tu, r = self.prog.records[rec]
        h = find(self.prog, tu, r, field)
        if h is None:
            raise Broken("no field %s in %s" % (field, rec))
        t = tu.types[h[1]]
        rr = tu.records.get(t.rec) or self.prog.records[t.rec][1]
        h = find(self.prog, tu, rr, "data")
        return tu.types[h[1]].ptr_rec()

    def size(self, rec):
        from p34 import recsize
        return recsize(self.prog, rec)

    def loops(self, f, pred):
        for n in f.body.walk():
            if n.k in ("ForStmt", "WhileStmt", "DoStmt"):
                b = n.ch[3] if n.k == "ForStmt" else n.ch[1] if n.k == "WhileStmt" else n.ch[0]
                if any(pred(x) for x in b.walk()):
                    yield n, b

    def loopvar(self, f, loop, body):
        """declarations outside of the body that the body reads: pointers to list cells"""
        out = []
        inner = set()
        for n in body.walk():
            if n.k == "DeclStmt":
                inner |= {d for d, i in n.raw["ds"]}
        for n in body.walk():
            if n.k == "DeclRefExpr" and n.decl.raw["k"] == "local" and n.decl.i not in inner and \
                    n.type.kind == "ptr" and n.type.ptr_rec() is not None and \
                    "dict" in (n.type.raw["s"]):
                if n.decl not in out:
                    out.append(n.decl)
        if len(out) != 1:
            raise Broken("%s(): the loop over a dictionary is not understood" % f.name)
        return out[0]

    def follow(self, f, pred):
        """the body of the loop over a dictionary, as a function of the cell"""
        ls = []
        for loop, body in self.loops(f, lambda n: True):
            try:
                ls.append((loop, body, self.loopvar(f, loop, body)))
            except Broken:
                pass
        if len(ls) > 1:
            ls = [x for x in ls if any(pred(n) for n in x[1].walk())]
        ls = [x for x in ls if not any(y is not x and any(z is y[0] for z in x[1].walk())
                                       for y in ls)]
        if not ls:
            raise Broken("%s(): no loop over the vertices" % f.name)
        b = Body(f, Once(ls[0][1]))
        b.params = list(f.params) + [ls[0][2]]
        return b

    def add_sweep(self):
        f = self.fn("cq_sweep_add_sweep")
        b = self.follow(f, lambda n: n.k == "CallExpr" and "edge" in (n.callee or ""))
        for side in ("left", "rigt"):
            def setup(m):
                self.put_edge(m, "x", (1, 2), (7, 5))
                m.bitmem = []
                m.mem[("x", self.member)] = var(("old member",))
            base = self.left if side == "left" else self.rigt
            m, ps, out = self.collect(b, [Ptr("D"), Ptr("W"), var(("mask",)),
                                          Ptr("x", base + self.in_agenda)], setup)
            want = {frozenset(((1, 2), (7, 5)))} if side == "left" else set()
            self.judge(f, out, want, "the result of another sweep (%s end)" % side)

    def bundle(self):
        f = self.fn("bundle_edge_new")
        for a, b in (((0, 0), (4, 1)), ((4, 1), (0, 0)), ((2, 7), (2, 3))):
            for dup in (False, True):
                def setup(m):
                    m.bitmem = [("t", self.sum, self.sum + 8, "sum")]
                    self.put_vec(m, "a", 0, a, False)
                    self.put_vec(m, "b", 0, b, False)
                    self.put_edge(m, "o", min(a, b), max(a, b))
                    self.empty_freelist(m)
                    m.sets = {"agenda": {}, "state": {}, "result": {}}

                def hook(m, e):
                    if e.callee.startswith("cp_dict_insert"):
                        c = self.cell(m, e.args[0])
                        if c is not None and c[1] in ("left", "rigt"):
                            if dup:
                                return Ptr("o", (self.left if c[1] == "left" else self.rigt) +
                                           self.in_agenda)
                            self.insert(m, e.args)
                            return Ptr(None, 0)
                    return None
                m, ps = self.paths(f, [Ptr("D"), Ptr("a"), Ptr("b"),
                                       Ptr("t", self.in_tree)], setup, hook=hook)
                for p in ps:
                    self.at(m, p)
                    self.rep.count("line arrangements")
                    if dup:
                        if self.bits(m, "o", self.member) != self.xor("o", "sum"):
                            self.viol(f, "merge", "does not add the membership of the bundle to the "
                                      "edge that is there already")
                        continue
                    es = [x for x in self.edges_of(m, p, ())
                          if (x[0], "left") in p.sets["result"] or self.live(m, x[0])]
                    if [(l, r) for o, l, r, x in es] != [(min(a, b), max(a, b))]:
                        self.viol(f, "edge", "makes another edge than the one of the bundle")
                        continue
                    if es[0][3] != self.xor("sum"):
                        self.viol(f, "sum", "does not give the edge the membership of its whole bundle")
                    for w in ("left", "rigt"):
                        if (es[0][0], w) not in p.sets["result"]:
                            self.viol(f, "result", "does not put the %s end of the edge in the result" % w)

    def sums(self):
        f = self.fn("cq_sweep_bundle_update_sum_member")
        ch = [off(self.prog, self.dictrec(f), "edge") + 8 * i for i in (0, 1)]
        for l in (False, True):
            for r in (False, True):
                def setup(m):
                    m.bitmem = [(x, o, o + 8, n) for x, o, n in
                                (("t", self.member, "member"), ("t", self.sum, "old"),
                                 ("l", self.sum, "lower"), ("l", self.member, "wrong"),
                                 ("r", self.sum, "upper"), ("r", self.member, "wrong"))]
                    for i, (h, n) in enumerate(((l, "l"), (r, "r"))):
                        m.mem[("t", self.in_tree + ch[i])] = Ptr(n, self.in_tree) if h else Ptr(None, 0)
                m, ps = self.paths(f, [Ptr("t", self.in_tree)], setup)
                for p in ps:
                    self.at(m, p)
                    want = self.xor("member", *([] if not l else ["lower"]) + ([] if not r else ["upper"]))
                    self.rep.count("line arrangements")
                    if self.bits(m, "t", self.sum) != want:
                        self.viol(f, "sum", "does not sum up the memberships of a bundle")

    def dictrec(self, f):
        return f.params[0].type.ptr_rec()

    def reduce(self):
        f = self.fn("cq_sweep_reduce")
        b = self.follow(f, lambda n: n.k == "MemberExpr" and n.name == "keep")
        getters = {g.key for g in self.prog.functions.values() if any(
            p.type.kind == "ptr" and "bitmap" in p.type.raw["s"] and "const" in p.type.raw["s"]
            for p in g.params) and len(g.params) in (2, 3) and g.ret.kind != "void" and g is not f}
        if not getters:
            raise Broken("no function that evaluates the Boolean function")
        if len(f.params) != 3:
            raise Broken("%s() has other parameters" % f.name)
        for side, case in (("left", False), ("left", True), ("rigt", False), ("rigt", True)):
            # left: is there an edge below; right: is the edge kept
            prev = side == "left" and case

            def setup(m):
                m.bitmem = []
                self.put_edge(m, "x", (1, 2), (7, 5))
                self.put_edge(m, "p", (0, 0), (9, 1))
                for x in self.xings:
                    for q in "xp":
                        del m.mem[(q, x)]
                m.bitmem += [("p", self.below, self.below + 8, "pb"),
                             ("x", self.below, self.below + 8, "xb")]
                m.sets = {"agenda": {}, "state": {}, "result": {("x", "left"): 1, ("x", "rigt"): 1}}
                if side == "rigt":
                    m.mem[("x", self.keep)] = num(1 if case else 0)
                    m.sets["state"][("x", "tree")] = None

            def hook(m, e):
                if e.f is not None and e.f.key in getters:
                    return num(1 if m.decide(("fn", m.bv(e.args[-1], 64).bits)) else 0)
                if e.callee.startswith(("cp_dict_prev", "cp_dict_step")):
                    if ("x", "tree") not in m.sets["state"]:
                        m.bad.append("asks for the edge below before it knows where the edge is")
                    return Ptr("p", self.in_tree) if prev else Ptr(None, 0)
                return None
            base = self.left if side == "left" else self.rigt
            args = [Ptr("D"), Ptr("comb"), num(1024), Ptr("x", base + self.in_agenda)]
            m, ps = self.paths(b, args, setup, opaque=getters, hook=hook)
            for p in ps:
                self.at(m, p)
                self.rep.count("line arrangements")
                for t in p.bad:
                    self.viol(f, "order", t)
                rem = ("x", side) not in p.sets["result"]
                other = "rigt" if side == "left" else "left"
                if ("x", other) not in p.sets["result"]:
                    self.viol(f, "end", "drops the %s end of an edge at its %s end" % (other, side))
                kept = case
                if side == "left":
                    bl = self.xor("pb", "p") if prev else (ZERO,) * 64
                    got = self.bits(m, "x", self.below)
                    if got != bl:
                        self.viol(f, "below", "computes the polygons below an edge as %s instead of "
                                  "%s" % (got[0], bl[0]))
                    ab = tuple(op2("^", x, inbit("x", i)) for i, x in enumerate(bl))
                    v = [p.conds.get(("fn", q)) for q in (bl, ab)]
                    keep = m.load("x", self.keep, self.booltype())
                    kc = keep.const() if isinstance(keep, P) else None
                    if None in v or kc is None:
                        self.viol(f, "keep", "does not decide about an edge by the Boolean function "
                                  "below and above it")
                        continue
                    kept = v[0] != v[1]
                    if bool(kc) != kept:
                        self.viol(f, "keep", "keeps an edge with the same on both sides or drops "
                                  "the outline")
                elif ("x", "tree") in p.sets["state"]:
                    self.viol(f, "state", "leaves an edge in the state beyond its right end")
                if rem == kept:
                    self.viol(f, side, "%s the %s end of an edge that is %skept" %
                              ("drops" if rem else "leaves", side, "" if kept else "not "))

    def booltype(self):
        from matalg import find
        tu, r = self.prog.records[EDGE]
        return tu.types[find(self.prog, tu, r, "keep")[1]]


class Once:
    """a loop body that is followed once: 'continue' ends it"""
    def __init__(self, body):
        self.k, self.ch, self.macro, self.type, self.raw = "DoOnce", (body,), None, None, {}
