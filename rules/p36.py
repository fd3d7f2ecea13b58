"""P36: ignored children are exactly the documented ones."""
import itertools

from alg import Blob, Machine, P, Ptr, Unsupported, num
from facts import Broken
from matalg import off
from p34 import OPAQUE, Solids, recsize

# the documentation's lists (doc/scadformat.md, "Ignored Children")
GROUPS = ("union", "intersection", "difference", "translate", "scale", "rotate", "mirror",
          "color", "multmatrix", "hull")
FLAT = ("linext", "rotext")                   # IGNORE2D of their children
SOLID = ("polyhedron", "sphere", "cube", "cylinder", "surface")
SHAPE = ("polygon", "circle", "square", "text")
ANY = ("import",)
CUT = ("projection",)
# what a child does: (is it not ignored, what it pushes)
SCRIPTS = ((0, ()), (1, ()), (1, ("leaf",)), (1, ("leaf", "leaf")), (1, ("sub",)), (1, ("sub", "leaf")))


def run(prog, rep):
    rep.rule("each conversion of a functor is followed with children that are ignored, empty but not "
             "ignored, or not empty: the 'not ignored' flag at every successful end is the one that "
             "the documentation defines; the tree that difference and intersection build is, as a "
             "Boolean function of the children's objects, the documented one")
    i = Ignored(prog, rep)
    i.contexts()
    for k in GROUPS + FLAT + CUT:
        i.container(k)
    for k in SOLID + SHAPE + ANY:
        i.primitive(k)
    i.combination("difference")
    i.combination("intersection")
    i.combination("union")
    i.modifier()
    rep.floor("functors", 18)
    rep.floor("paths", 200)
    rep.floor("trees compared", 300)


class Ignored(Solids):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        one = [g for g in prog.functions.values() if self.converts_one(g)]
        if not one:
            raise Broken("no function that converts a SCAD object")
        self.one = {g.key for g in one}
        self.lists = {g.key for g in prog.functions.values() if self.converts_list(g)}
        self.enum = {n: v for l in prog.enums.values() for n, v in l}
        self.script = ()
        self.sev = {}
        self.seen = []

    def converts_one(self, g):
        rs = [p.type.ptr_rec() if p.type.kind == "ptr" else None for p in g.params]
        return ("cp_scad" in rs or "cp_scad_t" in rs) and "cp_v_obj_p_t" in rs and self.flagparam(g) is not None

    def flagparam(self, g):
        """the 'not ignored' flag: a parameter that points to a truth value"""
        for i, p in enumerate(g.params):
            t = p.type
            if t.kind == "ptr" and t.to_t is not None and t.to_t.kind in ("bool", "int") and \
                    t.to_t.raw.get("sz") == 1 and not t.to_t.raw.get("const"):
                return i
        return None

    def ctxt(self, f):
        """(parameter, offset) of the context that says 2D or 3D"""
        for i, p in enumerate(f.params):
            r = p.type.ptr_rec() if p.type.kind == "ptr" else None
            rec = f.tu.records.get(r)
            for x in (rec or {}).get("f", ()):
                if x["n"] == "context":
                    return i, x["off"]
        raise Broken("%s() has no context" % f.name)

    # ------------------------------------------------------------- following
    def follow(self, f, kind, dim, script, initial=0, full=True, sizes=()):
        self.script, self.seen = script, []
        if full:
            m = Machine(self.prog, opaque=OPAQUE, max_paths=600, max_steps=400000)
            m.opaque |= self.one
        else:
            # what is done with an object's data does not matter
            m = Machine(self.prog, opaque={g.key for g in self.prog.functions.values() if g is not f},
                        max_paths=3000, max_steps=400000, havoc_loops=True)
        m.children = set()
        ci, co = self.ctxt(f)
        fi = self.flagparam(f)
        args = self.args(f, kind)
        args[fi], args[ci] = Ptr("no", 0), Ptr("c", 0)
        child = None
        if kind in GROUPS + FLAT + CUT:
            child = off(self.prog, "cp_scad_%s_t" % kind, "child")

        def setup(m):
            m.store("no", 0, num(initial), None)
            m.store("c", co, num(dim), None)
            m.store("r", 0, Blob(64, {}, [(0, 64, None, 0)]), None)
            for o, n in sizes:
                m.store("s", o + self.vec["size"], num(n), None)
            if child is not None:
                m.store("s", child + self.vec["data"], Ptr("ch", 0), None)
                m.store("s", child + self.vec["size"], num(len(script)), None)
                for i in range(len(script)):
                    m.store("ch", 8 * i, Ptr("child%d" % i, 0), None)

        def hook(m, e):
            return self.event36(m, e, co, full)

        m.on_event = hook
        try:
            paths = m.paths(f, args, setup)
        except Unsupported as e:
            if full:
                raise Broken("cannot follow %s(): %s" % (f.name, e))
            raise
        r = []
        for p in paths:
            self.rep.count("paths")
            v = p.ret
            if isinstance(v, P) and v.const() == 0:
                continue
            r.append(p)
        return r

    def event36(self, m, e, co, full):
        g = e.f
        if g is not None and g.key in self.one:
            self.restore(m, e)
            who = [a for a in e.args if isinstance(a, Ptr) and str(a.obj).startswith("child")]
            if len(who) != 1:
                raise Unsupported("conversion of something else than a child")
            i = int(who[0].obj[5:])
            ci, _ = self.ctxt(g)
            c = e.args[ci]
            dim = self.const(m.mem, m.dflt, c.obj, c.off + co) if isinstance(c, Ptr) else None
            self.seen.append((i, dim))
            m.store("seen", 0, num(1), None)
            flag, objs = self.script[i]
            no = e.args[self.flagparam(g)]
            rs = [a for a, q in zip(e.args, g.params)
                  if q.type.kind == "ptr" and q.type.ptr_rec() == "cp_v_obj_p_t"]
            if not isinstance(no, Ptr) or len(rs) != 1 or not isinstance(rs[0], Ptr):
                raise Unsupported("conversion of a child without result")
            if flag:
                m.store(no.obj, no.off, num(1), None)
            for j, k in enumerate(objs):
                self.push(m, rs[0], self.leaf(m, i, j, k))
            return num(1)
        if not full:
            # what it fills in is unknown, but the flag is handed on as such only
            if not any(isinstance(a, Ptr) and a.obj == "no" for a in e.args) and \
                    e.mem.get(("no", 0)) is not None:
                m.mem["no", 0] = e.mem["no", 0]
            t = e.call.type
            if t is not None and t.kind == "ptr":
                return Ptr(m.fresh("ret"), 0)
            if t is not None and t.kind in ("int", "bool", "enum"):
                return num(1 if t.kind == "bool" else 0)
            return None
        if g is not None and "cp_err_t" in [
                q.type.ptr_rec() for q in g.params if q.type.kind == "ptr"] and \
                g.decl.type.raw.get("variadic"):
            self.restore(m, e)
            for i, (a, q) in enumerate(zip(e.args, g.params)):
                if q.type.kind in ("enum", "int") and isinstance(a, P):
                    return num(self.severity(g, i, a))
            return num(1)
        if e.callee == "cp_csg2_flatten":
            self.restore(m, e)
            return Ptr(None, 0)
        if g is not None and "cp_v_scad_p_t" not in [
                q.type.ptr_rec() for q in g.params if q.type.kind == "ptr"] and \
                any(isinstance(a, Ptr) and a.obj in ("no", "r") for a in e.args) and \
                e.callee not in OPAQUE:
            raise Unsupported("call of %s()" % e.callee)
        if e.callee in OPAQUE or e.callee == "?":
            return self.event(m, e, 3, None)
        self.restore(m, e)
        return None

    def severity(self, g, i, a):
        """does the construction go on after a message of this severity"""
        if a.const() is None:
            return 1                       # an option: it may be ignored
        k = int(a.const())
        if k not in self.sev:
            fs = [h for h in self.prog.functions.values() if h.relfile == g.relfile]
            m = Machine(self.prog, opaque={h.key for h in self.prog.functions.values()
                                           if h not in fs}, max_paths=200, max_steps=20000)
            args = [Ptr(q.name, 0) for q in g.params]
            args[i] = a
            m.on_event = lambda m, e: self.restore(m, e)
            try:
                rs = {p.ret.const() if isinstance(p.ret, P) else None for p in m.paths(g, args)}
            except Unsupported:
                rs = {None}
            self.sev[k] = 0 if rs == {0} else 1 if rs == {1} else None
            if self.sev[k] is None:
                self.sev[k] = 0 if k == 0 else 1
                self.rep.assume("a message of severity %d ends the run: %s" % (k, k == 0))
        return self.sev[k]

    def push(self, m, r, o):
        v = self.vecof(m, r)
        if v is None:
            raise Unsupported("list of unknown size")
        if v[0] is None:
            d = self.zeroed(m, 1 << 12)
            m.store(r.obj, r.off + self.vec["data"], d, None)
            v = (d.obj, d.off, v[2])
        m.store(v[0], v[1] + 8 * v[2], o, None)
        m.store(r.obj, r.off + self.vec["size"], num(v[2] + 1), None)

    def leaf(self, m, i, j, kind):
        o = "leaf%d_%d" % (i, j) if kind == "leaf" else m.fresh("sub")
        m.store(o, 0, Blob(256, {}, [(0, 256, None, 0)]), None)
        ty = off(self.prog, "cp_csg3_t", "type") if "cp_csg3_t" in self.prog.records else 0
        if kind == "leaf":
            m.store(o, ty, num(self.enum["CP_CSG3_POLY"]), None)
            return Ptr(o, 0)
        m.store(o, off(self.prog, "cp_csg_sub_t", "type"), num(self.enum["CP_CSG_SUB"]), None)
        for side in ("add", "sub"):
            a = o + side
            m.store(a, 0, Blob(256, {}, [(0, 256, None, 0)]), None)
            m.store(a, off(self.prog, "cp_csg_add_t", "type"), num(self.enum["CP_CSG_ADD"]), None)
            m.store(o, off(self.prog, "cp_csg_sub_t", side), Ptr(a, 0), None)
            l = "leaf%d_%d%s" % (i, j + 5, side)
            m.store(l, 0, Blob(256, {}, [(0, 256, None, 0)]), None)
            m.store(l, ty, num(self.enum["CP_CSG3_POLY"]), None)
            self.push(m, Ptr(a, off(self.prog, "cp_csg_add_t", "add")), Ptr(l, 0))
        return Ptr(o, 0)

    # ------------------------------------------------------------- results
    def flag(self, p):
        v = p.mem.get(("no", 0))
        return v.const() if isinstance(v, P) else None

    def tree(self, p, l):
        """the objects of a list as an expression"""
        n = self.const(p.mem, p.dflt, l.obj, l.off + self.vec["size"])
        if n is None:
            raise Unsupported("size of a list")
        d = self.get(p.mem, p.dflt, l.obj, l.off + self.vec["data"])
        r = []
        for i in range(n):
            o = self.get(p.mem, p.dflt, d.obj, d.off + 8 * i)
            if not isinstance(o, Ptr) or o.obj is None:
                raise Unsupported("element of a list")
            r.append(self.node(p, o))
        return r

    def node(self, p, o):
        t = self.const(p.mem, p.dflt, o.obj, o.off + off(self.prog, "cp_csg_add_t", "type"))
        kinds = {self.enum[k]: k for k in ("CP_CSG_ADD", "CP_CSG_SUB", "CP_CSG_CUT", "CP_CSG_XOR")}
        k = kinds.get(t)
        if k is None:
            return ("leaf", o.obj)
        if k == "CP_CSG_ADD":
            return ("or", self.tree(p, Ptr(o.obj, o.off + off(self.prog, "cp_csg_add_t", "add"))))
        if k == "CP_CSG_SUB":
            q = [self.get(p.mem, p.dflt, o.obj, o.off + off(self.prog, "cp_csg_sub_t", s))
                 for s in ("add", "sub")]
            if any(not isinstance(x, Ptr) or x.obj is None for x in q):
                raise Unsupported("operand of a difference")
            return ("sub", [self.node(p, x) for x in q])
        n = "cut" if k == "CP_CSG_CUT" else "xor"
        return (n, self.tree(p, Ptr(o.obj, o.off + off(self.prog, "cp_csg_%s_t" % n, n))))

    # ------------------------------------------------------------- checks
    def contexts(self):
        """the values that mean 2D and 3D: the context in which circles and cubes are made"""
        r = {}
        for kind, n in (("circle", "2D"), ("cube", "3D")):
            f = self.handler(kind)
            fi = self.flagparam(f)
            if fi is None:
                raise Broken("%s() has no 'not ignored' flag" % f.name)
            for v in (0, 1):
                for p in self.follow(f, kind, v, ()):
                    if self.objects(p):
                        r.setdefault(n, set()).add(v)
        if any(len(x) != 1 for x in r.values()) or len(r) != 2 or r["2D"] == r["3D"]:
            raise Broken("contexts are not told apart")
        self.dim = {k: min(v) for k, v in r.items()}

    def container(self, kind):
        rep = self.rep
        f = self.handler(kind) if kind != "union" else self.union()
        w = f.body.where()
        rep.count("functors")
        inner = {"linext": "2D", "rotext": "2D", "projection": "3D"}.get(kind)
        for dn, dim in sorted(self.dim.items()):
            # used in a wrong context: the documentation and the code disagree; see DESIGN.md
            wrong = (kind, dn) in (("hull", "3D"), ("linext", "2D"), ("rotext", "2D"),
                                   ("projection", "3D"))
            for script in ((), (0,), (1,), (2,), (1, 0), (0, 1), (0, 0), (0, 2, 0)):
                sc = [SCRIPTS[i] for i in script]
                for initial in (0, 1):
                    want = 1 if initial or any(s[0] for s in sc) else 0
                    for p in self.follow(f, kind, dim, sc, initial):
                        if wrong and ("seen", 0) not in p.mem:
                            continue
                        rep.count("flags compared")
                        if self.flag(p) != want:
                            how = "flag" if ("seen", 0) in p.mem else "unconverted"
                            rep.viol("%s:%s:%s" % (how, kind, dn), w, "%s in %s context is %s although %s" % (
                                kind + (", without looking at its children," if how != "flag" else ""), dn, "ignored" if want else "not ignored",
                                "a child is not ignored" if any(s[0] for s in sc) else
                                "there was an object before" if initial else
                                "all its children are ignored" if sc else "it has no children"))
                            break
                    for i, d in self.seen:
                        rep.count("contexts of children")
                        want_d = self.dim[inner] if inner else dim
                        if d != want_d:
                            rep.viol("context:%s" % kind, w, "%s does not convert its children as %s "
                                     "objects" % (kind, inner or dn))
                            return

    def union(self):
        f = [g for g in self.prog.functions.values()
             if "cp_scad_rec_t" in [p.type.ptr_rec() for p in g.params if p.type.kind == "ptr"] and
             self.flagparam(g) is not None and "cp_v_obj_p_t" in [
                 p.type.ptr_rec() for p in g.params if p.type.kind == "ptr"]]
        if len(f) == 1:
            return f[0]
        return self.handler("union")

    def args(self, f, kind):
        r = super().args(f, kind)
        for i, p in enumerate(f.params):
            if p.type.kind == "ptr" and p.type.ptr_rec() == "cp_scad_rec_t":
                r[i] = Ptr("s")
        return r

    def primitive(self, kind):
        rep = self.rep
        f = self.handler(kind)
        w = f.body.where()
        rep.count("functors")
        for dn, dim in sorted(self.dim.items()):
            full = kind not in ("import", "surface", "text")
            sizes = [()]
            if kind in ("polyhedron", "polygon"):
                p = off(self.prog, "cp_scad_%s_t" % kind, "points")
                sizes = [[(p, 0)]]
                if kind == "polyhedron":
                    sizes.append([(p, 4), (off(self.prog, "cp_scad_polyhedron_t", "faces"), 0)])
            try:
                ps = [p for z in sizes for p in self.follow(f, kind, dim, (), 0, full, z)]
            except Unsupported as e:
                if full:
                    raise Broken("cannot follow %s(): %s" % (f.name, e))
                if kind in ANY:
                    self.marked(kind, f)
                    break
                raise Broken("cannot follow %s(): %s" % (f.name, e))
            want = 0 if dn == "2D" and kind in SOLID else 1
            if kind in ANY and dn == "2D":
                # IGNORE2D(import) is about 3D files: either is in order
                continue
            for p in ps:
                rep.count("flags compared")
                if self.flag(p) != want:
                    rep.viol("flag:%s:%s" % (kind, dn), w, "%s in %s context is %s" % (
                        kind, dn, "ignored" if want else "not ignored"))
                    break

    def marked(self, kind, f):
        """on each path to a return other than of 'false', the flag was set or handed on"""
        no = f.params[self.flagparam(f)]

        def sets(n):
            for x in n.walk():
                if x.k == "DeclRefExpr" and x.decl is no:
                    return True
            return False

        todo, done = [f.entry], set()
        while todo:
            b = todo.pop()
            if b.id in done:
                continue
            done.add(b.id)
            stop = False
            for n in b.elems:
                if sets(n):
                    stop = True
                    break
                if n.k == "ReturnStmt":
                    stop = True
                    v = n.ch[0].strip() if n.ch else None
                    if v is None or v.val != 0:
                        self.rep.viol("flag:" + kind, n.where(), "%s can be ignored" % kind)
                        return
            if not stop:
                todo += [x for x in b.succs if x is not None]
        self.rep.count("flags compared")

    def combination(self, kind):
        rep = self.rep
        f = self.handler(kind) if kind != "union" else self.union()
        w = f.body.where()
        for n in range(0, 4):
            for script in itertools.product(range(6), repeat=n):
                if n == 3 and sum(i in (3, 4, 5) for i in script) > 1:
                    continue
                sc = [SCRIPTS[i] for i in script]
                want = self.wanted(kind, sc)
                for p in self.follow(f, kind, self.dim["3D"], sc):
                    rep.count("trees compared")
                    try:
                        got = ("or", self.tree(p, Ptr("r", 0)))
                    except Unsupported as e:
                        raise Broken("%s(): %s" % (f.name, e))
                    d = differ(got, want)
                    if d is not None:
                        rep.viol("tree:" + kind, w, "%s of %s is %s instead of %s" % (
                            kind, say(sc), brief(got), brief(want)))
                        return

    def wanted(self, kind, sc):
        kids = []
        for i, (flag, objs) in enumerate(sc):
            if not flag:
                continue
            l = []
            for j, k in enumerate(objs):
                if k == "leaf":
                    l.append(("leaf", "leaf%d_%d" % (i, j)))
                else:
                    l.append(("sub", [("leaf", "leaf%d_%dadd" % (i, j + 5)),
                                      ("leaf", "leaf%d_%dsub" % (i, j + 5))]))
            kids.append(("or", l))
        if not kids:
            return ("or", [])
        if kind == "intersection":
            return ("cut", kids)
        if kind == "difference":
            return ("sub", [kids[0], ("or", kids[1:])])
        return ("or", kids)

    def modifier(self):
        """an object with the modifier * is not converted, and ignored"""
        rep = self.rep
        bit = self.enum.get("CP_GC_MOD_IGNORE")
        if bit is None:
            bit = 1 << 3
            rep.assume("modifiers are not named as before")
            return
        mo = off(self.prog, "cp_scad", "modifier")
        ty = off(self.prog, "cp_scad", "type")
        for key in sorted(self.one):
            f = self.prog.functions[key]
            m = Machine(self.prog, opaque={g.key for g in self.prog.functions.values() if g is not f},
                        max_paths=3000, max_steps=400000)
            ci, co = self.ctxt(f)
            args = [Ptr("s" if p.type.kind == "ptr" and p.type.ptr_rec() in ("cp_scad", "cp_scad_t") else
                        "no" if i == self.flagparam(f) else "c" if i == ci else p.name, 0)
                    for i, p in enumerate(f.params)]
            for given in (0, bit, bit | bit << 1, bit | bit >> 1):
                calls = []

                def setup(m):
                    m.store("no", 0, num(0), None)
                    m.store("s", mo, num(given), None)
                    m.store("s", ty, num(self.enum["CP_SCAD_CUBE"]), None)
                    so = None
                    for x in f.tu.records[f.params[ci].type.ptr_rec()]["f"]:
                        if "search" in x["n"]:
                            so = x["off"]
                    if so is not None:
                        m.store("c", so, Ptr(None, 0), None)

                def hook(m, e):
                    self.restore(m, e)
                    if any(isinstance(a, Ptr) and a.obj == "no" for a in e.args):
                        calls.append(e)
                        m.store("no", 0, num(1), None)
                        return num(1)
                    return None

                m.on_event = hook
                try:
                    ps = m.paths(f, args, setup)
                except Unsupported as e:
                    raise Broken("cannot follow %s(): %s" % (f.name, e))
                for p in ps:
                    rep.count("paths")
                    rep.count("modifiers compared")
                    if given and (self.flag(p) != 0 or calls):
                        rep.viol("modifier", f.body.where(), "an object with the modifier '*' is "
                                 "not ignored")
                        return
                    if not given and not calls:
                        rep.viol("modifier", f.body.where(), "an object without modifier is ignored")
                        return


def leaves(x, r):
    if x[0] == "leaf":
        r.add(x[1])
    else:
        for y in x[1]:
            leaves(y, r)
    return r


def ev(x, on):
    k = x[0]
    if k == "leaf":
        return x[1] in on
    if k == "or":
        return any([ev(y, on) for y in x[1]])
    if k == "cut":
        return bool(x[1]) and all([ev(y, on) for y in x[1]])
    if k == "xor":
        return sum(ev(y, on) for y in x[1]) % 2 == 1
    return ev(x[1][0], on) and not ev(x[1][1], on)


def differ(a, b):
    ls = sorted(leaves(a, set()) | leaves(b, set()))
    for bits in range(1 << len(ls)):
        on = {l for i, l in enumerate(ls) if bits >> i & 1}
        if ev(a, on) != ev(b, on):
            return on
    return None


def brief(x):
    if x[0] == "leaf":
        return x[1].replace("leaf", "object")
    op = {"or": " + ", "cut": " * ", "xor": " ^ ", "sub": " - "}[x[0]]
    return "(" + op.join(brief(y) for y in x[1]) + ")" if x[1] else "nothing"


def say(sc):
    return "[%s]" % ", ".join("an ignored child" if not f else "an empty child" if not o else
                              "%d object%s" % (len(o), "s" * (len(o) > 1)) if o[0] == "leaf" else
                              "a difference" for f, o in sc)
