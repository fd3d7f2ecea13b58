"""P29: Boolean operations compute the operation they are named after."""
import re

from alg import Blob, P, Ptr, Unsupported, num
from bits import BV, Bit, Bits, ONE, ZERO, const_bit, inbit, neg, op2
from canon import canon
from facts import Broken
from flow import Env, NZ
from inline import InlineExplorer, reach
from matalg import off

OPS = {"CP_OP_CUT": lambda r, b: r & b, "CP_OP_XOR": lambda r, b: r ^ b,
       "CP_OP_SUB": lambda r, b: r & ~b & 1, "CP_OP_ADD": lambda r, b: r | b}
# container type -> operation that joins its operands
KIND = {"cp_csg_cut_t": "CP_OP_CUT", "cp_csg_xor_t": "CP_OP_XOR", "cp_csg_sub_t": "CP_OP_SUB",
        "cp_csg_add_t": "CP_OP_ADD", "cp_v_obj_p_t": "CP_OP_ADD"}
TAG = {"cp_csg_cut_t": "CP_CSG_CUT", "cp_csg_xor_t": "CP_CSG_XOR", "cp_csg_sub_t": "CP_CSG_SUB",
       "cp_scad_difference_t": "CP_CSG_SUB", "cp_scad_intersection_t": "CP_CSG_CUT"}


class Part:
    """passes on what another rule finds about combinations"""
    def __init__(self, rep, keep):
        self.rep, self.keep = rep, keep

    def __getattr__(self, n):
        return getattr(self.rep, n)

    def floor(self, *a):
        pass

    def viol(self, key, where, text):
        if key.split(":")[0] in self.keep:
            self.rep.viol(key, where, text)


def whole(prog, rep):
    """the trees that the combinations are made from, and what comes out in the layers"""
    import p36
    import p38
    i = p36.Ignored(prog, rep)
    i.contexts()
    for k in ("difference", "intersection", "union"):
        i.combination(k)
    rep.floor("trees compared", 300)
    s = p38.Layers(prog, Part(rep, {"combination", "missing"}))
    for c in p38.CASES:
        if not c[3]:
            s.pipeline(*c)
    rep.floor("combinations of bodies compared", 1000)


def opty(t):
    return t.raw["s"].replace("const ", "").strip() in ("cp_bool_op_t", "enum cp_bool_op_t") or \
        "bool_op" in t.raw["s"]


def base(t):
    """name of the struct a pointer parameter points to"""
    m = re.match(r"(?:const )?(\w+)(?: const)? \*(?: ?const)?$", t.raw["s"])
    return m.group(1) if m else None


def run(prog, rep):
    rep.rule("the combination function is evaluated per operation as a truth table of its word "
             "expressions and compared with union, intersection, difference and exclusive or; "
             "per operation and emptiness of the operands, every path of the lazy combination "
             "that returns without combining must leave what the truth table says; every call "
             "of the combination passes the operation that belongs to the container whose "
             "operands it joins; positive and negative operands are not exchanged; conversions "
             "build the same kind of container; the trees that union, intersection, and difference make, and "
             "the combination of a tree's bodies that comes out in a layer, are as Boolean functions the "
             "ones the source names")
    ops = dict((n, v) for e in prog.enums.values() for n, v in e if n in OPS)
    if len(ops) != 4:
        raise Broken("the operations CP_OP_* have vanished")
    live = reach(prog)
    # the functions that combine bitmaps: (bitmap *, const bitmap *, ..., op)
    comb = [f for k in sorted(live) for f in [prog.functions[k]]
            if any(opty(p.type) for p in f.params) and bitmaps(f)[0] is not None and
            bitmaps(f)[1] is not None]
    if not comb:
        raise Broken("no function combines two inside-bitmaps by an operation")
    for f in comb:
        table(prog, rep, f, ops)
    rep.floor("truth tables of combination functions", 4)
    names = {f.name for f in comb}
    lazy = [f for k in sorted(live) for f in [prog.functions[k]]
            if any(opty(p.type) for p in f.params) and f not in comb and
            any(n.callee in names for n in f.calls())]
    for f in lazy:
        shortcuts(prog, rep, f, ops, names)
    rep.floor("operation/emptiness cases of the lazy combination", 16)
    l = Layout(prog, rep, live, lazy)
    for f in lazy:
        l.combine(f, ops)
    rep.floor("entries of truth tables", 20000)
    l.getters()
    rep.floor("entries asked for", 70)
    l.eager()
    rep.floor("ways to give operands to the sweep", 12)
    l.leaves()
    rep.floor("ways to start with one polygon", 2)
    joins(prog, rep, live, {f.name for f in lazy} | names, ops, set(lazy) | set(comb))
    rep.floor("calls that join operands", 4)
    builders(prog, rep, live)
    rep.floor("functions that build Boolean containers", 5)
    whole(prog, rep)


def bitmaps(f):
    r = b = None
    for p in f.params:
        s = p.type.raw["s"]
        if "bitmap" in s and p.type.kind == "ptr":
            if "const" in s:
                b = b or p
            else:
                r = r or p
    return r, b


class Table(InlineExplorer):
    """assignments to words of the result bitmap"""
    roles = None
    carry = ("sites",)

    def inline(self, g, call):
        return g.relfile == self.f.relfile

    def entering(self, call, env, child, seed):
        c = canon(self.f)
        child.roles = {}
        for p, a in zip(child.f.params, call.args):
            r = self.role(c.of(a))
            if r:
                child.roles[p.i] = r

    def role(self, t):
        while t[0] in (".", "[]", "*", "&"):
            t = t[1]
        if t[0] == "lin":
            for a, v in t[1]:
                if self.role(a):
                    return self.role(a)
        return self.roles.get(t[1]) if t[0] == "v" else None

    def on_element(self, n, env):
        if n.k == "CompoundAssignOperator" or n.k == "BinaryOperator" and n.op == "=":
            c = canon(self.f)
            l = c.of(n.ch[0])
            if l[0] in ("[]", "*") and self.role(l) == "r":
                tt = self.tt(n.ch[1])
                if n.op != "=" and tt is not None:
                    a = (0, 0, 1, 1)
                    tt = tuple(bitop(n.op[:-1], x, y) for x, y in zip(a, tt))
                    if None in tt:
                        tt = None
                self.shared.append((tt, n, self.index_ok(n)))
        return True

    def index_ok(self, n):
        """r and b are accessed at the same place"""
        c = canon(self.f)
        ix = set()
        for m in n.walk():
            if m.k == "ArraySubscriptExpr":
                ix.add(c.of(m.ch[1]))
        return len(ix) <= 1

    def tt(self, n):
        """truth table over (r, b) = 00 01 10 11"""
        n = n.strip()
        c = canon(self.f)
        if n.k == "ParenExpr":
            return self.tt(n.ch[0])
        if n.k == "UnaryOperator" and n.op == "~":
            a = self.tt(n.ch[0])
            return None if a is None else tuple(1 - x for x in a)
        if n.k == "BinaryOperator":
            a, b = self.tt(n.ch[0]), self.tt(n.ch[1])
            if a is None or b is None:
                return None
            r = tuple(bitop(n.op, x, y) for x, y in zip(a, b))
            return None if None in r else r
        t = c.of(n)
        if t[0] in ("[]", "*"):
            r = self.role(t)
            if r == "r":
                return (0, 0, 1, 1)
            if r == "b":
                return (0, 1, 0, 1)
        if t[0] == "lin" and not t[1]:
            return (0,) * 4 if t[2] == 0 else (1,) * 4 if t[2] == -1 else None
        if n.k == "DeclRefExpr" and n.decl.raw["k"] == "local":
            i = c.ini.get(n.decl.i)
            if i is not None and n.decl.i not in c.bad:
                return self.tt(i)
        return None


def bitop(op, x, y):
    if op == "&":
        return x & y
    if op == "|":
        return x | y
    if op == "^":
        return x ^ y
    return None


def table(prog, rep, f, ops):
    r, b = bitmaps(f)
    opd = [p for p in f.params if opty(p.type)][0]
    for name, v in sorted(ops.items()):
        got = []
        x = Table(prog, f, got)
        x.roles = {r.i: "r", b.i: "b"}
        x.run(env=Env({(opd.i,): v, (r.i,): NZ, (b.i,): NZ}))
        want = tuple(OPS[name](p, q) for p, q in ((0, 0), (0, 1), (1, 0), (1, 1)))
        rep.count("truth tables of combination functions")
        if not got:
            rep.viol("%s:%s" % (f.key, name), "%s:%d" % (f.relfile, f.line),
                     "%s() leaves the result unchanged for %s" % (f.name, name))
        for tt, n, ok in got:
            if tt is None:
                rep.count("word expressions not understood")
            elif tt != want:
                rep.viol("%s:%s" % (f.key, name), n.where(),
                         "%s() computes %s for %s where %s is right (result, operand = 00 01 10 "
                         "11)" % (f.name, "".join(map(str, tt)), name, "".join(map(str, want))))
            elif not ok:
                rep.viol("%s:%s:index" % (f.key, name), n.where(),
                         "%s() combines words at different places" % f.name)
            rep.sample("truth table", "%s %s: %s" % (f.name, name, tt))


class Short(InlineExplorer):
    roles = None
    carry = ("zero", "swap", "comb", "spoilt")
    writeback = True

    def inline(self, g, call):
        return g.relfile == self.f.relfile and g.name not in self.shared["stop"] and \
            any(self.rolearg(a) for a in call.args) and not sweeps(self.prog, g)

    def rolearg(self, a):
        t = canon(self.f).of(a)
        return self.roles.get(t[1]) if t[0] == "v" else None

    def entering(self, call, env, child, seed):
        child.roles = {}
        for p, a in zip(child.f.params, call.args):
            r = self.rolearg(a)
            if r:
                child.roles[p.i] = r

    def on_element(self, n, env):
        c = canon(self.f)
        if n.k == "CallExpr":
            rs = [self.rolearg(a) for a in n.args]
            if n.callee in ("memset", "__builtin_memset") and rs and rs[0]:
                if n.args[1].val == 0:
                    env.set(("x", "zero" if rs[0] == "r" else "spoilt"), 1)
            elif n.callee in self.shared["comb"]:
                env.set(("x", "comb"), 1)
        elif n.k == "BinaryOperator" and n.op == "=":
            l = c.of(n.ch[0])
            r = c.of(n.ch[1])
            if l[0] == "*" and self.isrole(l[1], "r"):
                if r[0] == "*" and self.isrole(r[1], "b"):
                    env.set(("x", "swap"), 1)
                else:
                    env.set(("x", "zero"), 1)
            elif l[0] == "." and l[2] == "size" and l[1][0] == "*" and self.isrole(l[1][1], "r") \
                    and n.ch[1].val == 0:
                env.set(("x", "zero"), 1)
        return True

    def assume(self, n, t, env):
        q = n.strip() if n is not None else None
        if q is not None and q.k == "BinaryOperator" and q.op in ("==", "!="):
            rs = [self.rolearg(a) for a in q.ch]
            if all(rs) and rs[0] != rs[1] and t == (q.op == "=="):
                return False               # the operands are different objects
        return super().assume(n, t, env)

    def isrole(self, t, r):
        return t[0] == "v" and self.roles.get(t[1]) == r

    def done(self, env, n):
        if self.idepth == 0:
            self.shared["ends"].append((env.get(("x", "zero")), env.get(("x", "swap")),
                                        env.get(("x", "comb")), n))

    def on_return(self, n, env, val):
        self.done(env, n)
        super().on_return(n, env, val)

    def on_exit(self, env):
        if self.f.ret.kind == "void":
            self.done(env, None)
        super().on_exit(env)


def sweeps(prog, g):
    return any((c.callee or "").startswith("cq_sweep") for c in g.calls())


def shortcuts(prog, rep, f, ops, names):
    lz = [p for p in f.params if p.type.kind == "ptr" and "lazy" in p.type.raw["s"]]
    if len(lz) < 2:
        rep.count("combining functions without lazy operands")
        return
    r, b = lz[:2]
    opd = [p for p in f.params if opty(p.type)][0]
    for name, v in sorted(ops.items()):
        for rz in (0, 1):
            for bz in (0, 1):
                sh = {"ends": [], "comb": names, "stop": ()}
                x = Short(prog, f, sh)
                x.roles = {r.i: "r", b.i: "b"}
                env = {(opd.i,): v, (r.i,): NZ, (b.i,): NZ,
                       (r.i, ".size"): NZ if rz else 0, (b.i, ".size"): NZ if bz else 0}
                for p in f.params:
                    if "cp_csg_opt_t" in p.type.raw["s"]:
                        env[(p.i, ".optimise")] = 0xffff   # all shortcuts on
                x.run(env=Env(env))
                rep.count("operation/emptiness cases of the lazy combination")
                if not sh["ends"]:
                    rep.viol("%s:%s:%d%d:none" % (f.key, name, rz, bz),
                             "%s:%d" % (f.relfile, f.line), "%s() never returns for %s"
                             % (f.name, name))
                op = OPS[name]
                for zero, swap, cmb, n in sh["ends"]:
                    if cmb:
                        continue
                    if rz and bz:
                        # an operand may have turned out empty on the way: the cases with that
                        # operand empty judge the path
                        continue
                    # what the result is when one operand is empty
                    if not rz and not bz:
                        continue          # empty with empty is empty either way
                    keep = op(1, 0) if rz else op(0, 1)
                    if rz:
                        ok = bool(zero or swap) != bool(keep)
                    else:
                        ok = bool(swap) == bool(keep)
                    if not ok:
                        rep.viol("%s:%s:%d%d" % (f.key, name, rz, bz),
                                 n.where() if n is not None else "%s:%d" % (f.relfile, f.line),
                                 "%s(): with an empty %s operand, %s must %s the other one"
                                 % (f.name, "right" if rz else "left", name,
                                    "keep" if keep else "drop"))


def lazyrec(prog, f):
    for p in f.params:
        if p.type.kind == "ptr" and "lazy" in p.type.raw["s"]:
            return p.type.ptr_rec()
    return None


class Layout:
    """the truth table of combined operands, bit by bit"""
    def __init__(self, prog, rep, live, lazy):
        self.prog, self.rep = prog, rep
        self.sweeping = {f.key for f in prog.functions.values() if sweeps(prog, f)}
        self.rec = None
        for f in lazy:
            self.rec = lazyrec(prog, f) or self.rec
        if self.rec is None:
            raise Broken("the record of operands not yet combined has vanished")
        o = lambda x: off(prog, self.rec, x)
        self.size, self.data, self.comb = o("size"), o("data"), o("comb")
        self.max = (self.comb - self.data) // 8
        if not 2 <= self.max <= 16:
            raise Broken("the number of operands combined at once is not understood")
        self.bytes = max(8, (1 << self.max) // 8)
        self.live = live

    def operand(self, m, name, n):
        m.mem[(name, self.size)] = num(n)
        for i in range(n):
            m.mem[(name, self.data + 8 * i)] = Ptr("%s%d" % (name, i), 0)
        m.bitmem.append((name, self.comb, self.comb + self.bytes, name))
        if n == 0:
            # nothing is inside of nothing
            self.setbits(m, name, (ZERO,))

    def setbits(self, m, name, bits):
        b = list(m.byte(name, self.comb))
        b[:len(bits)] = bits
        m.mem[(name, self.comb)] = BV(b)

    def table(self, m, name):
        """(names of the operands, bits) of a combination"""
        n = m.mem.get((name, self.size))
        if n is None and any(lo <= self.size < hi and src is None
                             for lo, hi, src, so in m.dflt.get(name, ())[-1:]):
            n = num(0)
        n = n.const() if isinstance(n, P) else None
        if n is None or not 0 <= n <= self.max:
            return None
        n = int(n)
        d = []
        for i in range(n):
            v = m.mem.get((name, self.data + 8 * i))
            if v is None:
                v = m.load(name, self.data + 8 * i, self.ptr)
            if not isinstance(v, Ptr) or v.obj is None:
                return None
            d.append(v.obj)
        bits = []
        for k in range(1 << n):
            if k % 8 == 0:
                by = m.byte(name, self.comb + k // 8)
            bits.append(by[k % 8])
        return d, bits

    def combine(self, f, ops):
        lz = [i for i, p in enumerate(f.params) if p.type.kind == "ptr" and
              "lazy" in p.type.raw["s"]]
        opt = [i for i, p in enumerate(f.params) if "cp_csg_opt_t" in p.type.raw["s"]]
        opd = [i for i, p in enumerate(f.params) if opty(p.type)]
        if len(lz) != 2 or not opd:
            self.rep.count("combining functions without lazy operands")
            return
        self.ptr = [p.type for p in f.params if p.type.kind == "ptr"][0]
        M = self.max
        pairs = [(m, n) for m in range(M + 1) for n in range(M + 1) if m + n <= M]
        more = [(M, M), (M, 1), (1, M), (M // 2 + 1, M // 2 + 1), (3, M - 1), (M - 1, 3)]
        few = {(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (3, 2), (4, 4), (2, 7), (7, 3), (M, M)}
        for name, v in sorted(ops.items()):
            for m, n in pairs + more:
                if name != "CP_OP_SUB" and (m, n) not in few:
                    continue
                for skip in (0, 0xffff):
                    if skip and m and n:
                        continue
                    self.one(f, lz, opt, opd[0], name, v, m, n, skip)

    def one(self, f, lz, opt, opd, name, v, m_, n_, skip):
        args = []
        for i, p in enumerate(f.params):
            args.append(Ptr("R") if i == lz[0] else Ptr("B") if i == lz[1] else num(v) if i == opd
                        else Ptr("arg%d" % i) if p.type.kind == "ptr" else num(0))

        def setup(m):
            m.bitmem = []
            m.distinct = {"R", "B"}
            self.operand(m, "R", m_)
            self.operand(m, "B", n_)
            m.sub = {}
            for i in opt:
                r = f.params[i].type.ptr_rec()
                m.mem[("arg%d" % i, off(self.prog, r, "max_simultaneous"))] = num(self.max)
                m.mem[("arg%d" % i, off(self.prog, r, "optimise"))] = num(skip)

        def on_event(m, e):
            if e.f is not None and e.f.key in self.sweeping:
                m.mem, m.dflt = dict(e.mem), {k: list(x) for k, x in e.dflt.items()}
                for a in e.args:
                    if isinstance(a, Ptr) and a.obj in ("R", "B") and a.off == 0:
                        t = self.table(m, a.obj)
                        if t is None:
                            raise Unsupported("operands")
                        o = m.fresh("sweep")
                        m.sub[o] = t
                        m.mem[(a.obj, self.size)] = num(1)
                        m.mem[(a.obj, self.data)] = Ptr(o, 0)
                        self.setbits(m, a.obj, (ZERO, ONE))
                return num(0)
            return None
        m = Bits(self.prog, opaque=self.sweeping)
        m.on_event = on_event
        ends = []
        m.on_end = lambda r, mm: ends.append((self.table(mm, "R"), dict(mm.sub)))
        try:
            m.paths(f, args, setup)
        except Unsupported as e:
            raise Broken("%s(): %s" % (f.name, e))
        self.rep.count("operand counts and operations of the combination")
        if not ends:
            self.bad(f, name, m_, n_, "never ends")
        for t, sub in ends:
            self.judge(f, name, m_, n_, t, sub)

    def bad(self, f, name, m, n, text):
        self.rep.viol("%s:%s" % (f.key, name), "%s:%d" % (f.relfile, f.line),
                      "%s() with %d and %d operands and %s %s" % (f.name, m, n, name, text))

    def judge(self, f, name, m, n, t, sub):
        if t is None:
            self.bad(f, name, m, n, "leaves operands that cannot be told")
            return
        known = ["R%d" % i for i in range(m)] + ["B%d" % i for i in range(n)]

        def inside(t, env):
            """(a bit of the given tables): where the operands of env are"""
            k = 0
            for i, o in enumerate(t[0]):
                if o in env:
                    x = env[o]
                elif o in sub:
                    b = inside(sub[o], env)
                    x = b
                else:
                    return None
                if isinstance(x, Bit):
                    if x.vs:
                        return mixed(t, env)
                    x = x.tt
                k |= x << i
            return t[1][k]

        def mixed(t, env):
            """like inside, where the operands of a combined part depend on input bits"""
            cur = [ (ONE, 0) ]
            for i, o in enumerate(t[0]):
                x = env[o] if o in env else inside(sub[o], env)
                if not isinstance(x, Bit):
                    x = ONE if x else ZERO
                nxt = []
                for c, k in cur:
                    for bit, cc in ((1, op2("&", c, x)), (0, op2("&", c, neg(x)))):
                        if cc != ZERO:
                            nxt.append((cc, k | bit << i))
                cur = nxt
            r = ZERO
            for c, k in cur:
                r = op2("|", r, op2("&", c, t[1][k]))
            return r
        if set(t[0]) - set(known) - set(sub) or len(set(t[0])) < len(t[0]):
            self.bad(f, name, m, n, "takes operands from nowhere or twice")
            return
        many = m + n > self.max
        for k in range(1 << (m + n)):
            if many and (k * 2654435761 >> 7) % 1009:
                continue                    # a sample of the assignments
            if not k and not (m and n):
                continue                    # inside of nothing is nothing
            env = {o: k >> i & 1 for i, o in enumerate(known)}
            r = inbit("R", k & ((1 << m) - 1)) if m else ZERO
            b = inbit("B", k >> m) if n else ZERO
            if OPS[name](1, 0) and OPS[name](0, 1):
                want = op2("|" if OPS[name](1, 1) else "^", r, b)
            else:
                want = op2("&", r, b if OPS[name](1, 1) else neg(b))
            got = inside(t, env)
            self.rep.count("entries of truth tables")
            if got != want:
                self.bad(f, name, m, n, "computes %s instead of %s for what is inside of %s" %
                         (got, want, "+".join(o for o in known if env[o]) or "nothing"))
                return

    def getters(self):
        """functions that ask a table for a bit"""
        fs = [g for g in self.prog.functions.values() if g.key in self.live and
              len(g.params) in (2, 3) and bitmaps(g)[1] is not None and bitmaps(g)[0] is None and
              g.ret.kind not in ("void", "ptr", "rec") and g.params[-1].type.kind != "ptr" and
              not any(opty(p.type) for p in g.params)]
        for g in fs:
            for i in list(range(70)) + [127, 128, 511, 512, (1 << self.max) - 1]:
                args = [Ptr("T")] + [num(1 << self.max)] * (len(g.params) - 2) + [num(i)]

                def setup(m):
                    m.bitmem = [("T", 0, self.bytes, "T")]
                m = Bits(self.prog)
                out = []

                def on_end(r, mm):
                    if isinstance(r, P) and r.const() is not None:
                        r = ONE if r.const() else ZERO
                        for k, v in mm.conds.items():
                            if k[0] == "bit":
                                r = Bit(k[1].vs, k[1].tt) if v == (r == ONE) else neg(k[1])
                    elif isinstance(r, BV):
                        r = m.nonzero(r)
                    out.append(r)
                m.on_end = on_end
                try:
                    m.paths(g, args, setup)
                except Unsupported as e:
                    raise Broken("%s(): %s" % (g.name, e))
                self.rep.count("entries asked for")
                if any(r != inbit("T", i) for r in out):
                    self.rep.viol("%s:get" % g.key, "%s:%d" % (g.relfile, g.line),
                                  "%s() gives %s as entry %d of a truth table" %
                                  (g.name, out[0], i))
                    break

    def eager(self):
        """a function that sweeps operands: each gets the membership bit of its place"""
        enum = {n: v for l in self.prog.enums.values() for n, v in l}
        kinds = [k for k in ("CP_CSG2_POLY", "CP_CSG2_VLINE2", "CP_CSG2_SWEEP") if k in enum]
        todo = [f for f in self.prog.functions.values() if f.key in self.live and
                f.key in self.sweeping and lazyrec(self.prog, f) == self.rec and
                any((c.callee or "").startswith("cq_sweep_add") for c in f.calls())]
        if not todo:
            raise Broken("no function gives operands to the sweep")
        ty = off(self.prog, "cp_csg2", "type") if "cp_csg2" in self.prog.records else None
        for f in todo:
            for n in (1, 2, 3, self.max):
                for shift in range(3):
                    self.eager1(f, n, [enum[kinds[(i + shift) % len(kinds)]] for i in range(n)],
                                enum.get("CP_CSG2_SWEEP"))

    def eager1(self, f, n, types, sweep):
        lz = [i for i, p in enumerate(f.params) if lazyrec1(p) == self.rec]
        if len(lz) != 1:
            return
        args = [Ptr("R") if i in lz else Ptr("arg%d" % i) if p.type.kind == "ptr" else num(-1)
                for i, p in enumerate(f.params)]
        names = {g.key for g in self.prog.functions.values() if g.name.startswith("cq_")}

        def setup(m):
            m.bitmem = []
            self.operand(m, "R", n)
            for i, t in enumerate(types):
                m.mem[("R%d" % i, 0)] = num(t)

        def on_event(m, e):
            m.mem, m.dflt = dict(e.mem), {k: list(x) for k, x in e.dflt.items()}
            return None
        m = Bits(self.prog, opaque=names)
        m.on_event = on_event
        ends = []

        def on_end(r, mm):
            ends.append((self.table(mm, "R"), [(e.callee, e.args, e.mem) for e in mm.events],
                         dict(mm.conds)))
        self.ptr = f.params[lz[0]].type
        m.on_end = on_end
        try:
            m.paths(f, args, setup)
        except Unsupported as e:
            raise Broken("%s(): %s" % (f.name, e))

        def bad(kind, text):
            self.rep.viol("%s:%s" % (f.key, kind), "%s:%d" % (f.relfile, f.line),
                          "%s() with %d operands %s" % (f.name, n, text))
        for t, ev, conds in ends:
            adds = [(a, mm) for c, a, mm in ev if re.match("cq_sweep_add_", c)]
            red = [(a, mm) for c, a, mm in ev if c == "cq_sweep_reduce"]
            order = [c for c, a, mm in ev if re.match("cq_sweep_(add_|intersect|reduce)", c)]
            self.rep.count("ways to give operands to the sweep")
            if not adds and not red:
                # nothing to do
                if t is None or t[0] != ["R%d" % i for i in range(n)] or n != 1:
                    bad("lost", "leaves them without combining them")
                continue
            got = []
            for a, mm in adds:
                v = a[2].const() if isinstance(a[2], P) else None
                got.append((a[1].obj if isinstance(a[1], Ptr) else None, v))
            want = [("R%d" % i, 1 << i) for i in range(n)]
            if sorted(got, key=str) != sorted(want, key=str):
                x = sorted(set(got) ^ set(want), key=str) or got
                bad("member", "gives operand %s the membership %s" %
                    (x[0][0], hex(int(x[0][1])) if x[0][1] is not None else "that cannot be told"))
            if len({a[0] for a, mm in adds} | {a[0] for a, mm in red}) != 1 or len(red) != 1:
                bad("sweeps", "does not combine them in one sweep")
                continue
            if order != [x for x in order if "add" in x] + ["cq_sweep_intersect", "cq_sweep_reduce"]:
                bad("order", "does not find the intersections of all operands before reducing them")
            a, mm = red[0]
            if a[1] != Ptr("R", self.comb):
                bad("table", "reduces by another truth table")
            if not isinstance(a[2], P) or a[2].const() != 1 << n:
                bad("tablesize", "reduces by a truth table of another size")
            if t is None or len(t[0]) > 1:
                bad("result", "does not leave one result")
            elif len(t[0]) == 1:
                if Ptr(t[0][0], 0) != adds[0][0][0]:
                    bad("result", "does not leave the sweep as its result")
                elif [const_bit(x) for x in t[1]] != [0, 1]:
                    bad("single", "leaves the truth table %s for its result instead of 'inside where "
                        "the result is'" % t[1])

    def leaves(self):
        """functions that fill an empty combination from one polygon: inside where it is"""
        for k in sorted(self.live):
            f = self.prog.functions[k]
            lz = [i for i, p in enumerate(f.params) if lazyrec1(p) == self.rec]
            if len(lz) != 1 or f.key in self.sweeping or len(f.params) != 2 or \
                    any(lazyrec1(q) for c in f.calls() for g in [self.prog.resolve(c)] if g
                        for q in g.params):
                continue
            args = [Ptr("R") if i in lz else Ptr("poly") for i in (0, 1)]

            def setup(m):
                m.bitmem = [("R", self.comb, self.comb + self.bytes, "R")]
                m.store("R", 0, Blob(1 << 12, {}, [(0, 1 << 12, None, 0)]), None)
                for i in range(self.bytes):
                    m.mem[("R", self.comb + i)] = BV((ZERO,) * 8)
                m.mem[("R", self.size)] = num(0)
            m = Bits(self.prog)
            self.ptr = f.params[lz[0]].type
            ends = []
            m.on_end = lambda r, mm: ends.append(self.table(mm, "R"))
            try:
                m.paths(f, args, setup)
            except Unsupported as e:
                raise Broken("%s(): %s" % (f.name, e))
            for t in ends:
                self.rep.count("ways to start with one polygon")
                if t is None or len(t[0]) > 1 or t[0] and t[0] != ["poly"]:
                    self.rep.viol("%s:leaf" % f.key, "%s:%d" % (f.relfile, f.line),
                                  "%s() does not take its polygon" % f.name)
                elif t[0] and [const_bit(x) for x in t[1]] != [0, 1]:
                    self.rep.viol("%s:single" % f.key, "%s:%d" % (f.relfile, f.line),
                                  "%s() starts a single operand with the truth table %s instead of "
                                  "'inside where it is'" % (f.name, t[1]))
            if not any(t and t[0] for t in ends):
                self.rep.viol("%s:leaf" % f.key, "%s:%d" % (f.relfile, f.line),
                              "%s() never takes its polygon" % f.name)


def lazyrec1(p):
    return p.type.ptr_rec() if p.type.kind == "ptr" and "lazy" in p.type.raw["s"] else None


def joins(prog, rep, live, names, ops, selfs):
    opname = {v: n for n, v in ops.items()}
    todo = set(names)
    done = set()
    while todo:
        nm = todo.pop()
        done.add(nm)
        for k in sorted(live):
            f = prog.functions[k]
            if f in selfs and nm in names:
                continue
            for n in f.calls():
                if n.callee != nm:
                    continue
                g = prog.resolve(n)
                if g is None:
                    continue
                pos = [i for i, p in enumerate(g.params) if opty(p.type)]
                if not pos:
                    continue
                a = n.args[pos[0]]
                v = a.val if a.val is not None else a.strip().val
                kinds = {base(p.type) for p in f.params} & set(KIND)
                if v is None:
                    t = canon(f).of(a)
                    if t[0] == "v" and f.tu.decls[t[1]].raw["k"] == "parm" and f.name not in done:
                        todo.add(f.name)
                        continue
                    if t[0] == "lin" and not t[1]:
                        v = t[2]
                if v is None or len(kinds) != 1:
                    rep.count("joins not judged")
                    continue
                kind = kinds.pop()
                rep.count("calls that join operands")
                rep.sample("join", "%s:%s joins %s by %s" % (n.where(), f.name, kind,
                                                             opname.get(v)))
                if opname.get(v) != KIND[kind]:
                    rep.viol("%s:join" % f.key, n.where(),
                             "%s() joins the operands of %s by %s" % (f.name, kind,
                                                                      opname.get(v, v)))
                else:
                    receiver(rep, f, n, g)
                    if KIND[kind] == "CP_OP_SUB":
                        order(rep, f, n, g)


def receiver(rep, f, call, g):
    """what is joined so far is the left operand: it is the function's own output"""
    ls = [a for a, p in zip(call.args, g.params) if "lazy" in p.type.raw["s"]][:2]
    if len(ls) < 2:
        return
    outs = [i for i, p in enumerate(f.params) if "lazy" in p.type.raw["s"]]
    if len(outs) != 1:
        return
    c = canon(f)

    def own(a):
        t = c.of(a)
        return t[0] == "v" and f.tu.decls[t[1]].raw["k"] == "parm"

    def local(a):
        t = c.of(a)
        return t[0] == "&" and t[1][0] == "v" and f.tu.decls[t[1][1]].raw["k"] != "parm"
    if own(ls[0]) and not own(ls[1]):
        rep.count("joins into the result")
    elif local(ls[0]) and own(ls[1]):
        rep.viol("%s:receiver" % f.key, call.where(),
                 "%s() joins what it has into a local variable that nobody sees" % f.name)


def order(rep, f, call, g):
    """the left operand was filled from the positive, the right from the negative part"""
    c = canon(f)
    src = {}
    for n in f.calls():
        if n is call:
            continue
        fld = None
        for a in n.args:
            for m in a.walk():
                if m.k == "MemberExpr" and m.name in ("add", "sub") and m.ch[0].type is not None \
                        and re.search(r"cp_csg_sub_t", m.ch[0].strip().type.raw["s"]):
                    fld = m.name
        if fld:
            for a in n.args:
                t = c.of(a)
                if t[0] in ("v", "&"):
                    src.setdefault(t, set()).add(fld)
    ls = [a for a, p in zip(call.args, g.params) if "lazy" in p.type.raw["s"]][:2]
    if len(ls) < 2:
        return
    got = [src.get(c.of(a)) for a in ls]
    rep.count("differences whose operand order is decided")
    if got[0] is not None and "sub" in got[0] or got[1] is not None and "add" in got[1]:
        rep.viol("%s:order" % f.key, call.where(),
                 "%s() exchanges the positive and the negative part of a difference" % f.name)


def builders(prog, rep, live):
    tags = {}
    for e in prog.enums.values():
        for n, v in e:
            if n in set(TAG.values()):
                tags[v] = n
    for k in sorted(live):
        f = prog.functions[k]
        if not f.relfile.startswith("src/hob3l/"):
            continue
        kinds = {base(p.type) for p in f.params} & set(TAG)
        for n in f.body.walk():
            if n.k != "BinaryOperator" or n.op != "=":
                continue
            l = n.ch[0].strip()
            if l.k != "MemberExpr":
                continue
            if l.name == "type":
                v = n.ch[1].val if n.ch[1].val is not None else n.ch[1].strip().val
                if v in tags and len(kinds) == 1:
                    want = TAG[list(kinds)[0]]
                    rep.count("functions that build Boolean containers")
                    if tags[v] != want and not (want == "CP_CSG_CUT" and False):
                        rep.viol("%s:builds" % f.key, n.where(), "%s() turns %s into %s"
                                 % (f.name, list(kinds)[0], tags[v]))
            elif l.name in ("add", "sub"):
                b = l.ch[0].strip()
                if b.type is None or "cp_csg_sub_t" not in b.type.raw["s"]:
                    continue
                for m in n.ch[1].walk():
                    if m.k == "MemberExpr" and m.name in ("add", "sub") and \
                            m.ch[0].strip().type is not None and \
                            "cp_csg_sub_t" in m.ch[0].strip().type.raw["s"]:
                        rep.count("operands handed from difference to difference")
                        if m.name != l.name:
                            rep.viol("%s:exchanged" % f.key, n.where(),
                                     "%s() makes the '%s' part of a difference the '%s' part"
                                     % (f.name, m.name, l.name))
