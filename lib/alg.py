"""Algebraic value numbering: what a function computes, as polynomials in its inputs.

Values are multivariate polynomials with rational coefficients (negative powers allowed), over atoms:
initial contents of memory, and results of sqrt, sin, ... of polynomials
(sin and cos of degrees, sinr and cosr of radians).  Memory is a map from
(object, byte offset) to values, calls are followed, loops with constant bounds are unrolled; each
condition that is not decided by constants splits the path.  What cannot be followed (a loop
with unknown bounds, a recursive call, a library function) is a recorded event with unknown results."""
from fractions import Fraction

from facts import fkey


class Unsupported(Exception):
    pass


class LoopBound(Exception):
    pass


class Restart(Exception):
    pass


# ------------------------------------------------------------------ polynomials

ATOM = {}
ANAME = []


def atom(key):
    i = ATOM.get(key)
    if i is None:
        i = ATOM[key] = len(ANAME)
        ANAME.append(key)
    return i


class P(dict):
    """monomial ((atom, power), ...) -> coefficient"""
    __slots__ = ()

    def key(self):
        return tuple(sorted(self.items()))

    def const(self):
        if not self:
            return Fraction(0)
        if len(self) == 1 and () in self:
            return self[()]
        return None


def num(c):
    c = Fraction(c)
    return P({(): c}) if c else P()


def var(key):
    return P({((atom(key), 1),): Fraction(1)})


def add(a, b, s=1):
    r = P(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def sub(a, b):
    return add(a, b, -1)


def mono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        e = d.get(a, 0) + e
        if e:
            d[a] = e
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


LIMIT = 100000


def mul(a, b):
    if len(a) * len(b) > LIMIT:
        raise Unsupported("polynomial too large")
    r = P()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return reduce(r)


def reduce(p):
    """sqrt(q)^2 = q, sin(a)^2 = 1 - cos(a)^2"""
    for m in p:
        for a, e in m:
            k = ANAME[a]
            if e >= 2 and k[0] in ("sqrt", "sin", "sinr"):
                q = thaw(k[1]) if k[0] == "sqrt" else \
                    sub(num(1), P({((atom(("cos" + k[0][3:], k[1])), 2),): Fraction(1)}))
                rest = P(p)
                c = rest.pop(m)
                m2 = mono(m, ((a, -2),))
                return add(reduce(rest), mul(P({m2: c}), q))
    return p


def thaw(k):
    return P(dict(k))


def power(p, n):
    r = num(1)
    for _ in range(n):
        r = mul(r, p)
    return r


def div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise Unsupported("division by zero")
        return P({m: v / c for m, v in a.items()})
    if len(b) == 1:
        (m, c), = b.items()
        return mul(a, P({tuple((x, -e) for x, e in m): 1 / c}))
    # normalise the divisor's leading coefficient
    lead = b[min(b)]
    q = P({m: v / lead for m, v in b.items()})
    return mul(a, P({((atom(("poly", q.key())), -1),): 1 / lead}))


def is_zero(p):
    """p = 0 as a rational function"""
    for _ in range(50):
        if not p:
            return True
        low = {}
        for m in p:
            for a, e in m:
                if e < 0 or ANAME[a][0] == "poly":
                    low[a] = min(low.get(a, 0), e)
        if not low:
            return not p
        a = max(low)
        if low[a] < 0:
            p = mul(p, P({((a, -low[a]),): Fraction(1)}))
        if ANAME[a][0] == "poly":
            p = subst(p, a, thaw(ANAME[a][1]))
    raise Unsupported("comparison too complex")


def subst(p, a, q):
    """replace atom a (non-negative powers), also within other atoms"""
    r = P()
    for m, c in p.items():
        if not any(x == a or mentions(x, a) for x, _ in m):
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
            continue
        t = P({(): c})
        for x, e in m:
            if x == a:
                f = q
            else:
                f = subst_atom(x, a, q)
            if e >= 0:
                t = mul(t, power(f, e))
            else:
                t = div(t, power(f, -e))
        r = add(r, t)
    return r


def inside(key, a):
    """does frozen key mention atom a"""
    if isinstance(key, tuple):
        return any(inside(k, a) for k in key)
    return False


MENTIONS = {}


def mentions(x, a):
    """does the argument of function atom x contain atom a"""
    k = ANAME[x]
    if k[0] not in ("sqrt", "poly", "sin", "cos", "sinr", "cosr", "fabs"):
        return False
    r = MENTIONS.get(x)
    if r is None:
        r = MENTIONS[x] = atoms(thaw(k[1]))
    return a in r


def subst_atom(x, a, q):
    k = ANAME[x]
    if k[0] in ("sqrt", "poly", "sin", "cos", "sinr", "cosr", "fabs"):
        p = thaw(k[1])
        if a in atoms(p):
            p = subst(p, a, q)
            return fn(k[0], p) if k[0] != "poly" else p
    return P({((x, 1),): Fraction(1)})


def atoms(p):
    r = set()
    for m in p:
        for a, _ in m:
            if a not in r:
                r.add(a)
                k = ANAME[a]
                if k[0] in ("sqrt", "poly", "sin", "cos", "sinr", "cosr", "fabs"):
                    r |= atoms(thaw(k[1]))
    return r


def fn(name, p):
    c = p.const()
    if name == "sqrt" and c is not None and c >= 0:
        for x in (0, 1, 4, 9, 16):
            if c == x:
                return num(int(x ** .5))
    if name in ("sin", "sinr") and c == 0:
        return num(0)
    if name in ("cos", "cosr") and c == 0:
        return num(1)
    if name == "fabs":
        if c is not None:
            return num(abs(c))
        if p[min(p)] < 0:
            p = sub(P(), p)
    if name in ("sin", "cos", "sinr", "cosr") and p and p[min(p)] < 0:
        q = var((name, sub(P(), p).key()))
        return q if name[:3] == "cos" else sub(P(), q)
    return var((name, p.key()))


def show(p, names=None):
    if not isinstance(p, P):
        return str(p)
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        t = [] if c == 1 and m else [str(float(c)) if c.denominator != 1 else str(c)]
        for a, e in m:
            t.append(aname(a) + ("^%d" % e if e != 1 else ""))
        out.append("*".join(t))
    return " + ".join(out).replace("+ -", "- ")


def aname(a):
    k = ANAME[a]
    if k[0] in ("sqrt", "poly", "sin", "cos", "sinr", "cosr", "fabs"):
        return "%s(%s)" % (k[0] if k[0] != "poly" else "", show(thaw(k[1])))
    if k[0] == "init":
        return "%s[%s]" % (k[1], k[2])
    return "_".join(str(x) for x in k if not isinstance(x, tuple))


# ------------------------------------------------------------------ values

class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.obj, self.off) == (o.obj, o.off)

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class Blob:
    """contents of a record or array"""
    __slots__ = ("size", "vals", "dflt")

    def __init__(self, size, vals, dflt):
        self.size, self.vals, self.dflt = size, vals, dflt


class Fun:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class End(Exception):
    """the program ends"""


NORETURN = {"abort", "exit", "_exit", "_Exit", "__assert_fail", "quick_exit"}


class Event:
    __slots__ = ("callee", "args", "mem", "dflt", "call", "f")


class Path:
    """one way through the function"""
    __slots__ = ("ret", "mem", "dflt", "events", "conds", "machine")


MATHFN = {"sqrt": "sqrt", "sin": "sinr", "cos": "cosr", "fabs": "fabs"}


class Machine:
    def __init__(self, prog, degrees=("cp_sin_deg", "cp_cos_deg"), opaque=(), max_paths=400,
                 max_steps=40000, havoc_loops=False):
        self.havoc_loops = havoc_loops
        self.fork_loops = False     # a loop may go on under conditions that are not known
        self.on_event = None
        self.on_end = None
        self.prog = prog
        self.unsup = {}
        self.opaque = set(opaque)
        self.deg = {degrees[0]: "sin", degrees[1]: "cos"}
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.inlined = set()
        self.max_loop = 200
        self.assumed = None     # conditions with an outcome that is not looked at
        self.recursion = 0      # how often a function may be entered again

    # -------------------------------------------------------------- driver
    def paths(self, f, args, setup=None):
        """all paths through f; args: values of parameters"""
        while True:
            try:
                return self._paths(f, args, setup)
            except Restart:
                continue

    def _paths(self, f, args, setup):
        out = []
        tapes = [[]]
        while tapes:
            tape = tapes.pop()
            self.tape = list(tape)
            self.pos = 0
            self.mem = {}
            self.dflt = {}
            self.events = []
            self.conds = {}
            self.order = []
            self.n = 0
            self.steps = 0
            self.frames = []
            self.declared = set()
            self.alt = []
            if setup:
                setup(self)
            p = Path()
            try:
                p.ret = self.call(f, list(args))
                if self.on_end is not None:
                    self.on_end(p.ret, self)
            except Unsupported as e:
                if self.frames:
                    g = self.frames[-1]["f"]
                    if g is not f and g.key not in self.unsup:
                        self.unsup[g.key] = str(e)
                        raise Restart()
                raise
            except End:
                p = None
            if p is not None:
                p.mem, p.dflt, p.events, p.conds = self.mem, self.dflt, self.events, dict(self.conds)
                p.machine = self
                out.append(p)
            for i in self.alt:
                tapes.append(self.tape[:i] + [not self.tape[i]])
            if len(out) + len(tapes) > self.max_paths:
                raise Unsupported("too many paths")
        return out

    def decide(self, key, hint=None):
        if key in self.conds:
            return self.conds[key]
        if self.assumed is not None:
            v = self.assumed(key)
            if v is not None:
                return v
        if self.pos < len(self.tape):
            v = self.tape[self.pos]
        else:
            v = True if hint is None else hint
            self.alt.append(self.pos)
            self.tape.append(v)
        self.pos += 1
        self.conds[key] = v
        return v

    # -------------------------------------------------------------- memory
    def fresh(self, what):
        self.n += 1
        return "%s#%d" % (what, self.n)

    def load(self, obj, off, ty):
        if ty.kind in ("rec", "arr"):
            sz = ty.raw.get("sz")
            if sz is None:
                raise Unsupported("size")
            return self.blob(obj, off, sz)
        v = self.mem.get((obj, off))
        if v is not None:
            return v
        for s, e, src, so in reversed(self.dflt.get(obj, ())):
            if s <= off < e:
                if src is None:
                    return Ptr(None, 0) if ty.kind == "ptr" else num(0)
                return self.initial(src, so + off - s, ty)
        v = self.initial(obj, off, ty)
        self.mem[(obj, off)] = v
        return v

    def initial(self, obj, off, ty):
        if ty.kind == "ptr":
            return Ptr("(%s+%s)" % (obj, off), 0)
        return var(("init", obj, off))

    def blob(self, obj, off, size):
        vals = {o - off: v for (b, o), v in self.mem.items() if b == obj and off <= o < off + size}
        d = [(0, size, obj, off)]
        for s, e, src, so in self.dflt.get(obj, ()):
            s2, e2 = max(s, off), min(e, off + size)
            if s2 < e2:
                d.append((s2 - off, e2 - off, src, so + s2 - s if src is not None else 0))
        return Blob(size, vals, d)

    def store(self, obj, off, v, ty):
        if isinstance(v, Blob):
            for k in [k for k in self.mem if k[0] == obj and off <= k[1] < off + v.size]:
                del self.mem[k]
            for o, x in v.vals.items():
                self.mem[(obj, off + o)] = x
            l = self.dflt.setdefault(obj, [])
            for s, e, src, so in v.dflt:
                l.append((off + s, off + e, src, so))
            return
        self.mem[(obj, off)] = v

    def havoc(self, obj, off, size):
        for k in [k for k in self.mem if k[0] == obj and off <= k[1] < off + size]:
            del self.mem[k]
        self.dflt.setdefault(obj, []).append((off, off + size, self.fresh("unknown"), 0))

    # -------------------------------------------------------------- calls
    def call(self, f, args):
        if len(self.frames) > 40:
            raise Unsupported("depth")
        self.n += 1
        fr = {"f": f, "id": self.n}
        self.frames.append(fr)
        self.inlined.add(f.key)
        for d, v in zip(f.params, args):
            self.store(self.local(d), 0, v, d.type)
        try:
            self.stmt(f.body)
            r = None
        except Return as e:
            r = e.v
        # an exception other than Return keeps the frame, for the report
        self.frames.pop()
        return r

    def local(self, d):
        return "%s@%d" % (d.name, self.frames[-1]["id"] * 100000 + d.i)

    def do_call(self, n):
        f = self.frames[-1]["f"]
        name = n.callee
        args = None
        if name is None:
            c = self.rvalue(n.ch[0])
            args = [self.rvalue(a) for a in n.args]
            if isinstance(c, Fun) and c.f is not None:
                return self.enter(n, c.f, c.f.name, args)
            return self.event(n, None, "?", args)
        if name == "__builtin_expect":
            return self.rvalue(n.args[0])
        g = self.prog.resolve(n)
        args = [self.rvalue(a) for a in n.args]
        if name in self.deg:
            return fn(self.deg[name], args[0])
        if g is None and name in MATHFN and isinstance(args[0], P):
            return fn(MATHFN[name], args[0])
        if g is None and name in ("memset", "__builtin_memset") and isinstance(args[0], Ptr) and \
                isinstance(args[2], P) and args[2].const() is not None and \
                isinstance(args[1], P) and args[1].const() == 0:
            o, s = args[0], int(args[2].const())
            self.store(o.obj, o.off, Blob(s, {}, [(0, s, None, 0)]), None)
            return args[0]
        if g is None and name in ("memcpy", "memmove") and isinstance(args[0], Ptr) and \
                isinstance(args[1], Ptr) and isinstance(args[2], P) and \
                args[2].const() is not None:
            s = int(args[2].const())
            self.store(args[0].obj, args[0].off, self.blob(args[1].obj, args[1].off, s), None)
            return args[0]
        return self.enter(n, g, name, args)

    def enter(self, n, g, name, args):
        if g is None or g.key in self.unsup or g.name in self.opaque or g.key in self.opaque or \
                sum(x["f"] is g for x in self.frames) > self.recursion or g.decl.type.raw.get("variadic"):
            return self.event(n, g, name, args)
        return self.call(g, args)

    def event(self, n, g, name, args):
        e = Event()
        e.callee, e.args, e.call, e.f = name, args, n, g
        e.mem, e.dflt = dict(self.mem), {k: list(v) for k, v in self.dflt.items()}
        self.events.append(e)
        if name in NORETURN:
            raise End()
        fd = n.fn
        ps = []
        if fd is not None and fd.type is not None:
            ps = [n.f.tu.types[i] for i in (fd.type.raw.get("params") or ())]
        for a, t in zip(args, ps):
            if isinstance(a, Ptr) and a.obj is not None and t.kind == "ptr" and \
                    t.to_t is not None and "const" not in t.to_t.raw["s"]:
                sz = t.to_t.raw.get("sz")
                self.havoc(a.obj, a.off, sz if sz is not None else 1 << 20)
        if self.on_event is not None:
            v = self.on_event(self, e)
            if v is not None:
                return v
        ty = n.type
        if ty is None or ty.kind == "void":
            return None
        self.n += 1
        if ty.kind == "ptr":
            return Ptr("new#%d" % self.n, 0)
        if ty.kind in ("rec", "arr"):
            o = "new#%d" % self.n
            return self.blob(o, 0, ty.raw.get("sz") or 0)
        return var(("res", name, len(self.events)))

    # -------------------------------------------------------------- expressions
    def lvalue(self, n):
        """Ptr to the place that n denotes"""
        k = n.k
        if k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
            return self.lvalue(n.ch[0])
        if k == "DeclRefExpr":
            d = n.decl
            if d.raw["k"] in ("local", "parm") and not d.raw.get("static"):
                return Ptr(self.local(d), 0)
            if d.raw["k"] == "local":
                return Ptr("global:%s:%d" % (d.name, d.i), 0)
            return Ptr("global:" + d.name, 0)
        if k == "MemberExpr":
            off = n.raw.get("off", -1)
            if off is None or off < 0:
                raise Unsupported("bit field")
            b = self.rvalue(n.ch[0]) if n.raw.get("arrow") else self.lvalue(n.ch[0])
            return self.shift(b, off)
        if k == "UnaryOperator" and n.op == "*":
            return self.ptr(self.rvalue(n.ch[0]))
        if k == "UnaryOperator" and n.op == "__extension__":
            return self.lvalue(n.ch[0])
        if k == "ArraySubscriptExpr":
            b, i = self.rvalue(n.ch[0]), self.rvalue(n.ch[1])
            if isinstance(i, Ptr):
                b, i = i, b
            return self.index(b, i, n.type)
        if k in ("CompoundLiteralExpr", "StmtExpr", "CallExpr", "InitListExpr",
                 "ConditionalOperator", "StringLiteral", "BinaryOperator"):
            if k == "ConditionalOperator":
                return self.lvalue(n.ch[1] if self.cond(n.ch[0]) else n.ch[2])
            o = self.fresh("tmp")
            self.store(o, 0, self.rvalue(n), n.type)
            return Ptr(o, 0)
        raise Unsupported("place %s" % k)

    def ptr(self, v):
        if isinstance(v, Ptr):
            if v.obj is None:
                raise Unsupported("null pointer")
            return v
        raise Unsupported("address")

    def shift(self, b, off):
        b = self.ptr(b)
        return Ptr(b.obj, b.off + off)

    def index(self, b, i, ty):
        if not isinstance(i, P) or i.const() is None:
            if isinstance(b, Ptr) and isinstance(i, P) and b.obj is not None:
                # an element with an unknown index is an object of its own
                return Ptr("%s+%s[%s]" % (b.obj, b.off, show(i)), 0)
            raise Unsupported("index")
        sz = ty.raw.get("sz")
        if sz is None:
            raise Unsupported("element size")
        return self.shift(b, int(i.const()) * sz)

    def rvalue(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("too many steps")
        k = n.k
        if n.val is not None and k not in ("CallExpr",):
            if n.type is not None and n.type.kind == "ptr":
                return Ptr(None, 0) if n.val == 0 else var(("int", n.val))
            return num(n.val)
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported("expression %s" % k)
        return m(n)

    def x_ParenExpr(self, n):
        return self.rvalue(n.ch[0])

    def x_ConstantExpr(self, n):
        return self.rvalue(n.ch[0])

    def x_FloatingLiteral(self, n):
        return num(Fraction(n.raw["fv"]).limit_denominator(10 ** 15)
                   if abs(n.raw["fv"]) < 1e9 else Fraction(n.raw["fv"]))

    def x_IntegerLiteral(self, n):
        return num(n.val)

    def x_StringLiteral(self, n):
        return Ptr("str:" + (n.raw.get("str") or ""), 0)

    def x_PredefinedExpr(self, n):
        return Ptr("str:", 0)

    def x_ImplicitValueInitExpr(self, n):
        t = n.type
        if t.kind == "ptr":
            return Ptr(None, 0)
        if t.kind in ("rec", "arr"):
            return Blob(t.raw["sz"], {}, [(0, t.raw["sz"], None, 0)])
        return num(0)

    def x_DeclRefExpr(self, n):
        d = n.decl
        if d.raw["k"] == "func":
            return Fun(self.prog.functions.get(fkey(d, self.prog.repo)))
        p = self.lvalue(n)
        return self.load(p.obj, p.off, n.type)

    def x_MemberExpr(self, n):
        p = self.lvalue(n)
        return self.load(p.obj, p.off, n.type)

    x_ArraySubscriptExpr = x_MemberExpr

    def cast(self, n):
        ck = n.raw.get("ck")
        c = n.ch[0]
        if ck == "ArrayToPointerDecay":
            if c.k == "StringLiteral":
                return self.rvalue(c)
            return self.lvalue(c)
        if ck == "FunctionToPointerDecay":
            d = c.strip()
            if d.k == "UnaryOperator" and d.op == "*":
                # calling through a pointer
                return self.rvalue(d.ch[0])
            return self.rvalue(c)
        if ck == "ToVoid":
            self.rvalue(c)
            return None
        if ck == "NullToPointer":
            return Ptr(None, 0)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return num(1 if self.cond(c) else 0)
        if ck == "LValueToRValue":
            p = self.lvalue(c)
            return self.load(p.obj, p.off, n.type)
        v = self.rvalue(c)
        if ck == "FloatingToIntegral":
            k = v.const() if isinstance(v, P) else None
            return num(int(k)) if k is not None else var(("trunc", v.key()))
        return v

    x_ImplicitCastExpr = x_CStyleCastExpr = cast

    def x_UnaryOperator(self, n):
        op, c = n.op, n.ch[0]
        if op == "&":
            return self.lvalue(c)
        if op == "*":
            p = self.lvalue(n)
            return self.load(p.obj, p.off, n.type)
        if op == "-":
            return sub(P(), self.poly(self.rvalue(c)))
        if op in ("+", "__extension__"):
            return self.rvalue(c)
        if op == "!":
            return num(0 if self.cond(c) else 1)
        if op in ("++", "--"):
            p = self.lvalue(c)
            v = self.load(p.obj, p.off, c.type)
            if isinstance(v, Ptr):
                sz = c.type.to_t.raw.get("sz")
                w = Ptr(v.obj, v.off + (sz if op == "++" else -sz))
            else:
                w = add(self.poly(v), num(1), 1 if op == "++" else -1)
            self.store(p.obj, p.off, w, c.type)
            return v if n.raw.get("post") else w
        if op == "~":
            return var(("not", self.poly(self.rvalue(c)).key()))
        raise Unsupported("operator " + op)

    def poly(self, v):
        if isinstance(v, P):
            return v
        if isinstance(v, Ptr):
            return num(0) if v.obj is None else var(("addr", v.obj, v.off))
        raise Unsupported("number %s" % (v,))

    def arith(self, op, a, b, ty):
        if isinstance(a, Ptr) and isinstance(b, P) and op in ("+", "-"):
            return None
        a, b = self.poly(a), self.poly(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if ty.kind == "float":
                return div(a, b)
            x, y = a.const(), b.const()
            if x is not None and y:
                return num(int(x / y))
            return var(("idiv", a.key(), b.key()))
        x, y = a.const(), b.const()
        if x is not None and y is not None and x.denominator == 1 and y.denominator == 1:
            x, y = int(x), int(y)
            if op == "%" and y:
                return num(x % y if x >= 0 else -(-x % y))
            if op == "<<" and 0 <= y < 64:
                return num(x << y)
            if op == ">>" and 0 <= y < 64:
                return num(x >> y)
            if op in "&|^":
                return num(x & y if op == "&" else x | y if op == "|" else x ^ y)
        return var(("op", op, a.key(), b.key()))

    def x_BinaryOperator(self, n):
        op = n.op
        if op == "=":
            v = self.rvalue(n.ch[1])
            p = self.lvalue(n.ch[0])
            self.store(p.obj, p.off, v, n.ch[0].type)
            return v
        if op == ",":
            self.rvalue(n.ch[0])
            return self.rvalue(n.ch[1])
        if op in ("&&", "||", "<", ">", "<=", ">=", "==", "!="):
            return num(1 if self.cond(n) else 0)
        a, b = self.rvalue(n.ch[0]), self.rvalue(n.ch[1])
        if isinstance(b, Ptr) and op == "+" and isinstance(a, P):
            a, b = b, a
        if isinstance(a, Ptr) and isinstance(b, P) and op in ("+", "-") and b.const() == 0:
            return a
        if isinstance(a, Ptr) and isinstance(b, P) and op in ("+", "-") and a.obj is not None:
            t = n.type.to_t if n.type.kind == "ptr" else None
            if t is None or b.const() is None or t.raw.get("sz") is None:
                if t is not None and op == "+":
                    return Ptr("%s+%s[%s]" % (a.obj, a.off, show(b)), 0)
                raise Unsupported("pointer arithmetic %s" % (locals().get("b"),))
            d = int(b.const()) * t.raw["sz"]
            return Ptr(a.obj, a.off + (d if op == "+" else -d))
        if op == "-" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is not None and \
                a.obj == b.obj:
            t = n.ch[0].type.to_t if n.ch[0].type.kind == "ptr" else None
            if t is None or not t.raw.get("sz"):
                raise Unsupported("pointer difference")
            return num(Fraction(a.off - b.off, t.raw["sz"]))
        return self.arith(op, a, b, n.type)

    def x_CompoundAssignOperator(self, n):
        p = self.lvalue(n.ch[0])
        a = self.load(p.obj, p.off, n.ch[0].type)
        b = self.rvalue(n.ch[1])
        op = n.op[:-1]
        if isinstance(a, Ptr):
            if not isinstance(b, P) or b.const() is None:
                raise Unsupported("pointer arithmetic %s" % (locals().get("b"),))
            d = int(b.const()) * n.ch[0].type.to_t.raw["sz"]
            v = Ptr(a.obj, a.off + (d if op == "+" else -d))
        else:
            v = self.arith(op, a, b, n.ch[0].type)
        self.store(p.obj, p.off, v, n.ch[0].type)
        return v

    def x_ConditionalOperator(self, n):
        return self.rvalue(n.ch[1] if self.cond(n.ch[0]) else n.ch[2])

    x_BinaryConditionalOperator = x_ConditionalOperator

    def x_CallExpr(self, n):
        return self.do_call(n)

    def x_StmtExpr(self, n):
        body = n.ch[0]
        for s in body.ch[:-1]:
            self.stmt(s)
        if not body.ch:
            return None
        l = body.ch[-1]
        if l.type is not None and l.k not in ("NullStmt",):
            return self.rvalue(l)
        self.stmt(l)
        return None

    def x_CompoundLiteralExpr(self, n):
        return self.rvalue(n.ch[0])

    def x_InitListExpr(self, n):
        t = n.type
        if t.kind not in ("rec", "arr"):
            return self.rvalue(n.ch[0])
        sz = t.raw.get("sz")
        if sz is None:
            raise Unsupported("size")
        tmp = self.fresh("init")
        self.dflt[tmp] = [(0, sz, None, 0)]
        if t.kind == "arr":
            es = t.to_t.raw["sz"]
            for i, c in enumerate(n.ch):
                self.store(tmp, i * es, self.rvalue(c), c.type)
        else:
            rec = self.prog.records.get(t.rec)
            fs = rec[1]["f"]
            if rec[1].get("union"):
                uf = n.raw.get("uf")
                fs = [x for x in fs if x["n"] == uf] if uf else fs[:1]
            fs = [x for x in fs if x["n"] or x.get("anon")]
            for x, c in zip(fs, n.ch):
                if x["off"] < 0:
                    raise Unsupported("bit field")
                self.store(tmp, x["off"], self.rvalue(c), c.type)
        return self.blob(tmp, 0, sz)

    # -------------------------------------------------------------- conditions
    def cond(self, n):
        k = n.k
        if n.val is not None:
            return n.val != 0
        if k in ("ParenExpr", "ConstantExpr"):
            return self.cond(n.ch[0])
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.raw.get("ck") in (
                "IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "IntegralCast",
                "NoOp", "BooleanToSignedIntegral"):
            if n.raw["ck"] != "NoOp" or n.ch[0].type.kind != "rec":
                return self.cond(n.ch[0])
        if k == "UnaryOperator" and n.op == "!":
            return not self.cond(n.ch[0])
        if k == "BinaryOperator":
            if n.op == "&&":
                return self.cond(n.ch[0]) and self.cond(n.ch[1])
            if n.op == "||":
                return self.cond(n.ch[0]) or self.cond(n.ch[1])
            if n.op in ("<", ">", "<=", ">=", "==", "!="):
                return self.compare(n.op, self.rvalue(n.ch[0]), self.rvalue(n.ch[1]))
        v = self.rvalue(n)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, Ptr):
            if v.obj is None:
                return False
            if v.obj.startswith(("(", "new#")):
                return self.decide(("ptr", v.obj, v.off))
            return True
        if isinstance(v, Fun):
            return True
        return self.compare("!=", v, num(0))

    def compare(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op in ("==", "!="):
                if a == b:
                    return op == "=="
                if b.obj is None:
                    return self.truth(a) == (op == "!=")
                if a.obj is None:
                    return self.truth(b) == (op == "!=")
                if a.obj == b.obj or local_object(a.obj) or local_object(b.obj):
                    return op == "!="
                return self.decide(("ptreq", str(a), str(b))) == (op == "==")
            if a.obj == b.obj:
                a, b = num(a.off), num(b.off)
            else:
                return self.decide(("ptr" + op, str(a), str(b)))
        a, b = self.poly(a), self.poly(b)
        d = sub(a, b)
        c = d.const()
        if c is not None:
            return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0,
                    "!=": c != 0}[op]
        for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op))):
            xc = x.const()
            if o in ("<", "<=", ">", ">=") and xc is not None and len(y) == 1 and is_eps(y) and \
                    (xc <= 0 or xc > Fraction(1, 10000)):
                return (xc <= 0) == (o in ("<", "<="))
        # |p| < epsilon
        z = near_zero(a, b, op)
        if z is not None:
            p, sense = z
            pc = p.const()
            if pc is not None:
                return (abs(pc) < Fraction(1, 100000)) == sense
            return self.decide(("zero", p.key()), hint=False) == sense
        r = self.known(d, op)
        if r is not None:
            return r
        s = 1
        if d[min(d)] < 0:
            s = -1
            d = sub(P(), d)
        if op in ("==", "!="):
            return self.decide(("equal", d.key()), hint=False) == (op == "==")
        # only d < 0 and d > 0 are decided; d == 0 counts as neither
        if s < 0:
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        if op == "<" or op == ">=":
            return self.decide(("less", d.key())) == (op == "<")
        return self.decide(("greater", d.key())) == (op == ">")

    def known(self, d, op):
        """does the outcome of d op 0 follow from what was decided about the same quantity"""
        if len(d) > 2:
            return None
        ms = [m for m in d if m]
        if len(ms) != 1 or abs(d[ms[0]]) != 1:
            return None
        q, k = ms[0], d[ms[0]]
        c = -d.get((), Fraction(0)) * k        # q <=> c
        if k < 0:
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        lo, ls, hi, hs = None, False, None, False
        for key, v in self.conds.items():
            if key[0] not in ("less", "greater", "equal"):
                continue
            p = dict(key[1])
            m2 = [m for m in p if m]
            if m2 != [q] or abs(p[q]) != 1 or len(p) > 2:
                continue
            kk = p[q]
            cc = -p.get((), Fraction(0)) * kk
            rel = {"less": "<" if v else ">=", "greater": ">" if v else "<=",
                   "equal": "==" if v else "!="}[key[0]]
            if kk < 0:
                rel = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(rel, rel)
            if rel in (">", ">=", "=="):
                s = rel == ">"
                if lo is None or cc > lo or cc == lo and s:
                    lo, ls = cc, s
            if rel in ("<", "<=", "=="):
                s = rel == "<"
                if hi is None or cc < hi or cc == hi and s:
                    hi, hs = cc, s
            if rel == "!=" and cc == c:
                if op == "==":
                    return False
                if op == "!=":
                    return True
        below = hi is not None and (hi < c or hi == c and hs)       # q < c
        above = lo is not None and (lo > c or lo == c and ls)       # q > c
        atmost = hi is not None and hi <= c
        atleast = lo is not None and lo >= c
        if op == "<":
            return True if below else False if atleast else None
        if op == "<=":
            return True if atmost else False if above else None
        if op == ">":
            return True if above else False if atmost else None
        if op == ">=":
            return True if atleast else False if below else None
        if below or above:
            return op == "!="
        if atmost and atleast:
            return op == "=="
        return None

    # -------------------------------------------------------------- statements
    def stmt(self, n):
        if n is None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("too many steps")
        if (n.macro or "") in ("assert", "static_assert"):
            return
        m = getattr(self, "s_" + n.k, None)
        if m is not None:
            return m(n)
        self.rvalue(n)

    def s_CompoundStmt(self, n):
        for c in n.ch:
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        f = self.frames[-1]["f"]
        for d, i in n.raw["ds"]:
            decl = f.tu.decls[d]
            if decl.raw.get("static"):
                if i >= 0 and "const" in decl.type.raw["s"]:
                    self.store("global:%s:%d" % (decl.name, decl.i), 0, self.rvalue(f.nodes[i]),
                               decl.type)
                continue
            o = self.local(decl)
            if o in self.declared:
                # again, in a loop
                for k in [k for k in self.mem if k[0] == o]:
                    del self.mem[k]
            self.declared.add(o)
            self.dflt.pop(o, None)
            if i >= 0:
                self.store(o, 0, self.rvalue(f.nodes[i]), decl.type)

    def s_ReturnStmt(self, n):
        raise Return(self.rvalue(n.ch[0]) if n.ch and n.ch[0] is not None else None)

    def s_IfStmt(self, n):
        if self.cond(n.ch[0]):
            self.stmt(n.ch[1])
        else:
            self.stmt(n.ch[2])

    def s_BreakStmt(self, n):
        raise Break()

    def s_ContinueStmt(self, n):
        raise Continue()

    def loop(self, cond, body, inc, first):
        if self.havoc_loops:
            st = self.save()
            try:
                return self.unroll(cond, body, inc, first)
            except LoopBound:
                self.restore(st)
                return self.skip(cond, body, inc)
        try:
            return self.unroll(cond, body, inc, first)
        except LoopBound:
            raise Unsupported("loop with unknown bounds")

    def save(self):
        return (dict(self.mem), {k: list(v) for k, v in self.dflt.items()}, len(self.events),
                dict(self.conds), self.pos, list(self.tape), list(self.alt), self.n)

    def restore(self, st):
        self.mem, self.dflt = st[0], st[1]
        del self.events[st[2]:]
        self.conds, self.pos, self.tape, self.alt, self.n = st[3:]

    def skip(self, cond, body, inc):
        """after a loop with unknown bounds, everything it may write is unknown"""
        f = self.frames[-1]["f"]
        for part in (cond, body, inc):
            for x in part.walk() if part is not None else ():
                if x.k in ("ReturnStmt", "GotoStmt"):
                    raise Unsupported("loop with unknown bounds")
                t = None
                if x.k == "CompoundAssignOperator" or x.k == "BinaryOperator" and x.op == "=" or \
                        x.k == "UnaryOperator" and x.op in ("++", "--"):
                    t = x.ch[0]
                elif x.k == "UnaryOperator" and x.op == "&":
                    t = x.ch[0]
                elif x.k in ("ImplicitCastExpr",) and x.raw.get("ck") == "ArrayToPointerDecay" and \
                        x.ch[0].k in ("DeclRefExpr", "MemberExpr"):
                    t = x.ch[0]
                if t is None:
                    continue
                t = t.strip()
                while t.k in ("ArraySubscriptExpr", "MemberExpr", "ParenExpr",
                              "ImplicitCastExpr") and not (t.k == "MemberExpr" and
                                                           t.raw.get("arrow")):
                    t = t.ch[0]
                if t.k == "StringLiteral":
                    continue
                if t.k == "DeclRefExpr" and t.decl.raw["k"] in ("local", "parm") and \
                        (t.type.kind != "ptr" or x.k != "BinaryOperator" or
                         x.ch[0].strip() is t or x.op != "=") :
                    sz = t.type.raw.get("sz")
                    if sz is None:
                        raise Unsupported("loop with unknown bounds")
                    self.havoc(self.local(t.decl), 0, sz)
                else:
                    raise Unsupported("loop with unknown bounds")

    def unroll(self, cond, body, inc, first):
        for _ in range(self.max_loop):
            if cond is not None and not first:
                before = self.pos
                v = self.cond(cond)
                if self.pos != before and not self.fork_loops:
                    raise LoopBound()
                if not v:
                    return
            first = False
            try:
                self.stmt(body)
            except Break:
                return
            except Continue:
                pass
            if inc is not None:
                self.rvalue(inc)
        raise Unsupported("long loop")

    def s_ForStmt(self, n):
        self.stmt(n.ch[0])
        self.loop(n.ch[1], n.ch[3], n.ch[2], False)

    def s_WhileStmt(self, n):
        self.loop(n.ch[0], n.ch[1], None, False)

    def s_DoStmt(self, n):
        self.loop(n.ch[1], n.ch[0], None, True)

    def s_SwitchStmt(self, n):
        body = n.ch[1]
        if body is None or body.k != "CompoundStmt":
            raise Unsupported("switch")
        v = self.poly(self.rvalue(n.ch[0]))
        flat = []
        default = None
        start = None
        todo = []
        for c in body.ch:
            while c is not None and c.k in ("CaseStmt", "DefaultStmt"):
                if c.k == "CaseStmt":
                    todo.append((c, len(flat)))
                    c = c.ch[2]
                else:
                    default = len(flat)
                    c = c.ch[0]
            flat.append(c)
        for c, i in todo:
            lo = c.ch[0].val
            hi = c.ch[1].val if c.ch[1] is not None else lo
            if lo is None or hi is None or hi - lo > 256:
                raise Unsupported("case range")
            if self.in_case(v, lo, hi):
                start = i
                break
        if start is None:
            start = default
        if start is None:
            return
        try:
            for c in flat[start:]:
                self.stmt(c)
        except Break:
            pass

    def in_case(self, v, lo, hi):
        return any(self.compare("==", v, num(x)) for x in range(lo, hi + 1))

    def s_GotoStmt(self, n):
        raise Unsupported("goto")

    def s_LabelStmt(self, n):
        raise Unsupported("label")


def local_object(o):
    """no pointer from outside of the analysed function points there"""
    return "@" in o and not o.startswith("(") or o.startswith(("mem#", "tmp#"))


def near_zero(a, b, op):
    """(p, sense) if the comparison a op b says |p| is (sense) or is not tiny"""
    for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op))):
        if o in ("<", "<=", ">", ">=") and len(x) == 1:
            (m, c), = x.items()
            if len(m) == 1 and m[0][1] == 1 and ANAME[m[0][0]][0] == "fabs" and c > 0:
                yc = y.const()
                if (yc is not None and 0 < yc < Fraction(1, 1000)) or \
                        (yc is None and len(y) == 1 and is_eps(y)):
                    return thaw(ANAME[m[0][0]][1]), o in ("<", "<=")
    return None


def is_eps(y):
    (m, c), = y.items()
    return len(m) == 1 and ANAME[m[0][0]][0] == "init" and \
        "eps" in str(ANAME[m[0][0]][1])


def zero_facts(conds):
    """polynomials known to be zero on a path"""
    r = []
    for k, v in conds.items():
        if k[0] in ("zero", "equal") and v:
            r.append(thaw(k[1]))
    return r


def apply_facts(p, facts):
    """p with the facts substituted; None if a fact cannot be used"""
    for q in facts:
        for a, v in solve(q) or ():
            p = subst(p, a, v)
    return p


def solve(q):
    """assignments that follow from q = 0"""
    if len(q) == 1:
        (m, c), = q.items()
        if len(m) == 1:
            a, e = m[0]
            k = ANAME[a]
            if k[0] == "sqrt":
                return solve(thaw(k[1]))
            if k[0] == "fabs":
                return solve(thaw(k[1]))
            return [(a, P())]
        up = [a for a, e in m if e > 0]
        if len(up) == 1 and ANAME[up[0]][0] in ("init", "res"):
            # a quotient is zero if its numerator is
            return [(up[0], P())]
        return None
    if q and all(c > 0 and m and all(e % 2 == 0 for _, e in m) and len(m) == 1
                 for m, c in q.items()):
        return [(m[0][0], P()) for m in q]
    for m, c in q.items():
        if len(m) == 1 and m[0][1] == 1 and ANAME[m[0][0]][0] in ("init", "res"):
            a = m[0][0]
            rest = P({x: -v / c for x, v in q.items() if x != m})
            if a not in atoms(rest):
                return [(a, rest)]
    return None
