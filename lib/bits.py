"""Bit provenance: the algebraic value numbering with some memory kept as single bits.

In the ranges given by 'bitmem' every bit is a Boolean function (a truth table) of few input bits;
words of any size are put together from them.  Constant tables are read from their initialisers,
also with an index that is not constant."""
from alg import ANAME, Blob, Break, Continue, Machine, P, Ptr, Unsupported, add, mul, num, sub

MAXV = 6
OVF = {"__builtin_%s_overflow" % n: o for n, o in (("add", "+"), ("sub", "-"), ("mul", "*"))}


class Bit:
    """a Boolean function: inputs (sorted), truth table (integer, bit k: value for inputs k)"""
    __slots__ = ("vs", "tt")

    def __init__(self, vs, tt):
        self.vs, self.tt = vs, tt

    def __eq__(self, o):
        return isinstance(o, Bit) and (self.vs, self.tt) == (o.vs, o.tt)

    def __hash__(self):
        return hash((self.vs, self.tt))

    def __repr__(self):
        if not self.vs:
            return str(self.tt)
        if self.tt == 2 and len(self.vs) == 1:
            return "%s%s" % self.vs[0]
        return "f(%s:%x)" % (",".join("%s%s" % v for v in self.vs), self.tt)


ZERO, ONE = Bit((), 0), Bit((), 1)


def inbit(name, k):
    return Bit(((name, k),), 2)


def const_bit(b):
    return b.tt if not b.vs else None


def build(vs, f):
    """the function f over the values of vs, without inputs that do not matter"""
    if len(vs) > MAXV:
        raise Unsupported("bit depends on too many bits")
    tt = 0
    for k in range(1 << len(vs)):
        if f({v: k >> i & 1 for i, v in enumerate(vs)}):
            tt |= 1 << k
    i = 0
    vs = list(vs)
    while i < len(vs):
        lo = hi = 0
        pos = 0
        for k in range(1 << len(vs)):
            if k >> i & 1:
                continue
            lo |= (tt >> k & 1) << pos
            hi |= (tt >> (k | 1 << i) & 1) << pos
            pos += 1
        if lo == hi:
            tt = lo
            del vs[i]
        else:
            i += 1
    return Bit(tuple(vs), tt)


def value(b, env):
    k = 0
    for i, v in enumerate(b.vs):
        k |= env[v] << i
    return b.tt >> k & 1


CACHE = {}


def op2(op, a, b):
    ca, cb = const_bit(a), const_bit(b)
    if op == "&":
        if ca is not None:
            return b if ca else ZERO
        if cb is not None:
            return a if cb else ZERO
    elif op == "|":
        if ca is not None:
            return ONE if ca else b
        if cb is not None:
            return ONE if cb else a
    elif op == "^":
        if ca == 0:
            return b
        if cb == 0:
            return a
    vs = tuple(sorted(set(a.vs) | set(b.vs)))
    if op == "&":
        return build(vs, lambda e: value(a, e) & value(b, e))
    if op == "|":
        return build(vs, lambda e: value(a, e) | value(b, e))
    return build(vs, lambda e: value(a, e) ^ value(b, e))


def neg(a):
    return Bit(a.vs, a.tt ^ ((1 << (1 << len(a.vs))) - 1))


def mux(c, a, b):
    if a == b:
        return a
    k = const_bit(c)
    if k is not None:
        return a if k else b
    if a == ONE and b == ZERO:
        return c
    vs = tuple(sorted(set(a.vs) | set(b.vs) | set(c.vs)))
    return build(vs, lambda e: value(a, e) if value(c, e) else value(b, e))


class BV:
    """a word: bits from the lowest"""
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = tuple(bits)

    def fold(self):
        """a number if all bits are constant"""
        r = 0
        for i, b in enumerate(self.bits):
            if b.vs:
                return self
            r |= b.tt << i
        return num(r)


def signed(t):
    s = t.raw.get("s", "")
    return not ("unsigned" in s or "size_t" in s or "uint" in s or "bool" in s.lower())


class Bits(Machine):
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.max_steps = 3000000
        self.max_loop = 5000
        self.bitmem = []           # (object, from, to, name)
        self.bytewise = False
        self.mixed = False         # may other operations give unknown bits?
        self.ready, self.ready_for = set(), None
        self.distinct = set()      # objects known to be different from each other

    # ------------------------------------------------------------ memory
    def range_of(self, obj, off):
        for o, lo, hi, name in self.bitmem:
            if o == obj and lo <= off < hi:
                return lo, name
        return None

    def bitty(self, obj, off):
        if self.range_of(obj, off) is not None or isinstance(self.mem.get((obj, off)), BV):
            return True
        if obj in self.ready:
            return True
        for s, e, src, so in reversed(self.dflt.get(obj, ())):
            if s <= off < e:
                return src is not None and (self.range_of(src, so + off - s) is not None)
        return False

    def byte(self, obj, off):
        v = self.mem.get((obj, off))
        if isinstance(v, BV):
            return v.bits[:8]
        if v is not None:
            return self.bv(v, 8).bits
        for s, e, src, so in reversed(self.dflt.get(obj, ())):
            if s <= off < e:
                if src is None:
                    return (ZERO,) * 8
                obj, off = src, so + off - s
                break
        r = self.range_of(obj, off)
        if r is None:
            raise Unsupported("bits of %s" % obj)
        lo, name = r
        return tuple(inbit(name, 8 * (off - lo) + i) for i in range(8))

    def table(self, obj):
        """a file-level table that nothing writes to"""
        if not obj.startswith("global:"):
            return
        if self.ready_for is not self.conds:
            # each path begins with an empty memory
            self.ready, self.ready_for = set(), self.conds
        if obj in self.ready:
            return
        name = obj[7:].split(":")[0]
        f = self.frames[-1]["f"]
        for g in f.tu.globals:
            if g.name == name and g.init is not None:
                if written(f.tu, name):
                    return
                old, self.bytewise = self.bytewise, True
                try:
                    v = self.ginit(g)
                finally:
                    self.bytewise = old
                self.ready.add(obj)
                self.store(obj, 0, v, g.init.type)
                return

    def ginit(self, g):
        return self.rvalue(g.init)

    def load(self, obj, off, ty):
        self.table(obj)
        if ty.kind not in ("rec", "arr", "ptr") and self.bitty(obj, off):
            sz = ty.raw.get("sz") or 1
            bits = []
            for i in range(sz):
                bits.extend(self.byte(obj, off + i))
            return BV(bits).fold()
        return super().load(obj, off, ty)

    def store(self, obj, off, v, ty):
        if not isinstance(v, Blob) and ty is not None and ty.kind not in ("rec", "arr", "ptr") and \
                isinstance(v, (P, BV)) and (self.bytewise or self.bitty(obj, off) or
                                            isinstance(v, BV)):
            sz = ty.raw.get("sz") or 1
            if isinstance(v, BV) or v.const() is not None:
                b = self.bv(v, 8 * sz).bits
                for i in range(sz):
                    self.mem[(obj, off + i)] = BV(b[8 * i:8 * i + 8])
                return
            if self.bitty(obj, off):
                raise Unsupported("bits become a number")
        super().store(obj, off, v, ty)

    def bv(self, v, w, sign=False):
        if isinstance(v, BV):
            b = list(v.bits[:w])
            fill = b[-1] if sign and b else ZERO
            return BV(b + [fill] * (w - len(b)))
        c = v.const() if isinstance(v, P) else None
        if c is None or c.denominator != 1:
            raise Unsupported("bits of a number that is not constant")
        c = int(c)
        return BV([ONE if c >> i & 1 else ZERO for i in range(w)])

    # ------------------------------------------------------------ expressions
    def cast(self, n):
        ck = n.raw.get("ck")
        if ck in ("IntegralToBoolean",):
            v = self.rvalue(n.ch[0])
            if isinstance(v, BV):
                return BV([self.nonzero(v)]).fold()
            return num(1 if self.truth(v) else 0)
        if ck == "LValueToRValue" and n.ch[0].k == "ArraySubscriptExpr":
            return self.x_ArraySubscriptExpr(n.ch[0])
        v = super().cast(n)
        if ck == "PointerToIntegral" and isinstance(v, Ptr) and v.obj is None:
            return num(v.off)
        if ck == "PointerToIntegral" and isinstance(v, P) and len(v) == 1:
            # a number that was made a pointer
            (m, c), = v.items()
            if len(m) == 1 and m[0][1] == 1 and ANAME[m[0][0]][0] == "int":
                return num(ANAME[m[0][0]][1] * c)
        if ck == "IntegralCast":
            t = n.type
            sz = t.raw.get("sz")
            if isinstance(v, BV):
                s = n.ch[0].type
                return self.bv(v, 8 * sz, signed(s) and len(v.bits) >= 8 * (s.raw.get("sz") or 8)
                               ).fold()
            if isinstance(v, P) and v.const() is not None and sz and v.const().denominator == 1:
                c = int(v.const())
                m = c & ((1 << 8 * sz) - 1)
                if signed(t) and m >> (8 * sz - 1):
                    m -= 1 << 8 * sz
                return num(m)
        return v

    x_ImplicitCastExpr = x_CStyleCastExpr = cast

    def nonzero(self, v):
        r = ZERO
        for b in v.bits:
            r = op2("|", r, b)
        return r

    def x_UnaryOperator(self, n):
        if n.op in ("~", "!"):
            v = self.rvalue(n.ch[0])
            if isinstance(v, BV):
                if n.op == "!":
                    return BV([neg(self.nonzero(v))]).fold()
                return BV([neg(b) for b in self.bv(v, 8 * n.type.raw["sz"]).bits]).fold()
            if n.op == "!":
                return num(0 if self.truth(v) else 1)
            if isinstance(v, P) and v.const() is not None:
                c = ~int(v.const())
                return num(c if signed(n.type) else c & ((1 << 8 * n.type.raw["sz"]) - 1))
        return super().x_UnaryOperator(n)

    def arith(self, op, a, b, ty):
        w = 8 * (ty.raw.get("sz") or 4)
        if isinstance(a, BV) or isinstance(b, BV):
            if op in "&|^":
                x, y = self.bv(a, w).bits, self.bv(b, w).bits
                return BV([op2(op, p, q) for p, q in zip(x, y)]).fold()
            if op in ("<<", ">>") and isinstance(b, P) and b.const() is not None:
                k = int(b.const())
                x = self.bv(a, w).bits
                x = (ZERO,) * k + x[:w - k] if op == "<<" else x[k:] + (ZERO,) * k
                return BV(x).fold()
            if op == "+" and all(isinstance(q, BV) or q.const() is not None for q in (a, b)):
                x, y = self.bv(a, w).bits, self.bv(b, w).bits
                if all(p == ZERO or q == ZERO for p, q in zip(x, y)):
                    return BV([op2("|", p, q) for p, q in zip(x, y)]).fold()
            if op == "*":
                if isinstance(b, BV):
                    a, b = b, a
                c = b.const() if isinstance(b, P) else None
                if c is not None and c >= 0 and sum(q != ZERO for q in a.bits) == 1:
                    bit = [q for q in a.bits if q != ZERO][0]
                    k = int(c) << a.bits.index(bit)
                    return BV([bit if k >> i & 1 else ZERO for i in range(w)]).fold()
            if op == "-" and isinstance(a, P) and a.const() == 0 and \
                    sum(q != ZERO for q in b.bits) <= 1 and b.bits and b.bits[0] != ZERO:
                return BV([b.bits[0]] * w).fold()
            if self.mixed:
                # bits of which nothing is known
                return BV([inbit(self.fresh("mixed"), i) for i in range(w)])
            raise Unsupported("arithmetic on bits")
        v = super().arith(op, a, b, ty)
        if isinstance(v, P) and v.const() is not None and ty.kind != "float" and \
                not signed(ty) and v.const().denominator == 1:
            return num(int(v.const()) & ((1 << w) - 1))
        return v

    def x_BinaryOperator(self, n):
        if n.op in ("==", "!=") and n.ch[0].type is not None and n.ch[0].type.kind != "ptr":
            a, b = self.rvalue(n.ch[0]), self.rvalue(n.ch[1])
            if isinstance(a, BV) or isinstance(b, BV):
                e = self.equal(a, b)
                return BV([e if n.op == "==" else neg(e)]).fold()
            return num(1 if self.compare(n.op, a, b) else 0)
        if n.op in ("+", "-") and n.type is not None and n.type.kind not in ("ptr", "float") and \
                n.ch[0].type is not None and n.ch[0].type.kind != "ptr":
            a, b = self.rvalue(n.ch[0]), self.rvalue(n.ch[1])
            if isinstance(a, Ptr) and a.obj is not None and isinstance(b, P) and \
                    b.const() is not None:
                d = int(b.const())
                return Ptr(a.obj, a.off + (d if n.op == "+" else -d))
            return self.arith(n.op, a, b, n.type)
        return super().x_BinaryOperator(n)

    def do_call(self, n):
        m = OVF.get(n.callee)
        if m is not None and len(n.args) == 3:
            a, b, r = [self.rvalue(x) for x in n.args]
            t = n.args[2].type.to_t
            v = add(a, b) if m == "+" else sub(a, b) if m == "-" else mul(a, b)
            c = v.const()
            over = 0
            if c is not None and t is not None and t.raw.get("sz"):
                w = 8 * t.raw["sz"]
                lo, hi = (-(1 << w - 1), 1 << w - 1) if signed(t) else (0, 1 << w)
                over = 0 if lo <= c < hi else 1
            p = self.ptr(r)
            self.store(p.obj, p.off, v, t)
            return num(over)
        return super().do_call(n)

    def equal(self, a, b):
        w = max(len(x.bits) if isinstance(x, BV) else 32 for x in (a, b))
        x, y = self.bv(a, w).bits, self.bv(b, w).bits
        d = ZERO
        for p, q in zip(x, y):
            d = op2("|", d, op2("^", p, q))
        return neg(d)

    def x_ConditionalOperator(self, n):
        c = n.ch[0].strip()
        v = self.condval(c)
        if isinstance(v, BV):
            b = self.nonzero(v)
            if const_bit(b) is None:
                w = 8 * (n.type.raw.get("sz") or 4)
                x, y = self.bv(self.rvalue(n.ch[1]), w).bits, self.bv(self.rvalue(n.ch[2]), w).bits
                return BV([mux(b, p, q) for p, q in zip(x, y)]).fold()
            return self.rvalue(n.ch[1] if const_bit(b) else n.ch[2])
        return self.rvalue(n.ch[1] if v else n.ch[2])

    def condval(self, c):
        """truth of a condition: bool, or a word that is not constant"""
        if c.k == "BinaryOperator" and c.op in ("&&", "||", "<", ">", "<=", ">=") or \
                c.type is None or c.type.kind in ("ptr", "float"):
            return self.cond(c)
        v = self.rvalue(c)
        return v if isinstance(v, BV) else self.truth(v)

    def truth(self, v):
        if isinstance(v, BV):
            b = self.nonzero(v)
            k = const_bit(b)
            if k is not None:
                return bool(k)
            return self.decide(("bit", b))
        return super().truth(v)

    def compare(self, op, a, b):
        if isinstance(a, BV) or isinstance(b, BV):
            if op in ("==", "!="):
                return self.truth(BV([self.equal(a, b)]).fold()) == (op == "==")
            raise Unsupported("order of bits")
        if op in ("==", "!=") and isinstance(a, Ptr) and isinstance(b, Ptr) and \
                a.obj != b.obj and a.obj in self.distinct and b.obj in self.distinct:
            return op == "!="
        return super().compare(op, a, b)

    def s_DoOnce(self, n):
        try:
            self.stmt(n.ch[0])
        except (Break, Continue):
            pass

    def index(self, b, i, ty):
        if isinstance(i, BV):
            raise Unsupported("index of bits")
        return super().index(b, i, ty)

    def x_ArraySubscriptExpr(self, n):
        b, i = self.rvalue(n.ch[0]), self.rvalue(n.ch[1])
        if isinstance(i, Ptr):
            b, i = i, b
        if isinstance(i, BV):
            sy = [k for k, x in enumerate(i.bits) if const_bit(x) is None]
            if len(sy) > 5:
                raise Unsupported("index of bits")
            base = sum(x.tt << k for k, x in enumerate(i.bits) if k not in sy)
            vals = []
            w = 8 * n.type.raw["sz"]
            for m in range(1 << len(sy)):
                j = base + sum((m >> q & 1) << k for q, k in enumerate(sy))
                p = super().index(b, num(j), n.type)
                vals.append(self.bv(self.load(p.obj, p.off, n.type), w).bits)
            for q, k in enumerate(sy):
                # vals is indexed by the bits q, q+1, ...: pair neighbours by bit q
                vals = [[mux(i.bits[k], y, x) for x, y in zip(vals[2 * t], vals[2 * t + 1])]
                        for t in range(len(vals) // 2)]
            return BV(vals[0]).fold()
        p = self.index(b, i, n.type)
        return self.load(p.obj, p.off, n.type)

    def x_CompoundAssignOperator(self, n):
        p = self.lvalue(n.ch[0])
        a = self.load(p.obj, p.off, n.ch[0].type)
        if isinstance(a, Ptr):
            return super().x_CompoundAssignOperator(n)
        b = self.rvalue(n.ch[1])
        t = n.ch[0].type
        if isinstance(a, BV) or isinstance(b, BV):
            op = n.op[:-1]
            if op in (">>",) or op in "&|^<<":
                v = self.arith(op, a, b, t)
            else:
                raise Unsupported("arithmetic on bits")
        else:
            v = self.arith(n.op[:-1], a, b, t)
        self.store(p.obj, p.off, v, t)
        return v


WRITTEN = {}


def written(tu, name):
    """is a variable written to, or its address given away (other than by indexing)"""
    s = WRITTEN.get(id(tu))
    if s is None:
        s = WRITTEN[id(tu)] = set()
        for f in tu.functions:
            if f.body is None:
                continue
            for n in f.body.walk():
                if n.k == "CompoundAssignOperator" or n.k == "BinaryOperator" and n.op == "=" or \
                        n.k == "UnaryOperator" and n.op in ("++", "--", "&"):
                    t = n.ch[0]
                    while t.k in ("ParenExpr", "MemberExpr", "ArraySubscriptExpr",
                                  "ImplicitCastExpr") and t.ch:
                        t = t.ch[0]
                    if t.k == "DeclRefExpr" and t.decl.raw["k"] not in ("local", "parm"):
                        s.add(t.decl.name)
    return name in s
