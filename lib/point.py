"""Algebraic values in general position: conditions about symbolic quantities are those of one
generic point; the values themselves stay symbolic."""
import math
from fractions import Fraction

from alg import ANAME, Blob, End, Event, NORETURN, P, Ptr, num, sub, thaw, var
from bits import Bits
from matalg import off


def evaluate(x, env):
    """number of a polynomial at a point, or None"""
    s = 0.0
    for m, c in x.items():
        t = float(c)
        for a, e in m:
            k = ANAME[a]
            if k in env:
                v = env[k]
            elif k[0] in ("sqrt", "poly", "fabs", "sinr", "cosr", "sin", "cos"):
                v = evaluate(thaw(k[1]), env)
                if v is None:
                    return None
                if k[0] == "sqrt":
                    v = abs(v) ** .5
                elif k[0] == "fabs":
                    v = abs(v)
                elif k[0] in ("sinr", "cosr"):
                    v = math.sin(v) if k[0] == "sinr" else math.cos(v)
                elif k[0] in ("sin", "cos"):
                    v = math.sin(math.radians(v)) if k[0] == "sin" else math.cos(math.radians(v))
            else:
                return None
            if v == 0 and e < 0:
                return None
            t *= v ** e
        s += t
    return s


ROUND = {"ceil": math.ceil, "floor": math.floor, "lrint": round, "llrint": round, "rint": round,
         "nearbyint": round, "lround": round, "llround": round, "round": round,
         "trunc": math.trunc}


class Mem(dict):
    """memory that knows the offsets of each object"""
    def __init__(self, old=()):
        super().__init__()
        self.offs = {}
        for k, v in dict(old).items():
            self[k] = v

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        self.offs.setdefault(k[0], set()).add(k[1])

    def __delitem__(self, k):
        super().__delitem__(k)
        self.offs[k[0]].discard(k[1])

    def within(self, obj, lo, hi):
        s = self.offs.get(obj, ())
        if len(s) > hi - lo:
            return [o for o in range(lo, hi) if o in s]
        return [o for o in s if lo <= o < hi]


class Pointed(Bits):
    """conditions are those of a point; calls that are not followed change nothing by themselves"""
    def __init__(self, prog, env, **kw):
        super().__init__(prog, **kw)
        self.env = env
        self.assumed = self.at_point

    def at_point(self, key):
        if key[0] not in ("zero", "equal", "less", "greater"):
            return None
        v = evaluate(thaw(key[1]), self.env)
        if v is None:
            return None
        return {"zero": abs(v) < 1e-7, "equal": abs(v) < 1e-12, "less": v < -1e-12,
                "greater": v > 1e-12}[key[0]]

    def known(self, d, op):
        return None

    def indexed(self):
        if not isinstance(self.mem, Mem):
            self.mem = Mem(self.mem)
        return self.mem

    def blob(self, obj, off, size):
        mem = self.indexed()
        vals = {o - off: mem[obj, o] for o in mem.within(obj, off, off + size)}
        d = [(0, size, obj, off)]
        for s, e, src, so in self.dflt.get(obj, ()):
            s2, e2 = max(s, off), min(e, off + size)
            if s2 < e2:
                if (s2, e2) == (off, off + size):
                    d = []
                d.append((s2 - off, e2 - off, src, so + s2 - s if src is not None else 0))
        return Blob(size, vals, d)

    def store(self, obj, off, v, ty):
        if isinstance(v, Blob):
            mem = self.indexed()
            for o in mem.within(obj, off, off + v.size):
                del mem[obj, o]
            for o, x in v.vals.items():
                mem[obj, off + o] = x
            l = self.dflt.setdefault(obj, [])
            l[:] = [x for x in l if not (off <= x[0] and x[1] <= off + v.size)]
            for s, e, src, so in v.dflt:
                l.append((off + s, off + e, src, so))
            return
        super().store(obj, off, v, ty)

    def havoc(self, obj, off, size):
        mem = self.indexed()
        for o in mem.within(obj, off, off + size):
            del mem[obj, o]
        self.dflt.setdefault(obj, []).append((off, off + size, self.fresh("unknown"), 0))

    def event(self, n, g, name, args):
        e = Event()
        e.callee, e.args, e.call, e.f = name, args, n, g
        e.mem, e.dflt = self.mem, self.dflt
        if name in NORETURN:
            raise End()
        v = self.on_event(self, e)
        if v is not None:
            return v
        ty = n.type
        if ty is None or ty.kind == "void":
            return None
        self.n += 1
        if ty.kind == "ptr":
            return Ptr("new#%d" % self.n, 0)
        if ty.kind in ("rec", "arr"):
            return self.blob("new#%d" % self.n, 0, ty.raw.get("sz") or 0)
        return var(("res", name, self.n))

    def root(self, v):
        """of a square of one product"""
        if len(v) != 1:
            return None
        (m, c), = v.items()
        c = Fraction(c)
        if c < 0 or any(e % 2 for a, e in m):
            return None
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p != c.numerator or q * q != c.denominator:
            return None
        r = P({tuple((a, e // 2) for a, e in m): Fraction(p, q)})
        k = evaluate(r, self.env)
        if k is None:
            return None
        return r if k >= 0 else sub(num(0), r)

    def do_call(self, n):
        if n.callee in ROUND and self.prog.resolve(n) is None:
            v = self.rvalue(n.args[0])
            if isinstance(v, P):
                k = evaluate(v, self.env)
                if k is not None:
                    return num(ROUND[n.callee](k))
        if n.callee == "sqrt" and self.prog.resolve(n) is None:
            v = self.rvalue(n.args[0])
            r = self.root(v) if isinstance(v, P) else None
            if r is not None:
                return r
        return super().do_call(n)


class Build:
    """puts records into a machine's memory"""

    def __init__(self, prog, m):
        self.prog, self.m = prog, m

    def rec(self, obj, size=4096):
        self.m.store(obj, 0, Blob(size, {}, [(0, size, None, 0)]), None)
        return Ptr(obj, 0)

    def set(self, obj, rec, path, v, at=0):
        self.m.store(obj, at + off(self.prog, rec, path), v if not isinstance(v, (int, float)) else num(v),
                     None)

    def vec(self, obj, rec, path, ptrs, at=0):
        """a list of pointers"""
        o = at + off(self.prog, rec, path)
        self.array(obj, o, "%s.%s" % (obj, path), len(ptrs))
        for i, p in enumerate(ptrs):
            self.m.store("%s.%s" % (obj, path), 8 * i, p, None)

    def array(self, obj, o, data, n, size=1 << 16):
        self.rec(data, size)
        self.m.store(obj, o + off(self.prog, "cp_v_t", "data"), Ptr(data, 0) if n else Ptr(None, 0), None)
        self.m.store(obj, o + off(self.prog, "cp_v_t", "size"), num(n), None)
