"""Texts of which only the kind of each character is known: a character is a symbol with a set of
byte values; a condition about it is decided if all members agree, otherwise the path is split and
the set narrowed."""
from alg import ANAME, Fun, NORETURN, P, Ptr, Unsupported, num, thaw, var
from bits import BV, signed
from point import Pointed


def signed8(b):
    return b - 256 if b > 127 else b


class Chars(Pointed):
    def __init__(self, prog, sets, **kw):
        """sets: atom key -> tuple of values (as char)"""
        super().__init__(prog, {}, **kw)
        self.sets = sets
        self.cur, self.cur_for = {}, None
        self.one, self.split = {}, {}
        self.terms, self.values_, self.keys_ = {}, {}, {}
        self.max_steps = 10 ** 7
        self.max_loop = 10 ** 5
        self.mixed = True
        self.recursion = 8
        self.fork_loops = True

    # ------------------------------------------------------------- one character
    def about(self, pk):
        """the one character that a polynomial (as key) is about, or None"""
        if pk in self.one:
            return self.one[pk]
        r = set()
        todo = [pk]
        bad = False
        while todo:
            for m, c in todo.pop():
                for a, e in m:
                    k = ANAME[a]
                    if k in self.sets:
                        r.add(k)
                    elif k[0] == "op" and len(k) == 4:
                        todo += [k[2], k[3]]
                    else:
                        bad = True
        v = r.pop() if len(r) == 1 and not bad else None
        self.one[pk] = v
        return v

    def at(self, pk, a, v):
        """value of a polynomial (as key) where the character a is v"""
        t = self.terms.get(pk)
        if t is None:
            t = []
            for m, c in pk:
                t.append((int(c) if c == int(c) else c, [(ANAME[b], e) for b, e in m]))
            self.terms[pk] = t
        s = 0
        for c, m in t:
            for k, e in m:
                x = v if k == a else self.operate(k[1], self.at(k[2], a, v), self.at(k[3], a, v))
                c *= x if e == 1 else x ** e
            s += c
        return s if type(s) is int or s != int(s) else int(s)

    def all_at(self, pk, a, s):
        """the values for all members"""
        r = self.values_.get((pk, s))
        if r is None:
            r = self.values_[pk, s] = s if pk == self.key_of(a) else tuple(self.at(pk, a, v) for v in s)
        return r

    def key_of(self, a):
        r = self.keys_.get(a)
        if r is None:
            r = self.keys_[a] = var(a).key()
        return r

    def operate(self, op, x, y):
        x, y = int(x), int(y)
        if op == "&":
            return x & y
        if op == "|":
            return x | y
        if op == "^":
            return x ^ y
        if op in ("<<", ">>") and 0 <= y < 64:
            return x << y if op == "<<" else x >> y
        if op == "%" and y:
            return x % y if x >= 0 else -(-x % y)
        raise Unsupported("operation on characters")

    def members(self, a):
        if self.cur_for is not self.conds:
            self.cur, self.cur_for = {}, self.conds
        return self.cur.get(a, self.sets[a])

    def decide(self, key, hint=None):
        a = self.about(key[1]) if key[0] in ("zero", "equal", "less", "greater") else None
        if a is None:
            return super().decide(key, hint)
        if key in self.conds:
            return self.conds[key]
        s = self.members(a)
        r = self.split.get((key, s))
        if r is None:
            f = {"zero": lambda x: x == 0, "equal": lambda x: x == 0, "less": lambda x: x < 0,
                 "greater": lambda x: x > 0}[key[0]]
            xs = [f(x) for x in self.all_at(key[1], a, s)]
            r = (tuple(v for v, x in zip(s, xs) if x), tuple(v for v, x in zip(s, xs) if not x))
            self.split[key, s] = r
        if not r[1]:
            return True
        if not r[0]:
            return False
        v = super().decide(key, hint)
        self.cur[a] = r[0] if v else r[1]
        return v

    def in_case(self, v, lo, hi):
        if lo < hi and self.about(v.key()) is not None:
            return self.compare(">=", v, num(lo)) and self.compare("<=", v, num(hi))
        return super().in_case(v, lo, hi)

    def unanimous(self, p):
        """p, or the constant that it is for all members"""
        a = self.about(p.key())
        if a is None:
            return None
        ms = self.members(a)
        xs = self.all_at(p.key(), a, ms)
        if len(xs) > 1 and ms == xs:
            return var(a)
        return num(xs[0]) if len(set(xs)) == 1 else p

    def arith(self, op, a, b, ty):
        if op in ("&", "|", "^", "<<", ">>", "%") and isinstance(a, P) and isinstance(b, P) and \
                (a.const() is None or b.const() is None):
            r = self.unanimous(var(("op", op, a.key(), b.key())))
            if r is not None:
                return r
        return super().arith(op, a, b, ty)

    def cast(self, n):
        v = super().cast(n)
        if n.raw.get("ck") == "IntegralCast" and isinstance(v, P) and v.const() is None:
            a = self.about(v.key())
            if a is None:
                return v
            xs = self.all_at(v.key(), a, self.members(a))
            sz = n.type.raw.get("sz") or 8
            if not signed(n.type):
                if min(xs) < 0 or max(xs) >> 8 * sz:
                    return self.unanimous(var(("op", "&", v.key(), num((1 << 8 * sz) - 1).key())))
            elif max(xs) >> 8 * sz - 1 or min(xs) < -(1 << 8 * sz - 1):
                # as char: ((x + 128) & 255) - 128
                h = 1 << 8 * sz - 1
                w = var(("op", "&", self.plus(v, h).key(), num(2 * h - 1).key()))
                return self.plus(w, -h)
        return v

    x_ImplicitCastExpr = x_CStyleCastExpr = cast

    def plus(self, v, c):
        from alg import add
        return add(v, num(c))

    # ------------------------------------------------------------- texts
    def text(self, obj, cells, at=0):
        for i, c in enumerate(cells):
            self.mem[obj, at + i] = num(signed8(c)) if isinstance(c, int) else var(c)

    def load(self, obj, off, ty):
        if obj is not None and obj.startswith("str:") and ty is not None and \
                ty.kind not in ("rec", "arr", "ptr") and (ty.raw.get("sz") or 1) == 1:
            t = obj[4:].encode("latin1", "replace") + b"\0"
            if not 0 <= off < len(t):
                raise Unsupported("read beyond a text")
            return num(signed8(t[off]))
        v = super().load(obj, off, ty)
        if ty is not None and ty.kind == "int" and (ty.raw.get("sz") or 0) == 1 and signed(ty) and \
                isinstance(v, P) and v.const() is not None and 127 < v.const() < 256:
            return num(v.const() - 256)
        return v

    def cell(self, obj, off):
        """a byte value, a character's name, or None"""
        if obj.startswith("str:"):
            t = obj[4:].encode("latin1", "replace") + b"\0"
            return t[off] if 0 <= off < len(t) else None
        v = self.mem.get((obj, off))
        if v is None:
            for s, e, src, so in reversed(self.dflt.get(obj, ())):
                if s <= off < e:
                    return 0 if src is None else None
            return None
        if isinstance(v, BV):
            v = v.fold()
        if not isinstance(v, P):
            return None
        c = v.const()
        if c is not None:
            return int(c) & 255
        a = self.about(v.key())
        if a is not None and v == var(a):
            return a
        return None

    def cells(self, p, n=None):
        """what is at p: n characters, or up to a NUL"""
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported("text of unknown place %s" % (p,))
        r = []
        while n is None or len(r) < n:
            c = self.cell(p.obj, p.off + len(r))
            if c is None:
                raise Unsupported("text that is not known %s" % (p,))
            if n is None and c == 0:
                break
            r.append(c)
            if len(r) > 100000:
                raise Unsupported("text without end")
        return r

    def differ(self, c, d, fold=False):
        """are two characters different: True, False, or None"""
        if c == d:
            return False
        s, t = [set(x & 255 for x in self.members(x)) if not isinstance(x, int) else {x} for x in (c, d)]
        if fold:
            s, t = [{ord(chr(x).lower()) if x < 128 else x for x in y} for y in (s, t)]
        if not s & t:
            return True
        return False if len(s) == 1 and len(t) == 1 else None

    def same_text(self, x, y, fold=False):
        """True, False, or None; both lists of cells"""
        if len(x) != len(y):
            return False
        ds = [self.differ(c, d, fold) for c, d in zip(x, y)]
        if True in ds:
            return False
        return None if None in ds else True

    def library(self, e):
        """string functions; None: not one of them"""
        a, name = e.args, e.callee

        def c(i):
            x = a[i]
            if isinstance(x, BV):
                x = x.fold()
            x = x.const() if isinstance(x, P) else None
            if x is None:
                raise Unsupported("%s() with an unknown number" % name)
            return int(x)
        if e.f is not None:
            return None
        if name == "strlen":
            return num(len(self.cells(a[0])))
        if name in ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp"):
            if name == "memcmp":
                x, y = self.cells(a[0], c(2)), self.cells(a[1], c(2))
            else:
                x, y = self.cells(a[0]), self.cells(a[1])
                if "str" == name[:3] and "n" == name[3]:
                    x, y = x[:c(2)], y[:c(2)]
            s = self.same_text(x, y, "case" in name)
            if s is None:
                raise Unsupported("%s() of characters that are not known" % name)
            if s:
                return num(0)
            for p, q in zip(x + [0], y + [0]):
                if self.differ(p, q, "case" in name):
                    return num(1 if isinstance(p, int) and isinstance(q, int) and p > q else -1)
            return num(1)
        if name in ("strchr", "memchr", "strrchr"):
            x = self.cells(a[0], c(2)) if name == "memchr" else self.cells(a[0])
            k = c(1) & 255
            if k == 0 and name != "memchr":
                return Ptr(a[0].obj, a[0].off + len(x))
            order = list(enumerate(x))
            for i, q in reversed(order) if name == "strrchr" else order:
                d = self.differ(q, k)
                if d is None:
                    raise Unsupported("%s() of characters that are not known" % name)
                if not d:
                    return Ptr(a[0].obj, a[0].off + i)
            return Ptr(None, 0)
        if name in ("strtoll", "strtol", "atoll", "atol", "atoi", "strtoimax", "strtoull", "strtoul"):
            base = c(2) if len(a) > 2 else 10
            if name in ("atoi", "strtoull", "strtoul"):
                raise Unsupported("%s()" % name)
            return self.number(("int", base), self.cells(a[0]), a[1] if len(a) > 1 else None, a[0])
        if name in ("strtod", "atof", "strtold", "strtof"):
            return self.number(("float", 8 if name != "strtof" else 4), self.cells(a[0]),
                               a[1] if len(a) > 1 else None, a[0])
        return None

    def number(self, kind, cells, end, at):
        raise Unsupported("number")

    def format(self, fmt, args):
        """what printf() writes, as cells; only %s, %c and integers"""
        r = []
        i, k = 0, 0
        while i < len(fmt):
            if fmt[i] != ord("%"):
                r.append(fmt[i])
                i += 1
                continue
            j = i + 1
            width = 0
            while chr(fmt[j]) in "0123456789*.-+ #hlzjt":
                if fmt[j] == ord("*"):
                    width = self.int_arg(args, k)
                    k += 1
                j += 1
            ch = chr(fmt[j])
            if ch == "%":
                x = [ord("%")]
            elif ch == "s":
                x = self.cells(args[k])
                k += 1
            elif ch == "c":
                v = args[k]
                k += 1
                q = v.const() if isinstance(v, P) else None
                if q is not None:
                    x = [int(q) & 255]
                else:
                    b = self.about(v.key()) if isinstance(v, P) else None
                    if b is None:
                        raise Unsupported("format")
                    x = [b]
            elif ch in "diu":
                x = list(str(self.int_arg(args, k)).encode())
                k += 1
            else:
                raise Unsupported("format %%%s" % ch)
            r += [32] * (width - len(x)) + x
            i = j + 1
        return r

    def int_arg(self, args, k):
        v = args[k]
        v = v.fold() if isinstance(v, BV) else v
        q = v.const() if isinstance(v, P) else None
        if q is None:
            raise Unsupported("format of an unknown number")
        return int(q)
