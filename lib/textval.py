"""Machine for code about constant texts: the C library's string functions are what they are."""
from alg import NORETURN, Blob, End, Fun, P, Ptr, Unsupported, num
from bits import BV
from facts import Broken
from point import Build, Pointed

STR = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strchr", "strrchr",
       "strstr", "bsearch", "strspn", "strcspn", "tolower", "toupper"}


class Texts(Pointed):
    """on_call(name, args): what calls that are not followed yield (None: something)"""

    def __init__(self, prog, on_call=None, **kw):
        super().__init__(prog, {}, **kw)
        self.max_steps = 10 ** 6
        self.max_loop = 10 ** 4
        self.calls = on_call
        self.on_event = self.string

    def text(self, obj, s):
        """puts a text into memory"""
        for i, c in enumerate(s.encode("latin1") + b"\0"):
            self.mem[obj, i] = num(c)
        return Ptr(obj, 0)

    def read(self, p, n=None):
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported("text of unknown place %s" % (p,))
        if p.obj.startswith("str:"):
            t = p.obj[4:].encode("latin1", "replace")[p.off:] + b"\0"
            return t[:n] if n is not None else t[:-1]
        r = bytearray()
        while n is None or len(r) < n:
            v = self.mem.get((p.obj, p.off + len(r)))
            if isinstance(v, BV):
                v = v.fold()
            c = v.const() if isinstance(v, P) else None
            if c is None:
                raise Unsupported("text that is not known %s" % (p,))
            r.append(int(c) & 255)
            if c == 0 and n is None:
                return bytes(r[:-1])
        return bytes(r)

    def load(self, obj, off, ty):
        if obj is not None and obj.startswith("str:") and ty is not None and \
                ty.kind not in ("rec", "arr", "ptr") and (ty.raw.get("sz") or 1) == 1:
            t = obj[4:].encode("latin1", "replace") + b"\0"
            if not 0 <= off < len(t):
                raise Unsupported("read beyond a text")
            return num(t[off])
        return super().load(obj, off, ty)

    def string(self, m, e):
        a, name = e.args, e.callee

        def c(i):
            x = a[i]
            if isinstance(x, BV):
                x = x.fold()
            x = x.const() if isinstance(x, P) else None
            if x is None:
                raise Unsupported("%s() with an unknown number" % name)
            return int(x)
        if e.f is None and name in ("strlen",):
            return num(len(self.read(a[0])))
        if e.f is None and name in ("strcmp", "strncmp", "strcasecmp", "strncasecmp"):
            x, y = self.read(a[0]), self.read(a[1])
            if name[3] == "n":
                x, y = x[:c(2)], y[:c(2)]
            if "case" in name:
                x, y = x.lower(), y.lower()
            return num((x > y) - (x < y))
        if e.f is None and name == "memcmp":
            x, y = self.read(a[0], c(2)), self.read(a[1], c(2))
            return num((x > y) - (x < y))
        if e.f is None and name in ("strchr", "strrchr", "strstr"):
            t = self.read(a[0])
            s = self.read(a[1]) if name == "strstr" else bytes([c(1) & 255])
            i = len(t) if s == b"\0" else t.rfind(s) if name == "strrchr" else t.find(s)
            return Ptr(a[0].obj, a[0].off + i) if i >= 0 else Ptr(None, 0)
        if e.f is None and name in ("tolower", "toupper"):
            x = c(0)
            s = bytes([x & 255])
            return num((s.lower() if name == "tolower" else s.upper())[0])
        if e.f is None and name == "bsearch":
            lo, hi, sz = 0, c(2), c(3)
            if not isinstance(a[4], Fun) or a[4].f is None:
                raise Unsupported("comparison of bsearch()")
            while lo < hi:
                i = (lo + hi) // 2
                p = Ptr(a[1].obj, a[1].off + i * sz)
                r = m.call(a[4].f, [a[0], p])
                r = r.fold() if isinstance(r, BV) else r
                k = r.const() if isinstance(r, P) else None
                if k is None:
                    raise Unsupported("order of bsearch()")
                if k == 0:
                    return p
                if k < 0:
                    hi = i
                else:
                    lo = i + 1
            return Ptr(None, 0)
        return self.calls(e) if self.calls else None
