"""P42: UTF-8 is decoded and encoded as it is defined, and XML documents are read as they are written."""
from alg import P, Ptr, Unsupported, add, num, show, var
from bits import BV
from chars import Chars, signed8
from facts import Broken
from p41 import CLASS, Syntax, Text, c_, cls, fresh
from p34 import Solids
from point import Build

TAG = CLASS["low"] + CLASS["up"] + [ord("_")]
CLASS["tag1"] = [c for c in TAG if c not in c_("xXsS")]
CLASS["tag"] = TAG + CLASS["digit"] + c_("-.")
CLASS["xtext"] = [c for c in range(33, 127) if c not in b"<&"]
CLASS["xattr"] = [c for c in range(33, 127) if c not in b"<&\"'"]
CLASS["xcomment"] = [c for c in range(1, 127) if c not in b"->"]
CLASS["xdoctype"] = [c for c in range(32, 127) if c not in b">"]
CLASS["xnotag"] = [c for c in range(33, 127) if c in b"!\"#$%&'()*+,@[\\]^`{|}~"]
CLASS["hex"] = c_("0123456789abcdefABCDEF")
CLASS["nothex"] = [c for c in range(33, 127) if c not in b"0123456789abcdefABCDEF;"]
SPACE = b" \t\r\n"
WIDE = ["\u00e9", "\u0101", "\u4e2d", "\U0001d11e", "\u07ff", "\ud7ff", "\ue000", "\uffff", "\U00010000",
        "\U0010ffff", "\u0080", "\u0800"]


def u_(s):
    return list(s.encode("utf8"))


def run(prog, rep):
    rep.rule("the UTF-8 functions are followed by abstract interpretation with the code point as the only unknown, "
             "over a set of code points (all single and double bits, both sides of all limits, and a sample): the "
             "bytes given are expressions of it, the result must be it for each member of each path; ill-formed "
             "bytes must be refused at their place. The XML parser is followed over documents of which each "
             "character is a constant or any member of a class: the nodes must be what is written, in order "
             "and nesting, with their names, name spaces, values, and places; malformed documents must be "
             "refused with a message")
    u = Unicode(prog, rep)
    u.decoding()
    u.encoding()
    u.escapes()
    x = Xml(prog, rep)
    x.documents()
    x.malformed()
    x.searching()
    rep.floor("code points decoded", 8000)
    rep.floor("code points encoded", 8000)
    rep.floor("ill-formed sequences", 20)
    rep.floor("documents followed", 80)
    rep.floor("nodes compared", 500)
    rep.floor("uses of the tree", 100)
    rep.floor("documents that must be refused", 70)


def points(thorough):
    r = set()
    for k in range(21):
        for l in range(21):
            for m in (0, 0x1000, 0x41):
                r.add((1 << k) | (1 << l) | m)
                r.add(0xffff ^ (1 << k) ^ (1 << l))
    for lim in (0, 0x80, 0x800, 0xd800, 0xe000, 0x10000, 0x110000, 0x40000, 0x100000):
        r |= set(range(lim - 70, lim + 70))
    r |= set(range(1, 0x110000, 31 if thorough else 127))
    return sorted(c for c in r if 0 < c < 0x110000 and not 0xd800 <= c < 0xe000)


class Unicode(Solids):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.dec, self.enc, self.esc = [self.fn(n) for n in (
            "cp_utf8_decode", "cp_utf8_encode", "cp_utf8_escaped_decode")]
        from matalg import off
        self.at = {p: off(prog, "cp_utf8_iter_t", p) for p in ("data", "size", "error_msg")}

    def fn(self, name):
        fs = [f for f in self.prog.functions.values() if f.name == name]
        if len(fs) != 1:
            raise Broken("no %s()" % name)
        return fs[0]

    def one(self, f, cells, sets, size=None, more=()):
        """the paths of decoding one character: [(machine, result, bytes taken, error)]"""
        m = Chars(self.prog, sets, max_paths=256)

        def setup(m):
            b = Build(self.prog, m)
            b.rec("iter")
            b.rec("text", 64)
            for i, c in enumerate(cells):
                m.mem["text", i] = num(signed8(c)) if isinstance(c, int) else c
            m.store("iter", self.at["data"], Ptr("text", 0), None)
            m.store("iter", self.at["size"], num(len(cells) if size is None else size), None)
        try:
            ps = m.paths(f, [Ptr("iter", 0)], setup)
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s %s" % (f.name, e, m.unsup))
        r = []
        for p in ps:
            m.mem, m.dflt, m.conds = p.mem, p.dflt, p.conds
            d = self.get(m.mem, m.dflt, "iter", self.at["data"])
            n = self.const(m.mem, m.dflt, "iter", self.at["size"])
            e = self.get(m.mem, m.dflt, "iter", self.at["error_msg"])
            ret = p.ret.fold() if isinstance(p.ret, BV) else p.ret
            r.append((p, ret, d.off, n, not (e is None or isinstance(e, P) or e.obj is None)))
        return m, r

    @staticmethod
    def byte(cp, shift, mask, mark):
        """an expression, as a char of two's complement"""
        x = var(("op", "&", var(("op", ">>", cp.key(), num(shift).key())).key(), num(mask).key()))
        return add(x, num(mark - 256 if mark > 127 else mark))

    def form(self, cp, n):
        if n == 1:
            return [cp]
        r = [self.byte(cp, 6 * (n - 1), (0x1f, 0x0f, 0x07)[n - 2], (0xc0, 0xe0, 0xf0)[n - 2])]
        return r + [self.byte(cp, 6 * i, 0x3f, 0x80) for i in range(n - 2, -1, -1)]

    def values(self, m, p, ret, a):
        """(member, result) for each member on this path"""
        m.conds = p.conds
        m.cur, m.cur_for = {}, m.conds
        s = m.sets[a]
        for key, v in p.conds.items():
            if key[0] in ("zero", "equal", "less", "greater") and m.about(key[1]) == a:
                f = {"zero": lambda x: x == 0, "equal": lambda x: x == 0, "less": lambda x: x < 0,
                     "greater": lambda x: x > 0}[key[0]]
                s = tuple(x for x in s if f(m.at(key[1], a, x)) == bool(v))
        if not isinstance(ret, P):
            raise Broken("result of unknown kind")
        if ret.const() is not None:
            return [(x, int(ret.const())) for x in s]
        if m.about(ret.key()) != a:
            raise Broken("result %s is not about the character" % show(ret))
        return [(x, int(m.at(ret.key(), a, x))) for x in s]

    def decoding(self):
        where = self.dec.body.where()
        cp = var(("ch", "cp", 0))
        a = ("ch", "cp", 0)
        all_ = points(self.rep.tier == "thorough")
        for f in (self.dec, self.esc):
            for n, lo, hi in ((1, 1, 0x80), (2, 0x80, 0x800), (3, 0x800, 0x10000), (4, 0x10000, 0x110000)):
                s = tuple(c for c in all_ if lo <= c < hi and not (f is self.esc and c == 92))
                seen = {}
                m, rs = self.one(f, self.form(cp, n) + [65, 66], {a: s})
                for p, ret, used, left, err in rs:
                    for c, r in self.values(m, p, ret, a):
                        seen[c] = True
                        if r != c or err or used != n or left != 2:
                            self.rep.viol("decode:%d" % n, where, "%s(): U+%04X is decoded as %s" % (
                                f.name, c, "ill-formed" if err else "U+%04X in %d bytes" % (r, used)))
                            break
                self.rep.count("code points decoded", len(seen))
                if len(seen) < len(s):
                    self.rep.viol("decode:%d" % n, where, "%s(): no result for U+%04X" % (
                        f.name, [c for c in s if c not in seen][0]))
            self.ill(f)
        # ends
        for f in (self.dec, self.esc):
            for what, cells, size in (("NUL", [0, 65], 2), ("size 0", [65], 0), ("NUL without size", [0, 65], 2 ** 64 - 1)):
                m, rs = self.one(f, cells, {}, size)
                for p, ret, used, left, err in rs:
                    if ret.const() != 0 or used or left != size or err:
                        self.rep.viol("decode:end", where, "%s(): %s is not taken for the end" % (f.name, what))
                if not rs:
                    self.rep.viol("decode:end", where, "%s(): aborts at the end (%s)" % (f.name, what))

    def ill(self, f):
        where = f.body.where()
        a = ("ch", "bad", 0)
        x = var(a)
        notc = tuple(signed8(c) for c in range(1, 256) if not 0x80 <= c < 0xc0)
        cont = tuple(range(-128, -64))
        cases = [("a byte that cannot be the first", [x, 0x80 - 256, -128, -128],
                  tuple(signed8(c) for c in list(range(0x80, 0xc2)) + list(range(0xf5, 256))))]
        for lead, n in ((0xc3, 2), (0xe1, 3), (0xed, 3), (0xf1, 4)):
            for i in range(1, n):
                cases.append(("byte %d of %d does not continue" % (i + 1, n),
                              [lead] + [0x80] * (i - 1) + [x] + [0x80] * (n - i - 1), notc))
                cases.append(("%d of %d bytes" % (i, n), [lead] + [0x80] * (i - 1), None))
                cases.append(("%d of %d bytes and NUL" % (i, n), [lead] + [0x80] * (i - 1) + [0], None))
        cases += [("overlong form of 3 bytes", [0xe0, x, 0xbf], tuple(range(-128, -96))),
                  ("overlong form of 4 bytes", [0xf0, x, 0xbf, 0xbf], tuple(range(-128, -112))),
                  ("surrogate", [0xed, x, 0x80], tuple(range(-96, -64))),
                  ("surrogate", [0xed, x, 0xbf], tuple(range(-96, -64))),
                  ("too large", [0xf4, x, 0x80, 0x80], tuple(range(-112, -64)))]
        for what, cells, s in cases:
            m, rs = self.one(f, cells, {a: s} if s else {})
            self.rep.count("ill-formed sequences")
            if not rs:
                self.rep.viol("decode:ill", where, "%s(): %s: aborts" % (f.name, what))
            for p, ret, used, left, err in rs:
                if not err or used or not isinstance(ret, P) or ret.const() != 0:
                    self.rep.viol("decode:ill", where, "%s(): %s is not refused%s" % (
                        f.name, what, " at its place" if err else ""))
                    break

    def encoding(self):
        where = self.enc.body.where()
        a = ("ch", "cp", 0)
        cp = var(a)
        for n, lo, hi in ((1, 1, 0x80), (2, 0x80, 0x800), (3, 0x800, 0x10000), (4, 0x10000, 0x110000)):
            s = tuple(c for c in points(self.rep.tier == "thorough") if lo <= c < hi)
            for size in (n - 1, n, n + 3):
                m = Chars(self.prog, {a: s}, max_paths=256)
                mark = var(("old",))

                def setup(m):
                    Build(self.prog, m).rec("text", 64)
                    for i in range(8):
                        m.mem["text", i] = num(7)
                try:
                    ps = m.paths(self.enc, [Ptr("text", 0), num(size), cp], setup)
                except Unsupported as e:
                    raise Broken("cannot follow %s(): %s %s" % (self.enc.name, e, m.unsup))
                seen = set()
                for p in ps:
                    ret = p.ret.fold() if isinstance(p.ret, BV) else p.ret
                    got = [[v for _, v in self.values(m, p, self.cell(p, i), a)] for i in range(8)]
                    for k, (c, r) in enumerate(self.values(m, p, ret, a)):
                        seen.add(c)
                        want = chr(c).encode("utf8") if size >= n else b""
                        bs = [x[k] & 255 for x in got]
                        if r != len(want) or bytes(bs[:r]) != want or any(x != 7 for x in bs[max(size, 0):]):
                            self.rep.viol("encode:%d" % n, where, "U+%04X is written as %s (room for %d)" % (
                                c, " ".join("%02x" % x for x in bs[:r]) or "nothing", size))
                            break
                if len(seen) < len(s):
                    self.rep.viol("encode:%d" % n, where, "no result for U+%04X" % min(set(s) - seen))
                if size == n:
                    self.rep.count("code points encoded", len(seen))

    def cell(self, p, i):
        v = p.mem.get(("text", i))
        v = v.fold() if isinstance(v, BV) else v
        if not isinstance(v, P):
            raise Broken("byte that is not known")
        return v

    def escapes(self):
        f = self.esc
        where = f.body.where()
        for c, r in (("\\", 92), ("'", 39), ('"', 34), ("t", 9), ("n", 10), ("r", 13)):
            self.escape(f, "\\" + c, c_("\\" + c + "5"), {}, lambda x: r, 2)
        a = ("ch", "hex", 0)
        x = var(a)
        s = tuple(CLASS["hex"])
        for kind, n, fill in (("x", 2, "0"), ("u", 4, "1"), ("U", 6, "0")):
            for i in range(n):
                if (kind, i) in (("x", 0), ("U", 0), ("U", 1), ("u", 0)):
                    s1 = tuple(c_("01234567" if kind == "x" else "01" if kind == "U" and i == 0 else "0123456789abcABC"))
                    if kind == "U" and i == 0:
                        s1 = tuple(c_("01"))
                else:
                    s1 = s
                cells = c_("\\" + kind) + [x if j == i else ord(fill) if j else ord("0") for j in range(n)] + [65]
                ref = lambda c: int("".join(chr(c) if j == i else fill if j else "0" for j in range(n)), 16)
                self.escape(f, "\\%s, digit %d" % (kind, i + 1), cells, {a: s1}, ref, 2 + n)
                # not a digit
                no = tuple(CLASS["nothex"])
                m, rs = self.one(f, [x if c == x else c for c in cells], {a: no})
                self.refused(f, rs, "\\%s where digit %d is not one" % (kind, i + 1))
                m, rs = self.one(f, cells[:2 + i], {})
                self.refused(f, rs, "\\%s with %d digits" % (kind, i))
        for t in ("\\x80", "\\xff", "\\U110000", "\\Uffffff", "\\q", "\\0"):
            m, rs = self.one(f, c_(t), {})
            self.refused(f, rs, t)

    def escape(self, f, what, cells, sets, ref, used):
        m, rs = self.one(f, cells, sets)
        self.rep.count("escapes")
        a = ("ch", "hex", 0)
        m.sets.setdefault(a, (0,))
        n = 0
        for p, ret, u, left, err in rs:
            for c, r in self.values(m, p, ret, a):
                n += 1
                if r != ref(c) or err or u != used or left != len(cells) - used:
                    self.rep.viol("escape", f.body.where(), "%s is decoded as U+%04X in %d characters%s" % (
                        what, r, u, " (refused)" if err else ""))
                    return
        if n < len(m.sets[a]):
            self.rep.viol("escape", f.body.where(), "%s has no result" % what)

    def refused(self, f, rs, what):
        self.rep.count("ill-formed sequences")
        if not rs:
            self.rep.viol("escape:ill", f.body.where(), "%s: aborts" % what)
        for p, ret, u, left, err in rs:
            if not err or not isinstance(ret, P) or ret.const() != 0:
                self.rep.viol("escape:ill", f.body.where(), "%s is not refused" % what)
                return


# ---------------------------------------------------------------- documents
class Style:
    """how a document is laid out: space inside tags, around '=', quotation marks"""

    def __init__(self, sp=" ", eq="", close="", q='"', end="", empty=True):
        self.sp, self.eq, self.close, self.q, self.end, self.empty = sp, eq, close, q, end, empty


STYLES = [Style(), Style("\n\t", " ", " ", "'", " \n", False), Style("  ", "\r\n", "", '"', "\t", True)]


def N(n=2):
    """a name"""
    return tuple([fresh("tag1")] + [fresh("tag") for _ in range(n - 1)])


class El:
    def __init__(self, name, attrs=(), body=(), prefix=None):
        self.name, self.attrs, self.body, self.prefix = tuple(name), attrs, body, prefix


class At:
    """value: list of pieces; None: only the name"""

    def __init__(self, name, value=None, prefix=None):
        self.name, self.value, self.prefix = tuple(name), value, prefix


class Piece:
    def __init__(self, cells, means):
        self.cells, self.means = list(cells), list(means)


def T(*kinds):
    """text: classes, constants"""
    r = []
    for k in kinds:
        r += [fresh(k)] if k in CLASS else u_(k)
    return Piece(r, r)


def ent(s, c):
    return Piece(c_("&" + s + ";"), u_(c))


class Comment:
    def __init__(self, *cells):
        self.cells = list(cells)


class Writer:
    """cells of a document, and the nodes it has"""

    def __init__(self, style, chomp):
        self.s, self.chomp = style, chomp
        self.cells = []

    def put(self, x):
        self.cells += c_(x) if isinstance(x, str) else list(x)

    def name(self, e):
        at = len(self.cells)
        if e.prefix is not None:
            self.put(list(e.prefix) + [58])
        self.put(e.name)
        return at, len(self.cells)

    def body(self, items, ns, chomp):
        out = []
        run_ = None
        for i in list(items) + [None]:
            if isinstance(i, Piece):
                run_ = (run_ or []) + i.means
                self.put(i.cells)
                continue
            if run_ is not None:
                if chomp:
                    while run_ and isinstance(run_[0], int) and run_[0] in SPACE:
                        run_.pop(0)
                    while run_ and isinstance(run_[-1], int) and run_[-1] in SPACE:
                        run_.pop()
                if run_ or not chomp:
                    out.append(("text", tuple(run_)))
                run_ = None
            if isinstance(i, Comment):
                self.put("<!--")
                self.put(i.cells)
                self.put("-->")
            elif isinstance(i, El):
                out.append(self.elem(i, ns))
        return out

    def elem(self, e, ns):
        s = self.s
        self.put("<")
        at = self.name(e)
        attrs = []
        ns = dict(ns)
        for a in e.attrs:
            self.put(s.sp)
            pa = self.name(a)
            if a.value is None:
                v = list(a.name)
            else:
                q = s.q
                self.put(s.eq + "=" + s.eq + q)
                v = []
                for p in a.value:
                    self.put(p.cells)
                    v += p.means
                self.put(q)
            if a.prefix == tuple(c_("xmlns")):
                ns[a.name] = tuple(v)
            elif a.prefix is None and a.name == tuple(c_("xmlns")):
                ns[None] = tuple(v)
            else:
                attrs.append((a, tuple(v), pa))
        attrs = [("attr", a.prefix, a.name, ns[a.prefix] if a.prefix is not None else None, v, pa)
                 for a, v, pa in attrs]
        # at the end of the name a '/' or '>' may follow directly
        self.put(s.close)
        if not e.body and s.empty:
            self.put("/>")
            kids = []
        else:
            self.put(">")
            kids = self.body(e.body, ns, self.chomp)
            self.put("</")
            self.name(e)
            self.put(s.end + ">")
        return ("elem", e.prefix, e.name, ns[e.prefix] if e.prefix is not None else ns.get(None), attrs, kids, at)


XMLNS = tuple(c_("http://www.w3.org/XML/1998/namespace"))


def corpus():
    """(name, items before, root, items after)"""
    def doc(what, root, pre=(), post=()):
        out.append((what, pre, root, post))
    out = []
    xmlns = tuple(c_("xmlns"))
    doc("an element", El(N(1)))
    doc("an element with a long name", El(N(5)))
    for w in WIDE[:4]:
        doc("a name with a wide character", El(tuple(u_(w)) + N(2), [At(tuple(u_(w)), [T("xattr")])],
                                               [El(N(1) + tuple(u_(w)))]))
    doc("an element in an element", El(N(), [], [El(N(), [], [El(N(1))])]))
    n = N()
    doc("elements of the same name", El(n, [], [El(n), El(n, [], [El(n)]), El(n)]))
    doc("elements one after the other", El(N(), [], [El(N(1)), El(N()), El(N(3))]))
    doc("attributes", El(N(), [At(N(1), [T("xattr")]), At(N(), [T("xattr", "xattr")]), At(N(3), [])]))
    doc("attributes of inner elements", El(N(), [At(N(), [T("xattr")])], [
        El(N(), [At(N(), [T("xattr")])]), El(N(), [At(N(), [T("xattr")])], [T("xtext")])]))
    doc("attributes without value", El(N(), [At(N()), At(N(), [T("xattr")]), At(N(1)), At(N())]))
    doc("white space in attributes", El(N(), [At(N(), [T(" ", "xattr", "\n", "xattr", "  ")]), At(N(), [T(" ")])]))
    doc("'>' in an attribute", El(N(), [At(N(), [T("xattr", ">", "/>", "xattr")])]))
    doc("text", El(N(), [], [T("xtext", "xtext", "xtext")]))
    doc("text with space", El(N(), [], [T(" \n", "xtext", " ", "xtext", "\t\r\n ")]))
    doc("text with space between words", El(N(), [], [T("xtext", "  ", "xtext", " ", "xtext")]))
    doc("only space", El(N(), [], [T(" \n ")]))
    doc("text between elements", El(N(), [], [T("xtext"), El(N()), T(" ", "xtext"), El(N(), [], [T("xtext ")]),
                                              T(" "), El(N()), T("xtext")]))
    doc("space between elements", El(N(), [], [T("\n  "), El(N(), [], [T("\n "), El(N()), T("\n")]), T("\n "),
                                               El(N()), T("\n")]))
    doc("wide characters", El(N(), [At(N(), [T(*WIDE)])], [T(*WIDE), El(N(1)), T("xtext", *WIDE)]))
    names = (("quot", '"'), ("lt", "<"), ("gt", ">"), ("amp", "&"), ("apos", "'"))
    for s, c in names:
        doc("&%s;" % s, El(N(), [At(N(), [ent(s, c)]), At(N(), [T("xattr"), ent(s, c), T("xattr")])],
                           [ent(s, c), T("xtext"), ent(s, c), T("xtext")]))
    nums = [("#65", "A"), ("#x41", "A"), ("#X41", "A"), ("#x4e2D", "\u4e2d"), ("#233", "\u00e9"), ("#xe9", "\u00e9"),
            ("#xD7FF", "\ud7ff"), ("#xE000", "\ue000"), ("#65535", "\uffff"), ("#x10000", "\U00010000"),
            ("#x10FfFf", "\U0010ffff"), ("#1114111", "\U0010ffff"), ("#128", "\u0080"), ("#x7f", "\x7f"),
            ("#x7FF", "\u07ff"), ("#0000065", "A"), ("#x00041", "A"), ("#1", "\1"), ("#9;&#10", "\t\n")]
    for s, c in nums:
        doc("&%s;" % s, El(N(), [At(N(), [T("xattr"), ent(s, c), T("xattr")])], [T("xtext"), ent(s, c), T("xtext")]))
    doc("entities in a row", El(N(), [], [ent(s, c) for s, c in list(names) + nums[:6]] + [T("xtext")]))
    doc("an entity and an element", El(N(), [], [ent("lt", "<"), El(N()), ent("amp", "&")]))
    doc("'amp;' after an ampersand", El(N(), [], [ent("amp", "&"), T("lt;")]))
    cm = Comment(fresh("xcomment"), fresh("xcomment"))
    doc("a comment only", El(N(), [], [cm]))
    doc("an empty comment", El(N(), [], [Comment(), El(N())]))
    doc("a comment first", El(N(), [], [cm, T("xtext"), El(N())]))
    doc("a comment last", El(N(), [], [T("xtext"), El(N()), cm]))
    doc("comments between", El(N(), [], [T("xtext"), cm, T("xtext"), cm, cm, El(N()), cm, El(N(), [], [cm, cm])]))
    doc("a comment with signs", El(N(), [], [Comment(*c_("<a>- -> > </a>&x; \"")), El(N()), Comment(*u_("\u4e2d-x"))]))
    doc("comments around", El(N()), [cm, T("\n"), cm], [T(" "), cm, T("\n")])
    doc("white space around", El(N(), [], [El(N())]), [T("\n \t")], [T("\n")])
    decl = [T("<?xml version=\"1.0\" encoding='utf-8' ?>")]
    dt = [T("<!DOCTYPE ", "xdoctype", "xdoctype", ">")]
    bom = [T("\ufeff")]
    k = [El(N(), [At(N(), [T("xattr")])]), El(N(), [], [T("xtext")])]
    doc("a BOM", El(N(), [], k), bom)
    doc("a declaration", El(N(), [], k), decl)
    doc("a declaration without space", El(N(), [], k), [T("<?xml?>")])
    doc("a declaration and space", El(N(), [], k), decl + [T("\n\n")])
    doc("a BOM and a declaration", El(N(), [], k), bom + decl)
    doc("a document type", El(N(), [], k), dt)
    doc("a declaration and a document type", El(N(), [], k), decl + [T("\n")] + dt + [T("\n")])
    doc("comments before the document type", El(N(), [], k), decl + [cm, T("\n"), cm] + dt + [cm, T("\n")])
    doc("a comment before the document type, without declaration", El(N(), [], k), [T(" "), cm] + dt)
    # name spaces
    p, q = tuple(c_("p")), tuple(c_("pq"))
    uri = lambda: [T("xattr", "xattr")]
    doc("a default name space", El(N(), [At(xmlns, uri()), At(N(), [T("xattr")])], [El(N(), [At(N(), [])]), El(N())]))
    doc("a default name space of an inner element", El(N(), [], [El(N(), [At(xmlns, uri())], [El(N())]), El(N())]))
    doc("a default name space replaced", El(N(), [At(xmlns, uri())], [
        El(N(), [At(N(), [T("xattr")]), At(xmlns, uri())], [El(N())]), El(N())]))
    doc("a prefix", El(N(), [At(p, uri(), xmlns)], [El(N(), [], [El(N(), prefix=p)], prefix=p), El(N())], prefix=p))
    doc("a prefix of attributes", El(N(), [At(N(), [T("xattr")], p), At(p, uri(), xmlns), At(N(), [T("xattr")]),
                                           At(N(), None, p)]))
    doc("two prefixes", El(N(), [At(p, uri(), xmlns), At(q, uri(), xmlns), At(xmlns, uri())], [
        El(N(), [At(N(), [T("xattr")], q), At(N(), [T("xattr")], p), At(N(), [T("xattr")])], prefix=p),
        El(N(), [At(N(), [T("xattr")], p)], [El(N())], prefix=q), El(N())], prefix=q))
    doc("a prefix of inner elements", El(N(), [], [El(N(), [At(p, uri(), xmlns)], [El(N(), prefix=p)], prefix=p), El(N())]))
    doc("a prefix replaced", El(N(), [At(p, uri(), xmlns)], [
        El(N(), [At(p, uri(), xmlns), At(N(), [], p)], [El(N(), prefix=p)], prefix=p), El(N(), prefix=p)], prefix=p))
    x = tuple(c_("xml"))
    doc("the prefix 'xml'", El(N(), [At(c_("space"), [T("preserve")], x), At(N(), [T("xattr")])], [
        El(N(), [At(c_("lang"), [T("xattr")], x)])]))
    doc("names that begin with xmlns", El(N(), [At(tuple(c_("xmlnsx")), [T("xattr")]), At(tuple(c_("xmln")), [T("xattr")])]))
    doc("names with signs", El(tuple(c_("a-b.c_9")), [At(tuple(c_("stroke-width")), [T("1")])], [El(tuple(c_("_a.-")))]))
    doc("a document", El(tuple(c_("svg")), [At(xmlns, [T("http://www.w3.org/2000/svg")]), At(c_("width"), [T("1mm")])], [
        T("\n "), El(tuple(c_("g")), [At(c_("transform"), [T("translate(1,2)")])], [T("\n  "), El(tuple(c_("rect")), [
            At(c_("x"), [T("1")]), At(c_("y"), [T("2")])]), T("\n "), cm, T("\n")]), T("\n"), El(c_("title"), [], [
                T("a ", "xtext"), ent("lt", "<")]), T("\n")]), decl + [T("\n")], [T("\n")])
    return out


WRONG = {
    "nothing": ["", " ", "<!-- x -->", "\ufeff", "<?xml?>", "<!DOCTYPE a>"],
    "no element": ["a", "a<b/>", "<b/>a", "&lt;", "&lt;<b/>"],
    "two elements": ["<a/><b/>", "<a></a><b></b>", "<a/> <!-- --><b/>"],
    "no end tag": ["<a>", "<a><b></b>", "<a><b>", "<a>x", "<a><!-- x -->", "<a b='c'>"],
    "another end tag": ["<a></b>", "<a></ab>", "<ab></a>", "<a></A>", "<a><b></a></b>", "<a></a x>",
                        "<x:a xmlns:x='y'></a>", "<a xmlns:x='y'></x:a>", "<x:a xmlns:x='y'></y:a>",
                        "<\u4e2d></\u4e2e>", "<a></>", "<a></ a>", "<\u00e9></\u0169>"],
    "an end tag too many": ["</a>", "<a/></a>", "<a></a></a>", "<!-- x --></a>"],
    "the tag does not end": ["<", "<a", "<a ", "<a/", "<a b", "<a b=", "<a b='", "<a b='c'", "<a b='c' ", "<a></", "<a></a",
                             "<a></a "],
    "a tag that is none": ["< a/>", "<1/>", "<-a/>", "<.a/>", "<a/ >", "<a / b>", "<>", "</>", "<a:/>", "<:a/>", "<a: b/>",
                           "<a:b:c/>", "<a?>", "<a &b='c'/>", "<a \"b\"/>"],
    "a value without quotation marks": ["<a b=c/>", "<a b=/>", "<a b='c\"/>", "<a b=\"c'/>", "<a b= c='d'/>"],
    "'<' in a value": ["<a b='<'/>", "<a b='c<d'/>", "<a b='<d/>", "<a b='c<d e='f'/>"],
    "an entity that is none": ["<a>&x;</a>", "<a>&;</a>", "<a>&</a>", "<a>& </a>", "<a>&lt</a>", "<a>&lt </a>", "<a>&quo;</a>",
                               "<a>&am;</a>", "<a>&apo;</a>", "<a>&ap;</a>", "<a>&nbsp;</a>", "<a>&g;</a>", "<a b='&x;'/>",
                               "<a b='&lt'/>", "<a>&LT;</a>", "<a>&&lt;</a>", "<a>&#65</a>", "<a>&#6 5;</a>", "<a>&#x4g;</a>",
                               "<a>&#6a;</a>", "<a>&#;</a>", "<a>&#x;</a>", "<a>&#-1;</a>", "<a>&#x-1;</a>"],
    "a character that is none": ["<a>&#0;</a>", "<a>&#x0;</a>", "<a>&#xD800;</a>", "<a>&#57343;</a>", "<a>&#x110000;</a>",
                                 "<a>&#4294967361;</a>", "<a>&#x100000041;</a>", "<a>&#99999999999999999999;</a>",
                                 "<a>&#x1000000000041;</a>", "<a b='&#0;'/>"],
    "a prefix that is not declared": ["<x:a/>", "<a x:b='c'/>", "<a><b xmlns:x='y'/><x:c/></a>", "<a xmlns='x'><x:b/></a>",
                                      "<a y='x'><y:b/></a>", "<a xmlns:xy='z'><x:b/></a>"],
    "a comment that does not end": ["<a/><!--", "<a><!-- </a>", "<a/><!-- x --", "<a/><!-->", "<a/><!--->", "<!-- <a/>"],
    "'--' in a comment": ["<a><!-- -- --></a>", "<a><!-- x ---></a>"],
    "a declaration that is none": ["<?", "<?xml", "<?xml ", "<?xml version='1.0'", "<?xml version='1.0'><a/>", "<?xm?><a/>",
                                   "<?xmlx?><a/>", "<?xml ? ><a/>", "<?XML?><a/>", "<!DOCTYPE", "<!DOCTYPE a <a/", "<!-a-><a/>",
                                   "<!x><a/>"],
    "NUL": ["\0<a/>", "<a/>\0", "<a>\0</a>", "<a\0/>", "<a b='\0'/>", "<a/>\0<b", "<!--\0--><a/>", "<!DOCTYPE\0><a/>"],
}


class Xml(Syntax):
    def __init__(self, prog, rep):
        Solids.__init__(self, prog, rep)
        from matalg import off
        self.enum = {n: v for l in prog.enums.values() for n, v in l}
        self.parse, self.find, self.ns, self.skip = [self.fn(n) for n in (
            "cp_xml_parse", "cp_xml_find", "cp_xml_set_ns", "cp_xml_skip_attr_p")]
        self.o = lambda r, p: off(prog, r, p)
        self.xo = {p: self.o("cp_syn_xml", p) for p in ("type", "loc", "data", "ns_prefix", "ns", "child", "next")}

    def follow(self, cells, opt):
        m = self.machine(self.sets(cells))
        m.max_loop = 2000

        def setup(m):
            b = Build(self.prog, m)
            for o in ("err", "file", "pool"):
                b.rec(o)
            b.rec("out", 8)
            b.rec("text0", 1 << 12)
            m.text("text0", cells)
            m.store("file", self.o("cp_syn_file_t", "content.data"), Ptr("text0", 0), None)
            m.store("file", self.o("cp_syn_file_t", "content.size"), num(len(cells)), None)
        args = []
        for p in self.parse.params:
            x = p.type.ptr_rec() if p.type.kind == "ptr" else None
            args.append({"cp_err_t": Ptr("err", 0), "cp_pool_t": Ptr("pool", 0), "cp_syn_file_t": Ptr("file", 0)}.get(x)
                        or (num(opt) if p.type.kind == "int" else Ptr("out", 0)))
        try:
            return m, m.paths(self.parse, args, setup)
        except Unsupported as e:
            if "long loop" in str(e) or "long loop" in str(m.unsup):
                # longer than any text; reported once
                self.hung = True
                return m, []
            raise Broken("cannot follow %s(): %s %s" % (self.parse.name, e, m.unsup))

    def bad(self, key, what, textual):
        self.rep.viol("xml:%s" % key, self.parse.body.where(), "%s: %s" % (what, textual))

    def documents(self):
        for what, pre, root, post in corpus():
            for i, style in enumerate(STYLES):
                for opt in (0, 1) if i == 0 else (1,):
                    self.document(what, style, opt, pre, root, post)

    def document(self, what, style, opt, pre, root, post):
        if self.hung:
            return
        w = Writer(style, bool(opt))
        for i in pre:
            w.body([i], {tuple(c_("xml")): XMLNS}, True)
        want = w.elem(root, {tuple(c_("xml")): XMLNS})
        w.body(post, {}, True)
        m, ps = self.follow(w.cells, opt)
        self.rep.count("documents followed")
        if not ps:
            self.bad("aborted", what, "reading does not come to an end")
        for p in ps:
            self.at_end(m, p)
            if not isinstance(p.ret, P) or p.ret.const() != 1:
                self.bad("refused", what, "is refused: %s" % self.message(m))
                return
            try:
                d = self.doc(m, want)
            except Unsupported as e:
                d = "the tree is not complete (%s)" % e
            if d:
                self.bad("tree", what, d)
                return
        self.rep.sample("document", what)

    # ------------------------------------------------------------- nodes
    def xf(self, m, x, path):
        v = self.get(m.mem, m.dflt, x.obj, x.off + self.xo[path])
        return v.fold() if isinstance(v, BV) else v

    def kids(self, m, x):
        r = []
        x = self.xf(m, x, "child")
        while isinstance(x, Ptr) and x.obj is not None:
            r.append(x)
            if len(r) > 1000:
                raise Unsupported("endless list")
            x = self.xf(m, x, "next")
        return r

    def kind(self, m, x):
        t = self.xf(m, x, "type")
        t = t.const() if isinstance(t, P) else None
        return {self.enum["CP_XML_" + n]: n for n in ("DOC", "ELEM", "ATTR", "CDATA")}.get(t)

    def textual(self, m, x, path):
        v = self.xf(m, x, path)
        return tuple(m.cells(v)) if isinstance(v, Ptr) and v.obj is not None else None

    def doc(self, m, want):
        x = self.get(m.mem, m.dflt, "out", 0)
        if not isinstance(x, Ptr) or x.obj is None or self.kind(m, x) != "DOC":
            return "there is no document"
        ks = [k for k in self.kids(m, x) if self.kind(m, k) != "ATTR"]
        if len(ks) != 1:
            return "%d top-level nodes" % len(ks)
        return self.node(m, ks[0], want)

    def qname(self, m, x, prefix, name, ns, at):
        n = self.say(name)
        if self.textual(m, x, "data") != tuple(name):
            return "the name '%s' is read as '%s'" % (n, self.say(self.textual(m, x, "data") or ()))
        if self.textual(m, x, "ns_prefix") != (tuple(prefix) if prefix is not None else None):
            return "the prefix of '%s' is not what is written" % n
        if self.textual(m, x, "ns") != (tuple(ns) if ns is not None else None):
            return "the name space of '%s' is %s" % (n, "another" if ns is not None else "not none")
        l = self.xf(m, x, "loc")
        if not isinstance(l, Ptr) or l.obj != "text0" or not at[0] <= l.off < at[1]:
            return "the place of '%s' is not where it is written" % n
        return None

    def node(self, m, x, want):
        self.rep.count("nodes compared")
        k = self.kind(m, x)
        if want[0] == "text":
            if k != "CDATA":
                return "text is something else in the tree"
            if self.textual(m, x, "data") != tuple(want[1]):
                return "the text '%s' is read as '%s'" % (self.say(want[1]), self.say(self.textual(m, x, "data") or ()))
            return None
        if want[0] == "attr":
            _, prefix, name, ns, v, at = want
            if k != "ATTR":
                return "the attribute '%s' is something else in the tree" % self.say(name)
            d = self.qname(m, x, prefix, name, ns, at)
            if d:
                return d
            c = self.kids(m, x)
            if len(c) != 1 or self.kind(m, c[0]) != "CDATA":
                return "the attribute '%s' has no value" % self.say(name)
            if self.textual(m, c[0], "data") != tuple(v):
                return "the value '%s' is read as '%s'" % (self.say(v), self.say(self.textual(m, c[0], "data") or ()))
            return None
        _, prefix, name, ns, attrs, kids, at = want
        if k != "ELEM":
            return "the element '%s' is something else in the tree" % self.say(name)
        d = self.qname(m, x, prefix, name, ns, at)
        if d:
            return d
        got = self.kids(m, x)
        if len(got) != len(attrs) + len(kids):
            return "'%s' has %d attributes and children instead of %d" % (self.say(name), len(got), len(attrs) + len(kids))
        for g, w in zip(got, attrs + kids):
            d = self.node(m, g, w)
            if d:
                return d
        return None

    # ------------------------------------------------------------- refusals
    def malformed(self):
        for why, texts in WRONG.items():
            for t in texts:
                self.refuse(why, u_(t))
                if "\0" not in t and t:
                    self.refuse(why, u_("\n" + t))
        for t in (b"<a>\xff</a>", b"<a>\xc3</a>", b"<\xc3/>", b"<a b='\xe4\xb8'/>", b"<a/>\x80", b"<a>\xed\xa0\x80</a>",
                  b"<!-- \xc0\x80 --><a/>", b"<a>\xf4\x90\x80\x80</a>"):
            self.refuse("not UTF-8", list(t))
        for pre, post in (("<", "/>"), ("<a ", "/>"), ("<a></", "a>"), ("<a></a", ">"), ("<a", "/>")):
            self.refuse("a sign in a tag", c_(pre) + [fresh("xnotag")] + c_(post))
        for pre, kind in (("lt", "xnotag"), ("g", "xnotag"), ("#6", "nothex"), ("#x4", "nothex")):
            self.refuse("a sign in an entity", c_("<a>&" + pre) + [fresh(kind)] + c_(";</a>"))

    def refuse(self, why, cells):
        if self.hung:
            return
        m, ps = self.follow(cells, 1)
        self.rep.count("documents that must be refused")
        if not ps:
            self.bad("aborted", why, "reading '%s' does not come to an end" % self.say(cells))
        for p in ps:
            self.at_end(m, p)
            if not isinstance(p.ret, P) or p.ret.const() != 0:
                self.bad("accepted", why, "'%s' is accepted" % self.say(cells))
                return
            if not self.message(m):
                self.bad("silent", why, "'%s' is refused without message" % self.say(cells))
                return

    # ------------------------------------------------------------- using the tree
    def machine(self, sets, **kw):
        m = super().machine(sets, **kw)
        m.__class__ = Apart
        m.recursion = 100
        return m

    def lay(self, m, order):
        """nodes (type, data, name space, children) in a row; their objects, in depth-first order"""
        b = Build(self.prog, m)
        for n in ("u", "v", "w", "same"):
            b.rec("ns_" + n, 8)
            m.text("ns_" + n, c_("w" if n == "same" else n) + [0])
        out = []

        def row(nodes, link):
            for t, d, n, kids in nodes:
                o = "n%d" % len(out)
                out.append(o)
                b.rec(o)
                m.store(o, self.xo["type"], num(t), None)
                if d is not None:
                    b.rec("d" + o, 8)
                    m.text("d" + o, c_(d) + [0])
                    m.store(o, self.xo["data"], Ptr("d" + o, 0), None)
                if n is not None:
                    m.store(o, self.xo["ns"], Ptr("ns_" + n, 0), None)
                m.store(link[0], link[1], Ptr(o, 0), None)
                row(kids, (o, self.xo["child"]))
                link = (o, self.xo["next"])
        b.rec("top", 8)
        row(order, ("top", 0))
        return out

    def run1(self, f, args, setup):
        m = self.machine({})
        try:
            ps = m.paths(f, args, setup)
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s %s" % (f.name, e, m.unsup))
        self.rep.count("uses of the tree")
        if not ps:
            self.rep.viol("use:%s" % f.name, f.body.where(), "%s(): no result" % f.name)
        return m, ps

    def pointer(self, x):
        return Ptr(None, 0) if x is None or isinstance(x, P) else x

    def searching(self):
        types = [self.enum["CP_XML_" + n] for n in ("ATTR", "ELEM", "CDATA")]
        any_ = Ptr("global:cp_xml_any_", 0)
        nodes = [(t, d, n, []) for t in types for d in ("a", "b", None) for n in ("u", "v", None)]
        nodes += [(t, "c", "u", [(types[1], "a", "u", [])]) for t in types]
        for t in [0] + types:
            for d in ("a", "b", "c", "x", None, any_):
                for n in ("u", "v", "w", None, any_):
                    for order in (nodes, nodes[::-1]):
                        names = []

                        def setup(m):
                            names[:] = [o for o in self.lay(m, order)]
                            if isinstance(d, str):
                                Build(self.prog, m).rec("key", 8)
                                m.text("key", c_(d) + [0])
                        args = [Ptr("n0", 0), num(t),
                                d if d is any_ else Ptr("key", 0) if d else Ptr(None, 0),
                                n if n is any_ else Ptr("ns_" + n, 0) if n else Ptr(None, 0)]
                        m, ps = self.run1(self.find, args, setup)
                        k, want = 0, Ptr(None, 0)
                        for t1, d1, n1, kids in order:
                            if (t == 0 or t == t1) and (d is any_ or d == d1) and (n is any_ or n == n1):
                                want = Ptr("n%d" % k, 0)
                                break
                            k += 1 + len(kids)
                        for p in ps:
                            if self.pointer(p.ret) != want:
                                self.rep.viol("use:find", self.find.body.where(),
                                              "%s(): searching type %d, data %s, name space %s gives %s instead of %s" % (
                                                  self.find.name, t, d, n, p.ret, want))
                                return
        self.renaming(types)
        self.skipping(types)

    def renaming(self, types):
        A, E, C = types
        kids = lambda *k: [(t, "d", n, list(k)) for t in types for n in (None, "u", "v", "w", "same")]
        order = kids(*kids(*[(E, "d", None, []), (A, "d", "u", []), (E, "d", "same", [])])[4:9]) + kids()
        for old in (None, "u", "v"):
            names = []

            def setup(m):
                names[:] = self.lay(m, order)
            m, ps = self.run1(self.ns, [Ptr("n0", 0), Ptr("ns_" + old, 0) if old else Ptr(None, 0), Ptr("ns_w", 0)], setup)
            flat = []

            def walk(nodes):
                for n in nodes:
                    flat.append(n)
                    walk(n[3])
            walk(order)
            for p in ps:
                for o, (t, d, n, k) in zip(names, flat):
                    want = n
                    if n is None:
                        want = "w" if t == E and old is None else None
                    elif n == old or n in ("w", "same"):
                        want = "w"
                    got = self.pointer(self.get(p.mem, p.dflt, o, self.xo["ns"]))
                    if got != (Ptr("ns_" + want, 0) if want else Ptr(None, 0)):
                        self.rep.viol("use:ns", self.ns.body.where(),
                                      "%s(): renaming %s: a node of type %d with name space %s gets %s" % (
                                          self.ns.name, old, t, n, got))
                        return

    def skipping(self, types):
        A, E, C = types
        for ts in ([], [A], [E], [C], [A, A, E, A], [A, C, E], [A, A, A], [E, A, E]):
            m, ps = self.run1(self.skip, [Ptr("top", 0)], lambda m: self.lay(m, [(t, "d", None, []) for t in ts]))
            k = next((i for i, t in enumerate(ts) if t != A), len(ts))
            want = Ptr("n%d" % (k - 1), self.xo["next"]) if k else Ptr("top", 0)
            for p in ps:
                if p.ret != want:
                    self.rep.viol("use:skip", self.skip.body.where(), "%s(): the attributes are not skipped: %s" % (
                        self.skip.name, p.ret))
                    return


class Apart(Text):
    """all objects are different ones"""

    def decide(self, key, hint=None):
        if key[0] == "ptreq":
            return False
        return super().decide(key, hint)
