"""P43: numbers, lengths, path data, and transforms of SVG are read as they are spelled."""
import multiprocessing
from fractions import Fraction

from alg import ANAME, Fun, P, Ptr, Unsupported, add, div, fn, mul, num, show, sub, var
from bits import BV
from chars import signed8
from facts import Broken
from matalg import off
from p33 import Svg, is_spp, is_str, path_record, tn
from p41 import CLASS, Syntax, Text, c_, fresh
from point import Build

F = Fraction
DIGITS = b"0123456789"
CLASS["digit1"] = c_("123456789")
CLASS["space"] = c_(" \t\r\n")


class N:
    """a number: its characters, of which a digit may be any"""

    def __init__(self, form):
        self.cells = [fresh("digit") if c == "d" else fresh("digit1") if c == "D" else fresh("zero") if c == "z"
                      else ord(c) for c in form]


CLASS["zero"] = c_("0")


def value(cells):
    """an example of what a number is"""
    k = 3
    s = ""
    for c in cells:
        if not isinstance(c, int):
            k = k * 7 % 11
            c = CLASS[c[1]][k % len(CLASS[c[1]])]
        s += chr(c)
    return float(s)


def atom(cells):
    """(name of a number, example); (None, None): zero; ("infinite",), None: too large"""
    c = list(cells)
    if c[0] == ord("+"):
        c = c[1:]
    v = value(c)
    if abs(v) == float("inf"):
        return ("infinite",), None
    if all(isinstance(x, int) for x in c) and v == 0:
        return None, None
    return ("number", "float", tuple(c)), v


def symbol(n):
    a, v = atom(n.cells)
    return num(0) if a is None else var(a)


def scaled(p, by):
    """p where atoms a are a times a monomial: {atom: (factor, [other atoms])}"""
    r = num(0)
    for m, c in p.items():
        t = P({m: c})
        for a, e in m:
            x = by.get(ANAME[a])
            if x is not None:
                f = num(x[0])
                for o in x[1]:
                    f = mul(f, o)
                for _ in range(abs(e)):
                    t = mul(t, f) if e > 0 else div(t, f)
        r = add(r, t)
    return r


def close(p, q):
    if p == q:
        return True
    if not isinstance(p, P) or not isinstance(q, P):
        return False
    d = sub(p, q)
    big = max([abs(float(c)) for c in p.values()] + [1e-30])
    return all(abs(float(c)) < 1e-9 * big for c in d.values())


class SvgText(Text):
    def decide(self, key, hint=None):
        if key[0] == "ptreq":
            # texts and objects of their own
            return False
        return super().decide(key, hint)

    def number(self, kind, cells, end, at):
        if kind != ("float", 8):
            raise Unsupported("number of another kind")

        def is_(i, chars):
            if i >= len(cells):
                return False
            c = cells[i]
            if isinstance(c, int):
                return c in chars
            s = {x & 255 for x in self.members(c)}
            if s <= set(chars):
                return True
            if s & set(chars):
                raise Unsupported("a character that may belong to a number")
            return False

        def digits(i, chars=DIGITS):
            while is_(i, chars):
                i += 1
            return i
        b = 0
        while is_(b, b" \t\r\n\v\f"):
            b += 1
        i = b + is_(b, b"+-")
        j = digits(i)
        k = j + is_(j, b".")
        l = digits(k)
        n = 0
        r = num(0)
        if is_(i + 1, b"xX") and is_(i, b"0") and is_(i + 2, b"0123456789abcdefABCDEF"):
            n = digits(i + 2, b"0123456789abcdefABCDEF.")
            r = var(("hex", tuple(cells[b:n])))
        elif (l - k) + (j - i) > 0:
            n = l
            if is_(n, b"eE"):
                e = n + 1 + is_(n + 1, b"+-")
                x = digits(e)
                if x > e:
                    n = x
            r = self.named(cells[b:n])
        else:
            for w in ("infinity", "inf", "nan"):
                if all(is_(i + q, (w[q] + w[q].upper()).encode()) for q in range(len(w))):
                    n = i + len(w)
                    r = var(("infinite",))
                    break
        if end is not None and end.obj is not None:
            self.store(end.obj, end.off, Ptr(at.obj, at.off + n), None)
        return r

    def x_InitListExpr(self, n):
        r = super().x_InitListExpr(n)
        t = n.type
        if t.kind == "rec":
            fs = [x for x in self.prog.records.get(t.rec)[1]["f"] if x["n"] or x.get("anon")]
            for x, c in zip(fs, n.ch):
                if c.k == "StringLiteral" and c.type.kind == "arr":
                    for i, b in enumerate((c.raw.get("str") or "").encode("latin1") + b"\0"):
                        r.vals[x["off"] + i] = num(signed8(b))
        return r

    def named(self, cells):
        a, v = atom(cells)
        if v is not None:
            self.env[a] = v
            return var(a)
        return num(0) if a is None else var(a)


class Doc:
    """an element; children, or text as a list of pieces"""

    def __init__(self, name, attrs=(), kids=()):
        self.name, self.attrs, self.kids = name, list(attrs), list(kids)


class Reader(Syntax):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.thorough = rep.tier == "thorough"
        svg = Svg(prog)
        self.rec = path_record(svg)
        self.top = self.fn("cp_svg_parse")
        self.xo = {p: self.o("cp_syn_xml", p) for p in ("type", "loc", "data", "ns_prefix", "ns", "child", "next")}
        self.local = None
        for r, (i, d) in prog.records.items():
            if {"mat", "toplevel", "dpi"} <= {x.get("n") for x in d.get("f", ())}:
                self.local = r
        if self.local is None:
            raise Broken("no record of the context in SVG")
        self.pc = off(prog, self.rec, "c")
        mo = off(prog, self.local, "mat")
        self.mat = [mo + off(prog, "cp_mat2wi_t", "n") + (
            off(prog, "cp_mat2w_t", "b") + 8 * (2 * i + j) if j < 2 else off(prog, "cp_mat2w_t", "w") + 8 * i)
            for i in range(2) for j in range(3)]
        # draws: gets a path and a place, and no text that is read
        self.draw = set()
        drawing = [f for f in svg.fs if f.params and f.params[0].type.kind == "ptr" and
                   f.params[0].type.ptr_rec() == self.rec]
        spp = {f.key for f in drawing if any(is_spp(p.type) for p in f.params)}
        # what is called by a reader of path data, directly or by address
        for f in drawing:
            if f.key in spp or not any(is_str(p.type) for p in f.params):
                continue
            if any(prog.resolve(c) is not None and (prog.resolve(c).key in spp or any(
                    is_spp(p.type) for p in prog.resolve(c).params)) for c in f.calls()):
                continue
            self.draw.add(f.key)
        if len(self.draw) < 10:
            raise Broken("no functions that draw")
        self.warned = self.fn("cp_syn_msg")
        self.lo = off(prog, "cp_csg3_local_t", "mat")
        self.cx = {n: off(prog, "cp_csg3_ctxt_t", n) for n in ("err", "opt", "syn")}
        self.trace = {}

    # ------------------------------------------------------------- following
    def on43(self, m, e):
        f = e.f
        if f is not None and f.key in self.draw:
            q = e.args[0]
            c = self.get(m.mem, m.dflt, q.obj, q.off + self.pc)
            mat = []
            if isinstance(c, Ptr):
                mat = [self.get(m.mem, m.dflt, c.obj, c.off + o) for o in self.mat]
            m.events.append(("draw", f.key, tuple(x.fold() if isinstance(x, BV) else x for x in e.args
                                                  if not isinstance(x, (Ptr, Fun))), tuple(mat)))
            return num(1)
        if f is not None and f.key == self.warned.key:
            m.events.append(("message",))
            return num(1)
        if e.callee == "strstr":
            x, y = m.cells(e.args[0]), m.cells(e.args[1])
            for i in range(len(x) - len(y) + 1):
                if x[i:i + len(y)] == y:
                    return Ptr(e.args[0].obj, e.args[0].off + i)
            return Ptr(None, 0)
        return self.on41(m, e)

    def follow(self, docs):
        """[(machine, path, events)] of reading elements"""
        cells = []

        def collect(d):
            for n, v in d.attrs:
                cells.extend(v)
            for k in d.kids:
                collect(k)
        for d in docs:
            collect(d)
        m = SvgText(self.prog, self.sets([c for c in cells if not isinstance(c, int)]), max_paths=64,
                    opaque=self.draw | {self.warned.key})
        m.huge = False
        m.on_event = self.on43
        m.env = dict(self.env0())
        m.max_loop = 4000
        ids = {}

        def setup(m):
            b = Build(self.prog, m)
            for o in ("out", "ctxt", "local", "detail", "err", "opt", "mat3", "input", "tree"):
                b.rec(o)
            b.rec("errno", 16)
            for path, v in (("n.b.m", 1), ("i.b.m", 1)):
                pass
            for part in ("n", "i"):
                for i in range(3):
                    m.store("mat3", off(self.prog, "cp_mat3wi_t", part) + off(self.prog, "cp_mat3w_t", "b") + 8 * 4 * i,
                            num(1), None)
            m.store("mat3", off(self.prog, "cp_mat3wi_t", "d"), num(1), None)
            m.store("local", self.lo, Ptr("mat3", 0), None)
            for n, o in (("err", "err"), ("opt", "opt"), ("syn", "input")):
                m.store("ctxt", self.cx[n], Ptr(o, 0), None)
            ids.clear()

            def node(type_, data):
                o = "node%d" % len(ids)
                ids[o] = 1
                b.rec(o, 128)
                t = "text:%s" % o
                b.rec(t, 1024)
                m.text(t, data)
                for p, v in (("type", num(self.enum["CP_XML_" + type_])), ("data", Ptr(t, 0)), ("loc", Ptr(t, 0)),
                             ("ns_prefix", Ptr(None, 0)), ("child", Ptr(None, 0)), ("next", Ptr(None, 0)),
                             ("ns", Ptr("global:cp_svg_ns_", 0) if type_ == "ELEM" else Ptr(None, 0))):
                    m.store(o, self.xo[p], v, None)
                return o

            def chain(parent, kids):
                at = (parent, self.xo["child"])
                for k in kids:
                    m.store(at[0], at[1], Ptr(k, 0), None)
                    at = (k, self.xo["next"])

            def elem(d):
                o = node("ELEM", c_(d.name))
                ks = []
                for n, v in d.attrs:
                    a = node("ATTR", c_(n))
                    chain(a, [node("CDATA", v)])
                    ks.append(a)
                chain(o, ks + [elem(k) for k in d.kids])
                return o
            root = node("DOC", [])
            chain(root, [elem(d) for d in docs])
        try:
            ps = m.paths(self.top, self.args(m), setup)
        except Unsupported as e:
            if "long loop" in str(e) or "long loop" in str(m.unsup):
                self.hung = True
                return m, []
            raise Broken("cannot follow %s(): %s %s" % (self.top.name, e, m.unsup))
        return m, [(p, [e for e in p.events if type(e) is tuple]) for p in ps]

    def env0(self):
        return {("dpi",): 72.0}

    def args(self, m):
        r = []
        recs = {"cp_csg3_ctxt_t": "ctxt", "cp_csg3_local_t": "local", "cp_detail_t": "detail", "cp_syn_xml": "node1"}
        for p in self.top.params:
            x = p.type.ptr_rec() if p.type.kind == "ptr" else None
            if x in recs:
                r.append(Ptr(recs[x], 0))
            elif p.type.kind == "ptr" and is_str(p.type):
                r.append(Ptr(None, 0))
            elif p.type.kind == "ptr":
                r.append(Ptr("out", 0))
            elif tn(p.type) == "double":
                r.append(var(("dpi",)))
            else:
                r.append(num(0))
        return r


# ------------------------------------------------------------- what is written
FORMS = ["D", "-D", "dd", "+D", "D.d", ".D", "-.D", "Dd.", "D.de-D", "DE+D", "-De1", "zzD", "+.D", "-D.dd", "De0D", "d.D", "0", "-D.", "DDd"]
SETS = {"M": 2, "L": 2, "H": 1, "V": 1, "Q": 4, "T": 2, "C": 6, "S": 4, "A": 7}
# between numbers, after a letter, before a letter
STYLES = {
    "spaces": (" ", " ", " "),
    "commas": (",", "", ""),
    "commas and spaces": (", ", " ", " "),
    "spaces and commas": (" ,", "\n", "\t"),
    "commas in spaces": ("\t,\r\n", "\t ", "\n "),
    "line ends": ("\n", "\n", "\r\n"),
    "nothing where possible": (None, "", ""),
    "a letter for each set": (" ", " ", " "),
    "a letter for each set, and nothing where possible": (None, "", ""),
}
FACTOR = {"": F(1), "px": F(1), "in": F(96), "mm": F(96) / F(254, 10), "cm": F(960) / F(254, 10), "pt": F(96, 72),
          "pc": F(16)}


class Flag:
    def __init__(self, b):
        self.b, self.cells = b, [ord("01"[b])]


def apart(a, b):
    """may b follow a directly"""
    if isinstance(a, Flag):
        return True
    if isinstance(b, Flag):
        return False
    if b.cells[0] in (43, 45):
        return True
    # '.' ends a number that has one, or an exponent
    return b.cells[0] == ord(".") and any(c in b".eE" for c in a.cells if isinstance(c, int))


def between(a, b, sep):
    if sep is not None:
        return c_(sep)
    return [] if apart(a, b) else c_(" ")


def spell(cmds, style):
    """commands: [(letter, [[numbers]])]"""
    sep, after, before = STYLES[style]
    r = []
    for ch, sets in cmds:
        for i, s in enumerate(sets or [[]]):
            if i == 0 or style.startswith("a letter"):
                # after a first move, there are lines
                c = ch if i == 0 or ch not in "Mm" else {"M": "L", "m": "l"}[ch]
                r += (c_(before) if r else []) + [ord(c)] + (c_(after) if s else [])
                prev = None
            for n in s:
                if prev is not None:
                    r += between(prev, n, sep)
                r += n.cells
                prev = n
    return r


class Corpus:
    k = 0

    def n(self, form=None):
        if form is None:
            form = FORMS[self.k % len(FORMS)]
            Corpus.k += 1
        return N(form)

    def set(self, ch, forms=None):
        q = [self.n(forms) for _ in range(SETS[ch.upper()])]
        if ch in "Aa":
            q[3], q[4] = Flag(self.k & 1), Flag(self.k >> 1 & 1)
        return q


class Log:
    """what a part reports"""

    def __init__(self):
        self.log = []

    def count(self, *a):
        self.log.append(("count", a))

    def viol(self, *a):
        self.log.append(("viol", a))

    def sample(self, *a):
        self.log.append(("sample", a))


class Part:
    """a part of the check in a process of its own"""
    reader = None

    def __init__(self, r):
        Part.reader = r

    def __reduce__(self):
        return (Part.again, ())

    @staticmethod
    def again():
        return Part(Part.reader)

    def __call__(self, name):
        r = self.reader
        r.rep = Log()
        b = None
        try:
            getattr(r, name)()
        except Broken as e:
            b = str(e)
        return r.rep.log, b, r.hung


def run(prog, rep):
    rep.rule("the reader of SVG is followed by abstract interpretation on documents of which the digits of numbers are "
             "any digit (a number is an unknown named by the characters that make it up): path data, lengths, lists of "
             "points, view boxes, and transforms, in each way of writing them, must hand to the drawing functions what "
             "is spelled, in order; what is malformed must end the path there with a message, or count as not given")
    r = Part(Check(prog, rep)).reader
    broken = None
    try:
        r.learn()
        with multiprocessing.get_context("fork").Pool(8) as pool:
            parts = pool.map(Part(r), ("paths", "pairs", "forms", "wrong_paths", "points", "lengths", "wrong_lengths", "boxes",
                                       "transforms"), 1)
        for log, b, hung in parts:
            for name, args in log:
                getattr(rep, name)(*args)
            broken = broken or (Broken(b) if b else None)
            r.hung = r.hung or hung
    except Broken as e:
        broken = e
    if r.hung:
        rep.viol("svg:hangs", r.top.body.where(), "reading does not come to an end")
    if broken is not None and not rep.viols:
        raise broken
    rep.floor("documents followed", 400)
    rep.floor("drawing steps compared", 1500)
    rep.floor("numbers compared", 3000)


class Check(Reader):
    def bad(self, key, text, what):
        self.rep.viol("svg:%s" % key, self.top.body.where(), "%s: %s" % (text, what))

    def say(self, cells):
        return "".join(chr(c) if isinstance(c, int) and 32 < c < 127 else " " if c in (9, 10, 13, 32) else
                       "?" if isinstance(c, int) else "0" if c[1] == "zero" else "5" for c in cells)

    def svg(self, kids, attrs=()):
        return [Doc("svg", attrs, kids)]

    def read_(self, docs):
        """events on each path"""
        if self.hung:
            return []
        self.rep.count("documents followed")
        m, ps = self.follow(docs)
        return [ev for p, ev in ps]

    def draws(self, ev):
        return [e for e in ev if e[0] == "draw"]

    def compare(self, key, text, got, want, by=None, messages=0):
        """got: events of each path; want: drawing events"""
        if self.hung:
            return False
        if not got:
            self.bad(key, text, "reading does not come to an end")
            return False
        for ev in got:
            ds = self.draws(ev)
            n = len(ev) - len(ds)
            if len(ds) != len(want):
                self.bad(key, text, "%d drawing steps instead of %d" % (len(ds), len(want)))
                return False
            for k, (d, w) in enumerate(zip(ds, want)):
                self.rep.count("drawing steps compared")
                wa = [scaled(x, by) if by and isinstance(x, P) else x for x in w[2]]
                wm = [scaled(x, by) if by and isinstance(x, P) else x for x in w[3]]
                if d[1] != w[1] or len(d[2]) != len(wa):
                    self.bad(key, text, "step %d of drawing is another" % (k + 1))
                    return False
                for x, y in zip(list(d[2]) + list(d[3]), wa + wm):
                    if isinstance(x, P) and x.const() is None:
                        self.rep.count("numbers compared")
                    if not close(x, y):
                        self.bad(key, text, "in step %d of drawing, a value is %s instead of %s" % (
                            k + 1, show_(x), show_(y)))
                        return False
            if messages == 0 and n:
                self.bad(key, text, "there is a message")
                return False
            if messages and not n:
                self.bad(key, text, "there is no message")
                return False
        self.rep.sample("text", text)
        return True

    # ------------------------------------------------------------- paths
    def path(self, cells):
        return self.svg([Doc("path", [("d", cells)])])

    def learn(self):
        """what each letter does with its numbers: steps of drawing, first and others"""
        self.known = {}
        self.end = None
        for ch in "MLHVQTCSA":
            for c in (ch, ch.lower()):
                for fa, fs in ((0, 0), (0, 1), (1, 0), (1, 1)) if ch == "A" else ((0, 0),):
                    self.learn1(c, fa, fs)
        for c in "Zz":
            got = self.read_(self.path([ord(c)]))
            if len(got) != 1 or len(self.draws(got[0])) != 2:
                raise Broken("path '%s' is not understood" % c)
            self.known[c, 0, None] = got[0][0]

    def learn1(self, c, fa, fs):
        sets = [[N("D") for _ in range(SETS[c.upper()])] for _ in range(3)]
        if c in "Aa":
            for s in sets:
                s[3], s[4] = Flag(fa), Flag(fs)
        cells = spell([(c, sets)], "spaces")
        got = self.read_(self.path(cells))
        text = "path '%s'" % self.say(cells)
        if self.hung:
            raise Broken("endless loop")
        if len(got) != 1:
            raise Broken("%s is not decided: %d ways" % (text, len(got)))
        ds = self.draws(got[0])
        if len(ds) != 4 or len(got[0]) != 4:
            self.bad("path", text, "%d drawing steps and %d messages" % (len(ds) - 1, len(got[0]) - len(ds)))
            raise Broken("path")
        if self.end is None:
            self.end = ds[3]
        for k, (d, s) in enumerate(zip(ds, sets)):
            # the numbers, in order
            at = [i for i, x in enumerate(d[2]) if isinstance(x, P) and x.const() is None]
            if [d[2][i] for i in at] != [symbol(n) for n in s if isinstance(n, N)]:
                self.bad("path", text, "set %d of numbers is not drawn with, but %s" % (
                    k + 1, ", ".join(show_(x) for x in d[2])))
                raise Broken("path")
            self.known[c, min(k, 1), (fa, fs) if c in "Aa" else None] = (d, at)

    def want(self, cmds):
        r = []
        for c, sets in cmds:
            if c in "zZ":
                r.append(self.known[c, 0, None])
            for i, s in enumerate(sets):
                fl = tuple(n.b for n in s if isinstance(n, Flag)) or None
                d, at = self.known[c, min(i, 1), fl]
                a = list(d[2])
                for j, n in zip(at, [n for n in s if isinstance(n, N)]):
                    a[j] = symbol(n)
                r.append((d[0], d[1], tuple(a), d[3]))
        return r

    def paths(self):
        c = Corpus()
        for k, ch in enumerate("MLHVQTCSA"):
            for l in (ch, ch.lower()):
                for style in STYLES:
                    cmds = [("M", [c.set("M")]), (l, [c.set(l) for _ in range(3)]), ("Zz"[k & 1], [])]
                    self.path1(cmds, style)

    def pairs(self):
        c = Corpus()
        for a in "HvAqCm":
            for b in "vtaMSzL":
                cmds = [("m", [c.set("m")]), (a, [c.set(a), c.set(a)]), (b, [c.set(b)] if b != "z" else []),
                        (a, [c.set(a)]), ("Z", [])]
                self.path1(cmds, ("nothing where possible", "spaces and commas")[len(STYLES) & 1])

    def forms(self):
        c = Corpus()
        for i, f in enumerate(FORMS):
            for g in FORMS if self.thorough else FORMS[i & 1::2]:
                self.path1([("M", [[N(f), N(g)]]), ("A", [[N(g), N(f), N(f), Flag(0), Flag(1), N(f), N(g)]]),
                            ("h", [[N(f)], [N(g)]])], "nothing where possible")
        for t in ("", " ", "\n\t "):
            self.compare("path", "path %r" % t, self.read_(self.path(c_(t))), [self.end])
        # white space around
        s = [("M", [c.set("M")]), ("l", [c.set("l")])]
        self.compare("path", "path with space around", self.read_(self.path(
            c_(" \n") + spell(s, "commas") + c_("\t \r\n"))), self.want(s) + [self.end])

    def path1(self, cmds, style):
        cells = spell(cmds, style)
        self.compare("path", "path '%s'" % self.say(cells), self.read_(self.path(cells)), self.want(cmds) + [self.end])

    WRONG = ["x", "L", "L 5", "L 5,", "L , 5 6", "L ,", "L 5,,6", "L --5 6", "L +-5 6", "L . 5", "L - 5 6", "L 5 -", "L 5 .e1",
             "L e1 5", "L + 5 6", "H", "H ,", "V x", "V z", "L 0x10 5", "L 5 0x10", "H 0x10", "A 1 2 3 0,,1 5 6",
             "A 1 2 3,,0 1 5 6", "A 1 2 3 0 1,,5 6", "A 1 2 3 0 1 5,,6", "A,1 2 3 0 1 5 6", "Q 1 2,,3 4", "C 1 2 3 4 5,,6", "A 1 2 3 01", "L inf 5", "L nan 5", "L infinity 5", "L 1e999 5", "L -1e999 5",
             "q 1 2 3", "Q 1 2 3 z", "c 1 2 3 4 5", "S 1 2 3", "t 1", "A 1 2 3 2 0 5 6", "A 1 2 3 0 5 6", "a 1 2 3 0 1 5",
             "A 1 2 3 + 1 5 6", "A 1 2 3 0 -1 5 6", "A 1 2 3", "A 1,2,3,,0,1 5 6", "M", "M 1", "m 1 z", "5", "-5", ",", "%", "L 5 %",
             "L 5em 6", "L (5 6)", "\u00e9", "e", "E", "K 1 2", "!", "b 1"]
    # after complete sets
    LATER = [("L", [2], "7"), ("L", [2, 2], "7"), ("L", [2], ","), ("L", [2], ", z"), ("L", [2], ",, 7 8"), ("L", [2], "7 8,"),
             ("L", [2], "-"), ("L", [2], ". 8"), ("l", [2], "x"), ("l", [2], "7 x"), ("H", [1], ","), ("H", [1], "5 +"), ("h", [1], "%"),
             ("V", [1], ",,5"), ("V", [1], "-"), ("M", [2], "7"), ("m", [2], ","), ("Q", [4], "1"), ("Q", [4], "1 2 3"),
             ("q", [4], ","), ("C", [6], "1 2 3 4 5"), ("c", [6, 6], "1 2,"), ("S", [4], "1 2 3"), ("T", [2], "1"),
             ("A", [7], "1 2 3 1 1 5"), ("a", [7], "1 2 3 5 1 5 6"), ("A", [7], ","), ("Z", [], "5"), ("z", [], ","), ("z", [], "5 6")]

    def wrong_paths(self):
        c = Corpus()
        for t in self.WRONG:
            s = [("M", [c.set("M")]), ("L", [c.set("L")])]
            cells = spell(s, "spaces")
            for gap in (" ", "") if not ("0" <= t[0] <= "9" or t[0] in "-+.,e\u00e9E") else (" Z",):
                w = self.want(s) + ([self.known["Z", 0, None]] if gap == " Z" else []) + [self.end]
                b = cells + c_(gap) + list(t.encode("utf8"))
                self.compare("malformed", "path '%s'" % self.say(b), self.read_(self.path(b)), w, messages=1)
                if t[0] not in "L" or gap:
                    # with more after it
                    b = b + c_(" \"")
                    self.compare("malformed", "path '%s'" % self.say(b), self.read_(self.path(b)), w, messages=1)
        for ch, ns, t in self.LATER:
            s = [("M", [c.set("M")]), (ch, [c.set(ch) for _ in ns])]
            for style in ("spaces", "commas"):
                b = spell(s, style)
                b = b + c_(" " if t[0] in "0123456789.x" else "") + c_(t)
                # 7 8 of a comma that follows is a set
                done = list(s)
                w = self.want(done)
                if t == "7 8,":
                    w = w + self.want([("L", [[N("z"), N("z")]] * 2)])[1:]
                    d, at = self.known["L", 1, None]
                    a = list(d[2])
                    a[at[0]], a[at[1]] = var(atom(c_("7"))[0]), var(atom(c_("8"))[0])
                    w[-1] = (d[0], d[1], tuple(a), d[3])
                if t == "5 +":
                    d, at = self.known["H", 1, None]
                    a = list(d[2])
                    a[at[0]] = var(atom(c_("5"))[0])
                    w = w + [(d[0], d[1], tuple(a), d[3])]
                self.compare("malformed", "path '%s'" % self.say(b), self.read_(self.path(b)), w + [self.end], messages=1)

    # ------------------------------------------------------------- lists of points
    def shape(self, name, **attrs):
        return self.svg([Doc(name, [(k.replace("_", "-"), v) for k, v in attrs.items()])])

    def points(self):
        c = Corpus()
        for name, ends in (("polyline", []), ("polygon", [self.known["Z", 0, None]])):
            for style in STYLES:
                if style.startswith("a letter"):
                    continue
                for k in (1, 2, 4):
                    s = [("M", [c.set("M") for _ in range(k)])]
                    cells = spell(s, style)[1:]
                    self.compare("points", "points of <%s> '%s'" % (name, self.say(cells)),
                                 self.read_(self.shape(name, points=cells)), self.want(s) + ends + [self.end])
            for t in ("x", "7", "7,", "7 8 9", ",", ",,7 8", "7 8,", "-", "L 5 6", "7 8 z", "0x1 5", "7 inf", "7 1e999", ";", "7mm 8"):
                s = [("M", [c.set("M"), c.set("M"), c.set("M")])]
                cells = spell(s, "commas")[1:] + c_(" " + t)
                w = self.want(s)
                for ev in self.read_(self.shape(name, points=cells)):
                    ds = [d[2] for d in self.draws(ev)]
                    text = "points of <%s> '%s'" % (name, self.say(cells))
                    if ds[:3] != [d[2] for d in w]:
                        self.bad("points", text, "other points are read")
                    if len(ev) == len(ds):
                        self.bad("points", text, "there is no message")
                    self.rep.count("drawing steps compared", 3)

    # ------------------------------------------------------------- lengths
    # attribute: (form, what 100% is)
    SHAPES = {
        "circle": {"cx": ("any", "w"), "cy": ("any", "h"), "r": ("pos", "d")},
        "ellipse": {"cx": ("any", "w"), "cy": ("any", "h"), "rx": ("pos", "w"), "ry": ("pos", "h")},
        "rect": {"x": ("any", "w"), "y": ("any", "h"), "width": ("9dddd", "w"), "height": ("9dddd", "h"),
                 "rx": ("D.d", "w"), "ry": (".Dd", "h")},
        "line": {"x1": ("any", "w"), "y1": ("any", "h"), "x2": ("any", "w"), "y2": ("any", "h")},
    }
    POS = ["D", "+D.d", ".De1", "Dd.", "DE-D", "zD"]

    def box(self, kids, square=False):
        w, h = N("Dddd"), N("Dddd")
        if square:
            h = w
        d = symbol(w) if square else fn("sqrt", div(add(mul(symbol(w), symbol(w)), mul(symbol(h), symbol(h))), num(2)))
        return self.svg(kids, [("width", c_("700")), ("height", c_("500")), (
            "viewBox", c_("0 0 ") + w.cells + c_(" ") + h.cells)]), {"w": symbol(w), "h": symbol(h), "d": d}

    def make(self, kind, k):
        vals = {}
        for a, (f, of) in self.SHAPES[kind].items():
            forms = [x for x in FORMS if x != "0"] if f == "any" else self.POS if f == "pos" else [f]
            vals[a] = N(forms[k % len(forms)])
            k += 1
        return vals

    def lengths(self):
        k = 0
        for kind, attrs in self.SHAPES.items():
            for a, (f, of) in attrs.items():
                for unit in list(FACTOR) + ["%"]:
                    k += 1
                    vals = self.make(kind, k)

                    def doc(v):
                        return [Doc(kind, [(x, v if x == a else y.cells) for x, y in vals.items()])]
                    docs, size = self.box(doc(vals[a].cells), of == "d" and k & 1)
                    base = self.read_(docs)
                    text = "%s of <%s> as '%s%s'" % (a, kind, self.say(vals[a].cells), unit)
                    if len(base) != 1 or not self.draws(base[0]):
                        if not self.hung:
                            raise Broken("%s: %d ways" % (text, len(base)))
                        return
                    base = self.draws(base[0])
                    by = {atom(vals[a].cells)[0]: (FACTOR[unit], []) if unit != "%" else (F(1, 100), [size[of]])}
                    if not any(next(iter(by)) in [ANAME[x] for m in v for x, e in m] for d in base for v in d[2]
                               if isinstance(v, P)):
                        self.bad("length", text, "the length is not drawn with")
                        continue
                    for pre, post in (("", ""), (" \n", "\t ")) if k & 1 else (("", ""),):
                        d2 = [Doc("svg", docs[0].attrs, doc(c_(pre) + vals[a].cells + c_(unit) + c_(post)))]
                        self.compare("length", text, self.read_(d2), base, by)
        # one radius, and both
        for kind in ("rect", "ellipse"):
            for one, other in (("rx", "ry"), ("ry", "rx")):
                vals = self.make(kind, 0)
                r = N("D.d")
                rest = [(x, y.cells) for x, y in vals.items() if x not in ("rx", "ry")]
                docs, size = self.box([Doc(kind, rest + [(one, r.cells), (other, r.cells)])])
                base = self.read_(docs)
                if len(base) != 1:
                    raise Broken("radius is not decided")
                for more in ([], [(other, c_("auto"))]):
                    self.compare("length", "<%s> with only %s" % (kind, one), self.read_(
                        [Doc("svg", docs[0].attrs, [Doc(kind, rest + [(one, r.cells)] + more)])]), self.draws(base[0]))

    NONE = ["", " ", "x", "mm", "%", "7 mm", "7,", "7x", "7 m", "7mmm", "7m", "7%%", "7 7", "--7", "7.7.7", "0x7", "inf", "infmm", "nan",
            "1e999", "7em", "7ex", "7e", "-", ".", "+mm", ",7", "7mm8", "7px;", "(7)", "7mm cm", "7i", "7c", "7pp", "7q", "e7",
            "7 %", "7\u00e9"]

    def wrong_lengths(self):
        k = 0
        for kind, attrs in self.SHAPES.items():
            for a, (f, of) in attrs.items():
                if kind in ("line", "ellipse") or a in ("rx", "ry"):
                    continue
                k += 1
                vals = self.make(kind, k)

                def doc(v):
                    return [Doc(kind, [(x, v if x == a else y.cells) for x, y in vals.items() if x != a or v is not None])]
                docs, size = self.box(doc(None))
                base = self.read_(docs)
                if len(base) != 1:
                    raise Broken("<%s> without %s is not decided" % (kind, a))
                n = len(base[0]) - len(self.draws(base[0]))
                for t in self.NONE if a in ("cx", "r", "width") else self.NONE[::5]:
                    self.compare("length", "%s='%s' of <%s>, which is as if not given" % (a, t, kind), self.read_(
                        [Doc("svg", docs[0].attrs, doc(list(t.encode("utf8"))))]), self.draws(base[0]), messages=n)

    # ------------------------------------------------------------- size and view box
    def boxes(self):
        def docs(w, h, v):
            return self.svg([Doc("path", [("d", c_("M 1 2 L 3 4 5 6"))])], [
                (n, x) for n, x in (("width", w), ("height", h), ("viewBox", v)) if x is not None])

        def base(*a):
            r = self.read_(docs(*a))
            if len(r) != 1:
                raise Broken("size is not decided: %d ways" % len(r))
            return self.draws(r[0])
        pos = ["D", "Dd", "D.d", "Ddd"]
        for k, unit in enumerate(list(FACTOR)[1:] * 2):
            w, h = N(pos[k % 4]), N(pos[k // 2 % 4])
            v = [N("D"), N("-D.d"), N("Dd"), N("dD")]
            vb = spell([("M", [v])], "spaces")[2:]
            # the wider side of both is the same
            b = base(w.cells, h.cells, vb)
            for side, n in (("width", w), ("height", h)):
                t = n.cells + c_(unit)
                # either is fitted: at another size, the other one may be
                both = {atom(x.cells)[0]: (FACTOR[unit] / 96, [var(("dpi",))]) for x in (w, h)}
                got = self.read_(docs(w.cells + c_(unit), h.cells + c_(unit), vb))
            self.compare("size", "width and height of <svg> in '%s'" % unit, got, b, both)
        for style in STYLES:
            if style.startswith("a letter"):
                continue
            for a in ("-D", "D.d", "+.D"):
                v = [N(a), N(".D"), N("D.d"), N(".Dd")]
                cells = spell([("M", [v])], style)[1:]
                plain = spell([("M", [v])], "spaces")[2:]
                self.compare("viewBox", "viewBox '%s'" % self.say(cells), self.read_(docs(c_("7"), c_("8"), cells)),
                             base(c_("7"), c_("8"), plain))
        none = base(c_("7"), c_("8"), None)
        for t in ("", "1", "1 2 3", "1 2 3 4 5", "1 2 3 -4", "1 2 -3 4", "1 2 0 4", "1 2 3 0", "1,,2 3 4", ",1 2 3 4", "1 2 3 x", "x",
                  "1 2 3 4,", "1 2 3 4 x", "1;2;3;4", "1 2 3 inf", "1 2 3 1e999"):
            self.compare("viewBox", "viewBox '%s', which is as if not given" % t, self.read_(docs(c_("7"), c_("8"), c_(t))), none)
        v = c_("1 2 3 4")
        for w, h in ((None, c_("8")), (c_("7"), None)):
            b = base(w, h, v)
            for t in ("x", "", "100%", "0", "-5", "7 mm", "7em", "auto"):
                self.compare("size", "a size of <svg> '%s', which is as if not given" % t, self.read_(
                    docs(c_(t) if w is None else w, c_(t) if h is None else h, v)), b)

    # ------------------------------------------------------------- transforms
    NAMES = {"translate": (1, 2), "scale": (1, 2), "rotate": (1, 3), "skewX": (1,), "skewY": (1,), "matrix": (6,)}

    def transforms(self):
        c = Corpus()

        def docs(t):
            return self.svg([Doc("path", [("transform", t), ("d", c_("M 1 2 L 3 4 5 6"))])])

        def one(cmd, vals, sep, gap, pad):
            return c_(cmd + gap + "(" + pad) + spell([("M", [vals])], sep)[1 + len(STYLES[sep][1]):] + c_(pad + ")")

        def base(cmds):
            r = []
            for cmd, vals in cmds:
                r += (c_(" ") if r else []) + one(cmd, vals, "spaces", "", "")
            return self.still(docs(r), cmds)
        k = 0
        for cmd, ns in self.NAMES.items():
            for n in ns:
                for style in STYLES:
                    if style.startswith("a letter"):
                        continue
                    k += 1
                    vals = [c.n("D.d" if cmd == "matrix" and j in (0, 3) else None) for j in range(n)]
                    t = one(cmd, vals, style, ("", " ", "\n")[k % 3], ("", " ", "\t\n")[k // 2 % 3])
                    b = base([(cmd, vals)])
                    if len(b) == 0:
                        continue
                    self.compare("transform", "transform '%s'" % self.say(t), self.read_(docs(t)), b)
        names = list(self.NAMES)
        for sep in ("", " ", ",", " , ", "\n,", ", "):
            for q in range(0, 6, 2):
                cmds = []
                for i in range(3):
                    cmd = ("translate", "rotate", "scale", "skewX", "matrix", "translate", "skewY", "scale")[q + i]
                    cmds.append((cmd, [N("D.d" if j in (0, 3) else ".0D" if cmd == "matrix" else "-D")
                                       for j in range(self.NAMES[cmd][-1])]))
                t = []
                for cmd, vals in cmds:
                    t += (c_(sep) if t else []) + one(cmd, vals, "commas", "", "")
                self.compare("transform", "transform '%s'" % self.say(t), self.read_(docs(t)), base(cmds))
        for t in ("x", "foo(1)", "translate", "translate 5", "translate(5", "translate()", "translate(,5)", "translate(5,,6)", "rotate(x)",
                  "scale(5 6", "rotate(0x10)", "(5)", "translate[5]", "skewX(inf)", "skewX(nan)", "matrix(1 2 3 4 5 1e999)",
                  "translate(5 6 7)", "scale(5 6 7)", "rotate(5 6 7 8)", "skewX(5 6)", "skewY(5 6)", "Translate(5)", "translateX(5)",
                  ",translate(5)", ",", ";scale(5)", "rotate(5deg)", "translate(5px)", "matrix(1 2 3 4 5 6 7)"):
            vals = [N("D.d"), N("-D")]
            for gap in (" ", ","):
                if t[0] == "," and gap == " ":
                    continue
                cells = one("translate", vals, "commas", "", "") + c_(gap + t + " scale(8)")
                got = self.read_(docs(cells))
                got = [self.draws(ev) for ev in got]
                self.compare("transform", "transform '%s'" % self.say(cells), got, base([("translate", vals)]))

    def still(self, docs, what):
        r = self.read_(docs)
        if len(r) != 1:
            raise Broken("transform %s is not decided: %d ways" % ([x[0] for x in what], len(r)))
        return self.draws(r[0])


def show_(x):
    return show(x)[:60] if isinstance(x, P) else "unknown"
