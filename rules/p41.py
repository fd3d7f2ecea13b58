"""P41: SCAD text is read as it is spelled, and messages show the place."""
import string

from alg import ANAME, Blob, Fun, P, Ptr, Unsupported, num, show, var
from bits import BV, signed
from chars import Chars, signed8
from facts import Broken
from matalg import off
from p34 import Solids
from point import Build

LOW, UP, DIG = string.ascii_lowercase, string.ascii_uppercase, string.digits
LET = LOW + UP
LISTS = {"cp_v_ensure_size_", "cp_v_set_size_", "cp_v_copy_arr_", "cp_v_insert_arr_", "cp_v_inflate_",
         "cp_v_clear_", "cp_v_fini_", "cp_pool_calloc"}
CLASS = {
    "low1": [ord(c) for c in LOW if c not in "iumf"],
    "low": [ord(c) for c in LOW],
    "up": [ord(c) for c in UP],
    "_": [ord("_")],
    "digit": [ord(c) for c in DIG],
    "string": [c for c in range(1, 256) if c not in b'"\\'],
    "escaped": [c for c in range(32, 127) if c not in b'"\\'],
    "line": [c for c in range(1, 256) if c != 10],
    "block": [c for c in range(1, 256) if c not in b"*/"],
    "path": [c for c in range(1, 256) if c not in b">"],
    "name": [c for c in range(1, 256) if c not in b"/\\:>"],
    "high": list(range(128, 256)),
    "symbol": [ord(c) for c in "&'+-./:<>?@\\^`|~" if c not in "+-./<"],
    "shown": [ord(c) for c in LET + DIG + "_;()[]"],
}


def cls(kind, tag):
    return ("ch", kind, tag)


class Tok:
    """one token: cells as they are written; value is what they mean"""
    count = 0

    def __init__(self, cells, value=None, skip=0):
        self.cells, self.value, self.skip = cells, value, skip
        self.at = None


def c_(s):
    return list(s.encode("latin1"))


FIRST = ["low1", "up", "low1", "_", "low1"]
MORE = ["low", "digit", "up", "_", "low", "digit", "low", "_", "low", "up", "low", "digit"]


def fresh(kind):
    Tok.count += 1
    if kind == "first":
        kind = FIRST[Tok.count % len(FIRST)]
    elif kind == "more":
        kind = MORE[Tok.count % len(MORE)]
    return cls(kind, Tok.count)


def sym(s):
    return Tok(c_(s))


def ident(n=2, text=None, dollar=False):
    cells = c_(text) if text is not None else \
        (c_("$") if dollar else []) + [fresh("first") for _ in range(min(n, 1))] + \
        [fresh("more") for _ in range(n - 1)]
    return Tok(cells, ("id", tuple(cells)))


def number(form):
    """D is a digit"""
    cells = [fresh("digit") if c == "D" else ord(c) for c in form]
    body = cells[1:] if form[0] == "+" else cells
    kind = "float" if set(form) & set(".eE") else "int"
    return Tok(cells, (kind, tuple(body)))


def text(*cells):
    """a string: 's' any character, 'e' an escaped one, otherwise constant"""
    r = []
    for x in cells:
        if x == "s":
            r.append(fresh("string"))
        elif x == "e":
            r += [92, fresh("escaped")]
        else:
            r += c_(x)
    t = Tok([34] + r + [34], ("string", tuple(r)))
    return t


def path(n, const=None):
    r = c_(const) if const is not None else [fresh("path") for _ in range(n)]
    return Tok([60] + r + [62], ("path", tuple(r)))


# ---------------------------------------------------------------- syntax trees: (tokens, meaning)
def value(t):
    return [t], (t.value, t)


def array(*vs, start="["):
    o = sym("[")
    toks = [o]
    for i, v in enumerate(vs):
        toks += ([sym(",")] if i else []) + v[0]
    return toks + [sym("]")], (("array", [v[1] for v in vs]), o)


def rng(*vs):
    o = sym("[")
    toks = [o]
    for i, v in enumerate(vs):
        toks += ([sym(":")] if i else []) + v[0]
    s, e = vs[0][1], vs[-1][1]
    return toks + [sym("]")], (("range", s, vs[1][1] if len(vs) == 3 else None, e), o)


def arg(v, key=None):
    if key is None:
        return v[0], (None, v[1])
    return [key, sym("=")] + v[0], (key.value[1], v[1])


MODS = {"*": "CP_GC_MOD_AST", "!": "CP_GC_MOD_EXCLAM", "#": "CP_GC_MOD_HASH", "%": "CP_GC_MOD_PERCENT"}


def item(name, args=(), body=None, mods=""):
    """body: None: ';', a list: '{...}', ('one', item)"""
    toks = [sym(c) for c in mods] + [name, sym("(")]
    for i, a in enumerate(args):
        toks += ([sym(",")] if i else []) + a[0]
    toks.append(sym(")"))
    sub = []
    if body is None:
        toks.append(sym(";"))
    elif isinstance(body, tuple):
        toks += body[1][0]
        sub = list(body[1][1])
    else:
        toks.append(sym("{"))
        for b in body:
            toks += b[0]
            sub += b[1]
        toks.append(sym("}"))
    return toks, [("item", name.value[1], mods, [a[1] for a in args], sub, name)]


def block(*items):
    o = sym("{")
    toks, sub = [o], []
    for b in items:
        toks += b[0]
        sub += b[1]
    return toks + [sym("}")], [("item", tuple(c_("{")), "", [], sub, o)]


def use(p):
    return [ident(text="use"), p], [("use", p.value[1])]


def include(p, items):
    """items: what is in the file"""
    t = ident(text="include")
    p.file = items
    return [t, p], [x for i in items for x in i[1]]


def seq(*items):
    toks, sub = [], []
    for b in items:
        toks += b[0]
        sub += b[1]
    return toks, sub


STYLES = {
    "nothing": [""],
    "white space": [" ", "\n", "\t", "\r\n", "  \n "],
    "comments": ["/*B*/", "//L\n", "/**/", " //\n", "/*/B*/", "/***/", "/*B*B*/ ", "//**/\n", "\n/*//\n\"*/",
                 "/* B/B\n*/", "// \"/*L'\n\t"],
}


def layout(toks, style, end=""):
    """cells of a text; each token learns its place"""
    r = []
    seps = STYLES[style]
    k = 0

    def sep():
        nonlocal k
        for c in seps[k % len(seps)]:
            r.append(fresh("block") if c == "B" else fresh("line") if c == "L" else ord(c))
        k += 1
    sep()
    for t in toks:
        t.at = len(r)
        r.extend(t.cells)
        sep()
    r.extend(c_(end))
    return r


def I(*a, **k):
    return item(ident(), *a, **k)


def corpus():
    v = lambda: value(number("D"))
    yield "no statement", seq()
    yield "a call", I()
    yield "names", seq(*[item(ident(n)) for n in (1, 2, 4, 5)])
    yield "names with $ and _", seq(item(ident(2, dollar=True)), item(ident(text="_")), item(ident(text="_9_a")))
    yield "names that begin like keywords", seq(*[item(ident(text=x)) for x in (
        "includes", "includ", "users", "us", "modules", "modul", "functions", "functio", "i", "u", "m", "f",
        "Use", "INCLUDE", "e", "E1")])
    yield "calls in a row", seq(I(), I(), I())
    yield "one child", I(body=("one", I()))
    yield "a chain of children", I(body=("one", I(body=("one", I(body=("one", I()))))))
    yield "no children", seq(I(body=[]), I())
    yield "children", seq(I(body=[I(), I(), I()]), I())
    yield "nested children", seq(I(body=[I(body=[I(), I(body=[])]), I(body=("one", I(body=[I()]))), I()]), I())
    yield "blocks", seq(block(), block(I(), I()), I(body=[block(I()), I()]))
    for c in "*!#%":
        yield "modifier " + c, seq(I(mods=c), I(body=[I(mods=c), I()]), I(mods=c, body=[I()]),
                                   I(body=("one", I(mods=c))), I())
    yield "modifiers together", seq(I(mods="*!"), I(mods="#%", body=[I(mods="!#*")]), I(mods="##"))
    empty = [sym(";")], []
    yield "empty statements", seq(empty, I(), empty, empty, I(body=[empty, I(), empty]))
    for f in ("D", "DDDD", "+D", "-D", "-DDD", "D.D", "D.", ".D", "-.DD", "+D.D", "DeD", "DED", "De-D", "DDe+DD",
              "D.De-D", "-D.DEDD", "+.DeD", "D.eD"):
        yield "number " + f, seq(I([arg(value(number(f)))]), I([arg(value(number(f)), ident()), arg(v())]))
    for n, t in (("empty", ()), ("text", ("s", "s", "s")), ("with \\", ("s", "e", "s", "e")),
                 ("of comment signs", ("//", "s", "/*", "*/")), ("with quotes", ('\\"', "s", '\\"')),
                 ("that ends in \\", ("s", "\\\\")), ("with \\\" and \\\\", ("\\\\", "\\\"", "e", "\\\\\\\""))):
        yield "string " + n, seq(I([arg(value(text(*t)))]), I([arg(value(text(*t)), ident()), arg(v())]))
    yield "names as values", seq(I([arg(value(ident(text="true"))), arg(value(ident()))]),
                                 I([arg(value(ident(4)), ident(dollar=True)), arg(value(ident(text="PI")))]))
    yield "arguments", seq(I([arg(v())]), I([arg(v()), arg(v())]), I([arg(v()), arg(v()), arg(v()), arg(v())]))
    yield "named arguments", seq(I([arg(v(), ident())]), I([arg(v(), ident()), arg(v(), ident())]),
                                 I([arg(v()), arg(v(), ident(4)), arg(v()), arg(v(), ident(1))]))
    yield "arrays", seq(I([arg(array())]), I([arg(array(v()))]), I([arg(array(v(), v(), v()))]),
                        I([arg(array(v(), v()), ident()), arg(array(), ident())]))
    yield "arrays of arrays", I([arg(array(array(v(), v()), array(), array(array(v())), v()))])
    yield "arrays of all kinds", I([arg(array(value(number("-D.D")), value(text("s")), value(ident()),
                                              rng(v(), v()), value(number("-D"))))])
    yield "ranges", seq(I([arg(rng(v(), v()))]), I([arg(rng(v(), v(), v()))]),
                        I([arg(rng(value(number("-D.D")), value(ident()), value(number(".D"))), ident()),
                           arg(rng(array(v()), value(text("s"))))]))
    yield "use", seq(use(path(0)), use(path(3)), I(), use(path(2)), I())
    yield "include", seq(I(), include(path(3), [I([arg(v())]), I(body=[I()])]), I())
    yield "include of nothing", seq(include(path(2), []), I(), include(path(3), [I()]))
    yield "include as children", seq(I(body=[include(path(2), [I(), I()]), I()]), I())
    yield "include in include", seq(include(path(2), [I(), include(path(3), [I(body=[I()])]), I()]), I())
    yield "all of it", seq(
        use(path(4)),
        I([arg(value(text("s", "e"))), arg(array(value(number("D.D")), array(v(), rng(v(), v(), v()))), ident())],
          mods="%", body=[I([arg(value(ident()))], body=("one", I(mods="#"))), block(I(), include(path(3), [I()])),
                          I([arg(rng(v(), v())), arg(value(number("-De-D")), ident(dollar=True))])]),
        I())


WRONG = {
    # what it has instead of being a sequence of statements
    "no ';'": ["a()", "a(){a()}", "a() a()"],
    "no '('": ["a;", "a);", "a{}"],
    "no ')'": ["a(;", "a(1;", "a(1{}", "a("],
    "no '}'": ["a(){", "a(){a();", "{", "a(){a(){}"],
    "a '}' too many": ["}", "a();}", "a(){}}"],
    "a ')' too many": ["a());", "a(1));"],
    "no ','": ["a(1 2);", "a(b=1 c=2);", "a([1 2]);", "a([1] [2]);", "a(1 \"x\");"],
    "no argument": ["a(,);", "a(,1);", "a(1,,2);", "a([,]);", "a([1,,2]);", "a([,1]);"],
    "no value": ["a(b=);", "a(b=,1);", "a(=1);", "a(b=;"],
    "no name": ["a(1=2);", "a(\"b\"=2);", "a([1]=2);", "a(b=c=2);", "();", "*();", "*;", "1();", "\"a\"();"],
    "no ']'": ["a([1);", "a([1,2);", "a([);", "a([1:2);", "a([1:2:3);", "a([[1,2],3);"],
    "a ']' too many": ["a(1]);", "a([1]]);"],
    "not a range": ["a([1:]);", "a([:2]);", "a([1:2:]);", "a([1:2:3:4]);", "a([1,2:3]);", "a([1:2,3]);",
                    "a([:]);"],
    "a file that ends too early": ["a(\"x", "a(\"x\\\"", "a(\"x\\", "/*", "a();/* *", "/*/", "a(); /* // \n", "use <x",
                                  "include <x"],
    "a number that goes on": ["a(1.2.3);", "a(1b);", "a(1-2);", "a(1.5x);", "a(1e5e6);", "a(1+1);", "a(1$b);"],
    "no path": ["use;", "use a", "use \"x\"", "include", "include a();", "include \"x\"", "include;"],
    "a word not supported": ["module a(){}", "function a()=1;", "a=1;", "a(){module b(){}}", "a(){use <x>}",
                             "a();a=2;", "a() use <x>", "a(){function f()=1;}"],
    "a sign that is not in the syntax": ["@", "a()@;", "a(@);", "a(){@}", "a();~", "a(1&2);", "a(!b);", "\x01",
                                         "a(1)=b();", "a();)", ".();", "a().b();", "<x>", "a(b?c);", "a([1;2]);"],
    "a NUL": ["a();\0b();", "a(){\0}", "a(\0);", "a(\"x\0y\");", "a();//x\0y\nb();", "/*\0*/a();", "\0", "a\0();"],
    "8-bit signs": ["\xe4();", "a(\xe4);", "a();\xe4", "a(\"\\\xe4\");", "a\xe4();"],
}


def run(prog, rep):
    rep.rule("the parser is followed by abstract interpretation over texts of which each character is a constant or "
             "any member of a class (letters, digits, what may be in strings, comments, paths): for each construct "
             "of the documented syntax, laid out without space, with white space, and with comments, the tree "
             "must be what is spelled, each node must know its place; texts that lack or repeat a sign or end too "
             "early must be refused with a message, as must be numbers out of range. Reading a file must give "
             "its bytes, lines and name relative to the including file; each place in it must be found again "
             "with its line, and shown with a mark below it")
    s = Syntax(prog, rep)
    s.trees()
    s.wrong()
    s.files()
    rep.floor("texts followed", 100)
    rep.floor("nodes compared", 700)
    rep.floor("texts that must be refused", 150)
    rep.floor("places found", 25)
    rep.floor("places shown", 10)


class Text(Chars):
    def cast(self, n):
        v = super().cast(n)
        ck = n.raw.get("ck")
        if isinstance(v, P) and v.const() is None and ck in (
                "IntegralCast", "FloatingCast", "IntegralToFloating") and any(
                    k[0] == "number" for k in self.names_of(v)):
            sz = n.type.raw.get("sz") or 8
            if sz < 8 or ck == "IntegralToFloating" or ck == "IntegralCast" and not signed(n.type):
                # may be another number
                return var(("cast", ck, sz, v.key()))
        return v

    x_ImplicitCastExpr = x_CStyleCastExpr = cast

    def names_of(self, v):
        return [ANAME[a] for m in v for a, e in m]

    def number(self, kind, cells, end, at):
        if end is not None and end.obj is not None:
            raise Unsupported("end of a number")
        if kind not in (("int", 10), ("float", 8)):
            return var(("number", "%s %s" % kind, tuple(cells)))
        c = list(cells)
        if c and c[0] == ord("+"):
            c = c[1:]
        if self.huge and kind[0] == "int" and len(c) > 18:
            self.store("errno", 0, num(34), None)
            return num((1 << 63) - 1)
        if self.huge and kind[0] == "float" and ord("e") in c:
            return var(("infinite",))
        return var(("number", kind[0], tuple(c)))


class Syntax(Solids):
    hung = False

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.enum = {n: v for l in prog.enums.values() for n, v in l}
        self.parse, self.read, self.loc, self.show = [self.fn(n) for n in (
            "cp_syn_parse", "cp_syn_read", "cp_syn_get_loc", "cp_syn_format_loc")]
        self.o = lambda r, p: off(prog, r, p)

    def fn(self, name):
        fs = [f for f in self.prog.functions.values() if f.name == name]
        if len(fs) != 1:
            raise Broken("no %s()" % name)
        return fs[0]

    def sets(self, cells):
        s = {}
        for c in cells:
            if not isinstance(c, int):
                s[c] = tuple(signed8(x) for x in CLASS[c[1]])
        return s

    # ------------------------------------------------------------- machine
    def machine(self, sets, **kw):
        m = Text(self.prog, sets, max_paths=64, **kw)
        m.huge = False
        m.on_event = self.on41
        self.files_ = {}
        return m

    def on41(self, m, e):
        a, name = e.args, e.callee
        r = m.library(e)
        if r is not None:
            return r

        def c(i):
            x = a[i].fold() if isinstance(a[i], BV) else a[i]
            x = x.const() if isinstance(x, P) else None
            if x is None:
                raise Unsupported("%s() with an unknown number" % name)
            return int(x)
        if name == "__errno_location":
            return Ptr("errno", 0)
        if "isfinite" in (name or "") or name in ("finite", "__finite"):
            return num(0 if a[0] == var(("infinite",)) else 1)
        if name == "cp_vchar_printf":
            self.printed(m, a[0], m.format(m.cells(a[1]), a[2:]))
            return num(0)
        if name == "realloc":
            p = self.zeroed(m, 1 << 16)
            if isinstance(a[0], Ptr) and a[0].obj is not None:
                m.store(p.obj, 0, m.blob(a[0].obj, a[0].off, 1 << 16), None)
            return p
        if name in ("calloc", "malloc"):
            return self.zeroed(m, 1 << 16)
        if name == "free":
            return num(0)
        if name == "?" and a and isinstance(a[0], Ptr) and str(a[0].obj).startswith("global:"):
            if e.call.type is None or e.call.type.kind != "ptr":
                return num(0)
            old = [x for x in a[1:] if isinstance(x, Ptr)]
            p = self.zeroed(m, 1 << 16)
            if old and old[0].obj is not None:
                m.store(p.obj, 0, m.blob(old[0].obj, old[0].off, 1 << 16), None)
            return p
        if name == "cp_pool_calloc":
            return self.zeroed(m, 1 << 12)
        if name in ("cp_v_ensure_size_", "cp_v_set_size_", "cp_v_copy_arr_", "cp_v_insert_arr_", "cp_v_inflate_",
                    "cp_v_clear_", "cp_v_fini_"):
            return self.lists(m, e, name)
        if name == "cp_syn_read":
            return self.opened(m, a)
        if name == "fopen":
            self.names.append((m.cells(a[0]), bytes(m.cells(a[1]))))
            return Ptr("FILE", 0) if self.there else Ptr(None, 0)
        if name == "fread":
            n = min(c(1) * c(2), len(self.data) - self.pos)
            if self.bad_read is not None and self.pos >= self.bad_read:
                return num(0)
            for i in range(n):
                m.mem[a[0].obj, a[0].off + i] = num(signed8(self.data[self.pos + i])) \
                    if isinstance(self.data[self.pos + i], int) else var(self.data[self.pos + i])
            self.pos += n
            return num(n // c(1))
        if name == "feof":
            return num(1 if self.pos >= len(self.data) else 0)
        if name == "ferror":
            return num(1 if self.bad_read is not None and self.pos >= self.bad_read else 0)
        if name == "strerror":
            return Ptr("str:reason", 0)
        if name in ("fclose", "rewind", "fflush"):
            return num(0)
        raise Unsupported("call of %s() %s" % (name, m.unsup.get(e.f.key, "") if e.f is not None else ""))

    def lists(self, m, e, name):
        a = e.args
        k = [x.const() if isinstance(x, P) else None for x in a]
        v = self.vecof(m, a[1] if name != "cp_v_fini_" else a[0])
        if name == "cp_v_fini_":
            return num(0)
        if v is None:
            raise Unsupported("list of unknown size")
        if name == "cp_v_clear_":
            m.store(a[1].obj, a[1].off + self.vec["size"], num(0), None)
            return num(0)
        if k[2] is None or k[3] is None:
            raise Unsupported("list of unknown size")
        esz, pos = int(k[2]), int(k[3])
        if v[0] is None:
            d = self.zeroed(m, 1 << 16)
            m.store(a[1].obj, a[1].off + self.vec["data"], d, None)
            v = (d.obj, d.off, v[2])
        if name in ("cp_v_ensure_size_", "cp_v_set_size_"):
            n = pos
            if n > v[2]:
                m.store(v[0], v[1] + v[2] * esz, Blob((n - v[2]) * esz, {}, [(0, (n - v[2]) * esz, None, 0)]), None)
            if n > v[2] or name == "cp_v_set_size_":
                m.store(a[1].obj, a[1].off + self.vec["size"], num(n), None)
            return num(0)
        cnt = k[4] if name == "cp_v_inflate_" else k[5]
        if cnt is None:
            raise Unsupported("list: %s(%s)" % (name, a))
        cnt = int(cnt)
        if name == "cp_v_copy_arr_":
            n = max(v[2], pos + cnt)
        else:
            # as appending, or make room
            n = v[2] + cnt
            if pos < v[2]:
                rest = m.blob(v[0], v[1] + pos * esz, (v[2] - pos) * esz)
                m.store(v[0], v[1] + (pos + cnt) * esz, rest, None)
        m.store(a[1].obj, a[1].off + self.vec["size"], num(n), None)
        at = v[1] + pos * esz
        if name == "cp_v_inflate_":
            m.store(v[0], at, Blob(esz * cnt, {}, [(0, esz * cnt, None, 0)]), None)
        elif isinstance(a[4], Ptr) and a[4].obj is not None:
            m.store(v[0], at, m.blob(a[4].obj, a[4].off, esz * cnt), None)
        return Ptr(v[0], at)

    def printed(self, m, v, cells):
        """appends to a growing text"""
        n = self.const(m.mem, m.dflt, v.obj, v.off + self.o("cp_vchar_t", "size"))
        d = self.get(m.mem, m.dflt, v.obj, v.off + self.o("cp_vchar_t", "data"))
        if n is None:
            raise Unsupported("text of unknown size")
        p = self.zeroed(m, 1 << 16)
        if isinstance(d, Ptr) and d.obj is not None and n:
            m.store(p.obj, 0, m.blob(d.obj, d.off, n), None)
        m.text(p.obj, cells, n)
        m.store(p.obj, n + len(cells), num(0), None)
        m.store(v.obj, v.off + self.o("cp_vchar_t", "data"), p, None)
        m.store(v.obj, v.off + self.o("cp_vchar_t", "size"), num(n + len(cells)), None)

    def opened(self, m, a):
        """cp_syn_read() of an included file"""
        f, loc, name = a[0], a[3], m.cells(a[4])
        self.opens.append((loc, name))
        n = tuple(name)
        if n not in self.disk:
            self.printed(m, Ptr("err", self.o("cp_err_t", "msg")), c_("cannot open"))
            return num(0)
        cells = self.disk[n]
        obj = "text%d" % (1 + sorted(self.disk, key=str).index(n))
        m.store(obj, 0, Blob(1 << 12, {}, [(0, 1 << 12, None, 0)]), None)
        m.text(obj, cells)
        m.store(f.obj, f.off + self.o("cp_syn_file_t", "content.data"), Ptr(obj, 0), None)
        m.store(f.obj, f.off + self.o("cp_syn_file_t", "content.size"), num(len(cells)), None)
        return num(1)

    # ------------------------------------------------------------- following the parser
    def follow(self, cells, disk=(), huge=False):
        all_ = list(cells) + [c for d in dict(disk).values() for c in d] + [c for n in dict(disk) for c in n]
        m = self.machine(self.sets(all_), opaque=LISTS | {"cp_syn_read"})
        m.huge = huge
        m.max_loop = 4000
        self.disk, self.opens = dict(disk), []

        def setup(m):
            b = Build(self.prog, m)
            for o in ("err", "input", "tree", "file"):
                b.rec(o)
            b.rec("text0", 1 << 12)
            b.rec("errno", 16)
            m.store("errno", 0, num(34), None)
            m.text("text0", cells)
            m.store("file", self.o("cp_syn_file_t", "content.data"), Ptr("text0", 0), None)
            m.store("file", self.o("cp_syn_file_t", "content.size"), num(len(cells)), None)
        try:
            return m, m.paths(self.parse, self.params(self.parse, {
                "cp_err_t": "err", "cp_syn_input_t": "input", "cp_syn_tree_t": "tree", "cp_syn_file_t": "file"}),
                setup)
        except Unsupported as e:
            if "long loop" in str(e) or "long loop" in str(m.unsup):
                # longer than any text; reported once
                self.hung = True
                return m, []
            raise Broken("cannot follow %s(): %s %s" % (self.parse.name, e, m.unsup))

    def params(self, f, by):
        r = []
        for p in f.params:
            x = p.type.ptr_rec() if p.type.kind == "ptr" else None
            if x not in by:
                raise Broken("%s() has a parameter %s" % (f.name, p.name))
            r.append(Ptr(by[x], 0))
        return r

    def bad(self, key, what, textual):
        self.rep.viol("syntax:%s" % key, self.parse.body.where(), "%s: %s" % (what, textual))

    def at_end(self, m, p):
        m.mem, m.dflt, m.conds = p.mem, p.dflt, p.conds

    def trees(self):
        for what, (toks, want) in corpus():
            for style in STYLES:
                self.tree(what, style, toks, want)
        # a comment that the file ends in
        for end in ("//", "// x", "/**/", "/* x */", "\n", "//\n"):
            toks, want = seq(I(), I())
            self.tree("file that ends in %r" % end, "nothing", toks, want, end)
        self.numbers()

    def tree(self, what, style, toks, want, end=""):
        if self.hung:
            return
        disk = {}

        def inner(toks):
            for t in toks:
                if getattr(t, "file", None) is not None:
                    sub = [x for i in t.file for x in i[0]]
                    inner(sub)
                    disk[tuple(t.value[1])] = layout(sub, style)
        inner(toks)
        cells = layout(toks, style, end)
        # tokens of included files keep their places
        m, ps = self.follow(cells, disk)
        self.rep.count("texts followed")
        name = "%s (%s between the words)" % (what, style) if not end else what
        if not ps:
            self.bad("aborted", name, "reading does not come to an end")
        for p in ps:
            self.at_end(m, p)
            if not isinstance(p.ret, P) or p.ret.const() != 1:
                self.bad("refused", name, "is refused: %s" % self.message(m))
                return
            try:
                d = self.differs(m, Ptr("tree", self.o("cp_syn_tree_t", "toplevel")), want, self.stmt)
            except Unsupported as e:
                d = "the tree is not complete (%s)" % e
            if d:
                self.bad("tree", name, d)
                return
        self.rep.sample("text", name)

    def message(self, m):
        v = Ptr("err", self.o("cp_err_t", "msg"))
        n = self.const(m.mem, m.dflt, v.obj, v.off + self.o("cp_vchar_t", "size"))
        d = self.get(m.mem, m.dflt, v.obj, v.off + self.o("cp_vchar_t", "data"))
        if not n or not isinstance(d, Ptr):
            return ""
        return "".join(chr(c) if isinstance(c, int) else "?" for c in m.cells(d, n)).strip()

    # ------------------------------------------------------------- comparing
    def ptrs(self, m, v):
        l = self.vecof(m, v)
        if l is None:
            raise Unsupported("list")
        r = []
        for i in range(l[2]):
            x = self.get(m.mem, m.dflt, l[0], l[1] + 8 * i)
            if not isinstance(x, Ptr) or x.obj is None:
                raise Unsupported("element")
            r.append(x)
        return r

    def differs(self, m, v, want, one):
        xs = self.ptrs(m, v)
        if len(xs) != len(want):
            return "%d elements where %d are written" % (len(xs), len(want))
        for x, w in zip(xs, want):
            d = one(m, x, w)
            if d:
                return d
        return None

    def field(self, m, x, rec, path):
        return self.get(m.mem, m.dflt, x.obj, x.off + self.o(rec, path))

    def is_text(self, m, p, cells):
        if not isinstance(p, Ptr) or p.obj is None:
            return False
        return m.cells(p) == list(cells)

    def say(self, cells):
        return "".join(chr(c) if isinstance(c, int) and 32 <= c < 127 else "x" for c in cells)

    def type_is(self, m, x, rec, name):
        t = self.field(m, x, rec, "type")
        return isinstance(t, P) and t.const() == self.enum[name]

    def place(self, m, x, rec, tok):
        l = self.field(m, x, rec, "loc")
        if not isinstance(l, Ptr) or l.obj is None or not l.obj.startswith("text"):
            return "a node has no place"
        # where the file is does not matter, but the word must be there
        if not tok.at <= l.off < tok.at + len(tok.cells):
            return "the place of '%s' is given as character %d instead of %d" % (
                self.say(tok.cells), l.off, tok.at)
        return None

    def stmt(self, m, x, w):
        self.rep.count("nodes compared")
        if w[0] == "use":
            r = "cp_syn_stmt_use_t"
            if not self.type_is(m, x, r, "CP_SYN_STMT_USE"):
                return "a 'use' is something else in the tree"
            if not self.is_text(m, self.field(m, x, r, "path"), w[1]):
                return "the path of 'use' is not what is written"
            return None
        r = "cp_syn_stmt_item"
        if not self.type_is(m, x, r, "CP_SYN_STMT_ITEM"):
            return "a call is something else in the tree"
        _, name, mods, args, sub, tok = w
        f = self.field(m, x, r, "functor")
        if not self.is_text(m, f, name):
            return "the name of the call is '%s' instead of '%s'" % (
                self.say(m.cells(f)) if isinstance(f, Ptr) and f.obj else "", self.say(name))
        k = self.field(m, x, r, "modifier")
        k = k.fold() if isinstance(k, BV) else k
        want = 0
        for c in mods:
            want |= self.enum[MODS[c]] if MODS[c] in self.enum else self.macro(MODS[c])
        if not isinstance(k, P) or k.const() != want:
            return "the modifiers of '%s' are %s instead of %d ('%s')" % (
                self.say(name), k.const() if isinstance(k, P) else k, want, mods)
        d = self.place(m, x, r, tok)
        if d:
            return d
        d = self.differs(m, Ptr(x.obj, x.off + self.o(r, "arg")), args, self.arg)
        if d:
            return "arguments: " + d if d[0].isdigit() else d
        d = self.differs(m, Ptr(x.obj, x.off + self.o(r, "body")), sub, self.stmt)
        if d and d[0].isdigit():
            return "children of '%s': %s" % (self.say(name), d)
        return d

    def macro(self, name):
        raise Broken("no %s" % name)

    def arg(self, m, x, w):
        self.rep.count("nodes compared")
        k = self.field(m, x, "cp_syn_arg", "key")
        if w[0] is None:
            if isinstance(k, Ptr) and k.obj is not None:
                return "an argument without name gets the name '%s'" % self.say(m.cells(k))
        elif not self.is_text(m, k, w[0]):
            return "the name of the argument is not '%s'" % self.say(w[0])
        return self.val(m, self.field(m, x, "cp_syn_arg", "value"), w[1])

    def val(self, m, x, w):
        self.rep.count("nodes compared")
        if not isinstance(x, Ptr) or x.obj is None:
            return "a value is missing"
        v, tok = w
        kind = v[0]
        r = "cp_syn_value_%s_t" % kind
        if not self.type_is(m, x, r, "CP_SYN_VALUE_%s" % kind.upper()):
            return "'%s' is not taken for a value of type %s" % (self.say(tok.cells), kind)
        d = self.place(m, x, r, tok)
        if d:
            return d
        if kind in ("id", "string"):
            if not self.is_text(m, self.field(m, x, r, "value"), v[1]):
                return "the value of '%s' is not what is written" % self.say(tok.cells)
            return None
        if kind in ("int", "float"):
            y = self.field(m, x, r, "value")
            if y != var(("number", kind, tuple(v[1]))):
                return "the value of '%s' is %s" % (
                    self.say(tok.cells), "another number" if isinstance(y, P) else y)
            return None
        if kind == "array":
            d = self.differs(m, Ptr(x.obj, x.off + self.o(r, "value")), v[1], self.val)
            return "array: " + d if d and d[0].isdigit() else d
        for n, e in (("start", v[1]), ("inc", v[2]), ("end", v[3])):
            y = self.field(m, x, r, n)
            if e is None:
                if isinstance(y, Ptr) and y.obj is not None:
                    return "a range without increment gets one"
            else:
                d = self.val(m, y, e)
                if d:
                    return "%s of a range: %s" % (n, d)
        return None

    # ------------------------------------------------------------- refusals
    def numbers(self):
        for form, huge in (("D" * 30, True), ("-" + "D" * 30, True), ("DeDDDD", True), ("-D.DeDDD", True)):
            for key in (None, ident(1)):
                toks, want = seq(I([arg(value(number(form)), key)]))
                self.refuse("a number that is too large", layout(toks, "nothing"), huge=huge)

    def wrong(self):
        for why, texts in WRONG.items():
            for t in texts:
                self.refuse(why, c_(t))
                if not t.endswith(("\\", "/*", "*", "/", "<x", "\"x", "\\\"", "\n")):
                    self.refuse(why, c_("\n " + " ".join(t.split()) + "\n"), )
        self.refuse("a sign that is not in the syntax", c_("a();") + [fresh("symbol")])
        self.refuse("8-bit signs", [fresh("high")] + c_("a();"))
        name = tuple([fresh("path"), fresh("path")])
        inc = c_("include<") + list(name) + c_(">b();")
        self.refuse("an included file that is not there", inc)
        for why in ("a '}' too many", "no '}'", "no ';'", "no ')'", "a word not supported"):
            for t in WRONG[why]:
                self.refuse("included: " + why, inc, {name: c_(t)})

    def refuse(self, why, cells, disk=(), huge=False):
        if self.hung:
            return
        m, ps = self.follow(cells, disk, huge)
        self.rep.count("texts that must be refused")
        if not ps:
            self.bad("aborted", why, "reading '%s' does not come to an end" % self.say(cells))
        for p in ps:
            self.at_end(m, p)
            if not isinstance(p.ret, P) or p.ret.const() != 0:
                self.bad("accepted", why, "'%s' is accepted" % self.say(cells))
                return
            if not self.message(m):
                self.bad("silent", why, "'%s' is refused without message" % self.say(cells))
                return

    # ------------------------------------------------------------- files
    def files(self):
        shown = lambda n: [fresh("shown") for _ in range(n)]
        any_ = lambda n: [fresh("line") for _ in range(n)]
        where = self.read.body.where()
        # bytes, lines and places
        cases = {"no line": [], "a line": shown(3) + [10], "a line without end": shown(3),
                 "empty lines": [10, 10] + shown(1) + [10, 10], "many lines": [], "long": [],
                 "the last line has no end": shown(1) + [10] + shown(2) + [10] + shown(2)}
        for i in range(9):
            cases["many lines"] += shown(i % 3) + [10]
        cases["long"] = any_(2) + [10] + any_(3) + [65] * 9000 + [10] + any_(2)
        for what, cells in cases.items():
            m, ps, _ = self.reading(cells, Ptr(None, 0), shown(2))
            if len(ps) != 1 or ps[0].ret.const() != 1:
                self.rep.viol("file:refused", where, "%s: the file is not read" % what)
                continue
            self.at_end(m, ps[0])
            if self.content(m, what, cells) and what != "long":
                self.places(m, ps[0], what, cells)
        # names
        a, b, c = [[fresh("name") for _ in range(2)] for _ in range(3)]
        for what, base, name, want in (
                ("a file next to one in this directory", a, b, b),
                ("a file next to one in a directory", a + [47] + b, c, a + [47] + c),
                ("a file below the directory", a + [47] + b, c + [47] + a, a + [47] + c + [47] + a),
                ("a file below a deep directory", [47] + a + [47] + b + [47] + c, b, [47] + a + [47] + b + [47] + b),
                ("an absolute name", a + [47] + b, [47] + c, [47] + c),
                ("a name on the command line", None, a + [47] + b, a + [47] + b)):
            m, ps, names = self.reading(shown(2), base, name)
            self.rep.count("file names")
            if names != [want]:
                self.rep.viol("file:name", where, "%s: '%s', named in '%s', is looked up as '%s'" % (
                    what, self.say(name), self.say(base or []),
                    ", ".join(self.say(n) for n in names)))
        for what, kw in (("a file that is not there", {"there": False}),
                         ("a file that cannot be read", {"bad": 0}), ("a file that is cut off by an error", {"bad": 1})):
            m, ps, names = self.reading([65] * 9000, Ptr(None, 0), shown(2), **kw)
            for p in ps:
                self.at_end(m, p)
                if p.ret.const() != 0 or not self.message(m):
                    self.rep.viol("file:error", where, "%s: no failure with a message" % what)
        self.marks()

    def reading(self, cells, base, name, there=True, bad=None):
        """read a file; base: name of the file that includes it, or nothing"""
        m = self.machine(self.sets(list(cells) + list(name) + (base if isinstance(base, list) else [])),
                         opaque=LISTS)
        rec = "cp_syn_file_t"
        self.data, self.pos, self.names = cells, 0, []
        self.there, self.bad_read = there, bad

        def setup(m):
            self.pos, self.names = 0, []
            b = Build(self.prog, m)
            for o in ("err", "input", "file", "parent"):
                b.rec(o)
            b.rec("errno", 16)
            b.rec("parent.text")
            m.text("fname", list(name) + [0])
            m.text("pname", (base if isinstance(base, list) else []) + [0])
            if isinstance(base, list):
                for n in ("content", "content_orig"):
                    m.store("parent", self.o(rec, n + ".data"), Ptr("parent.text", 0), None)
                    m.store("parent", self.o(rec, n + ".size"), num(9), None)
                m.store("parent", self.o(rec, "filename.data"), Ptr("pname", 0), None)
                m.store("parent", self.o(rec, "filename.size"), num(len(base)), None)
                b.array("parent", self.o(rec, "line"), "parent.line", 2)
                m.store("parent.line", 0, Ptr("parent.text", 0), None)
                m.store("parent.line", 8, Ptr("parent.text", 9), None)
                b.array("input", self.o("cp_syn_input_t", "file"), "input.file", 1)
                m.store("input.file", 0, Ptr("parent", 0), None)
        args = []
        for p in self.read.params:
            x = p.type.ptr_rec() if p.type.kind == "ptr" else None
            if x in ("cp_err_t", "cp_syn_input_t", "cp_syn_file_t"):
                args.append(Ptr({"cp_err_t": "err", "cp_syn_input_t": "input", "cp_syn_file_t": "file"}[x], 0))
            elif x is not None and "FILE" in x:
                args.append(Ptr(None, 0))
            elif len([y for y in args if y.obj in (None, "parent.text")]) == 0 and p.type.kind == "ptr" and \
                    "loc" in p.name:
                args.append(Ptr("parent.text", 4) if isinstance(base, list) else Ptr(None, 0))
            elif p.type.kind == "ptr" and "name" in p.name:
                args.append(Ptr("fname", 0))
            elif p.type.kind == "ptr":
                args.append(Ptr(None, 0))
            else:
                raise Broken("%s() has a parameter %s" % (self.read.name, p.name))
        try:
            ps = m.paths(self.read, args, setup)
        except Unsupported as e:
            raise Broken("cannot follow %s(): %s %s" % (self.read.name, e, m.unsup))
        return m, ps, [n for n, mode in self.names]

    def vchar(self, m, x, path):
        n = self.const(m.mem, m.dflt, x.obj, x.off + self.o("cp_syn_file_t", path + ".size"))
        d = self.get(m.mem, m.dflt, x.obj, x.off + self.o("cp_syn_file_t", path + ".data"))
        return (d, n) if isinstance(d, Ptr) and n is not None else (None, n)

    def content(self, m, what, cells):
        where = self.read.body.where()
        f = Ptr("file", 0)
        for n in ("content", "content_orig"):
            d, k = self.vchar(m, f, n)
            if k != len(cells) or d is None or m.cells(d, k) != list(cells):
                self.rep.viol("file:content", where, "%s: what is read is not what is in the file (%s of %d bytes)" % (
                    what, k, len(cells)))
                return False
        d, k = self.vchar(m, f, "content")
        if m.cell(d.obj, d.off + k) != 0:
            self.rep.viol("file:end", where, "%s: the text has no end" % what)
            return False
        return True

    def places(self, m, p, what, cells):
        """each place is found again"""
        d, n = self.vchar(m, Ptr("file", 0), "content")
        od, _ = self.vchar(m, Ptr("file", 0), "content_orig")
        starts = [0] + [i + 1 for i, c in enumerate(cells) if c == 10]
        if len(starts) > 1 and starts[-1] == len(cells):
            starts.pop()
        mem, dflt = p.mem, p.dflt
        where = self.loc.body.where()
        for at in range(n + 1):
            m2 = self.machine(m.sets, opaque=LISTS)

            def setup(x):
                x.mem, x.dflt = dict(mem), {k: list(v) for k, v in dflt.items()}
                Build(self.prog, x).rec("loc")
            args = []
            for q in self.loc.params:
                r = q.type.ptr_rec() if q.type.kind == "ptr" else None
                args.append(Ptr("loc", 0) if r == "cp_syn_loc_t" else Ptr("input", 0) if r == "cp_syn_input_t" else
                            Ptr(d.obj, d.off + at))
            try:
                ps = m2.paths(self.loc, args, setup)
            except Unsupported as e:
                raise Broken("cannot follow %s(): %s %s" % (self.loc.name, e, m2.unsup))
            self.rep.count("places found")
            line = max(i for i, s in enumerate(starts) if s <= at)
            ends = starts[1:] + [len(cells)]
            name = "%s: character %d of line %d" % (what, at - starts[line] + 1, line + 1)
            if not ps or any(not isinstance(q.ret, P) or q.ret.const() != 1 for q in ps):
                self.rep.viol("place:none", where, "%s: is not found" % name)
                return
            for q in ps:
                self.at_end(m2, q)
                L = "cp_syn_loc_t"
                g = lambda f: self.field(m2, Ptr("loc", 0), L, f)
                ln = g("line")
                if not isinstance(ln, P) or ln.const() != line:
                    self.rep.viol("place:line", where, "%s: is taken for a place in line %s" % (
                        name, ln.const() + 1 if isinstance(ln, P) and ln.const() is not None else "?"))
                    return
                want = {"file": Ptr("file", 0), "copy": Ptr(d.obj, d.off + starts[line]),
                        "copy_end": Ptr(d.obj, d.off + ends[line]), "orig": Ptr(od.obj, od.off + starts[line]),
                        "orig_end": Ptr(od.obj, od.off + ends[line])}
                for f, w in want.items():
                    if g(f) != w:
                        self.rep.viol("place:%s" % f, where, "%s: its line is not the one of the file (%s)" % (name, f))
                        return

    def marks(self):
        """the place is shown in its line"""
        s = lambda n: [fresh("shown") for _ in range(n)]
        cells = s(3) + [10, 9] + s(2) + [9] + s(1) + [32] + s(1) + [13, 10] + s(1) + [10] + s(5) + [9, 9] + s(2) + [10] + s(3)
        fname = s(3)
        m, ps, _ = self.reading(cells, Ptr(None, 0), fname)
        if len(ps) != 1:
            raise Broken("file is not read")
        self.at_end(m, ps[0])
        d, n = self.vchar(m, Ptr("file", 0), "content")
        mem, dflt = ps[0].mem, ps[0].dflt
        starts = [0] + [i + 1 for i, c in enumerate(cells) if c == 10]
        where = self.show.body.where()
        for at, c in enumerate(cells):
            if isinstance(c, int):
                continue
            m2 = self.machine(m.sets, opaque=LISTS)

            def setup(x):
                x.mem, x.dflt = dict(mem), {k: list(v) for k, v in dflt.items()}
                # the reader ends words where they are
                if at + 1 < n:
                    x.mem[d.obj, d.off + at + 1] = num(0)
                for o in ("pre", "post"):
                    Build(self.prog, x).rec(o)
            vs, ls = ["pre", "post"], [Ptr(d.obj, d.off + at), Ptr(None, 0)]
            args = []
            for q in self.show.params:
                r = q.type.ptr_rec() if q.type.kind == "ptr" else None
                args.append(Ptr(vs.pop(0), 0) if r == "cp_vchar_t" else Ptr("input", 0)
                            if r == "cp_syn_input_t" else ls.pop(0))
            try:
                qs = m2.paths(self.show, args, setup)
            except Unsupported as e:
                raise Broken("cannot follow %s(): %s %s" % (self.show.name, e, m2.unsup))
            line = max(i for i, x in enumerate(starts) if x <= at)
            what = "character %d of line %d" % (at - starts[line] + 1, line + 1)
            self.rep.count("places shown")
            if not qs:
                self.rep.viol("shown:aborted", where, "%s: cannot be shown" % what)
            for q in qs:
                self.at_end(m2, q)
                out = []
                for o in ("pre", "post"):
                    k = self.const(m2.mem, m2.dflt, o, self.o("cp_vchar_t", "size"))
                    x = self.get(m2.mem, m2.dflt, o, self.o("cp_vchar_t", "data"))
                    out.append(m2.cells(x, k) if k else [])
                pre, post = out
                head = fname + c_(":%d:" % (line + 1))
                if pre[:len(head)] != head:
                    self.rep.viol("shown:line", where, "%s: the message begins with '%s'" % (what, self.say(pre)))
                    return
                rows = [[]]
                for x in post:
                    if x == 10:
                        rows.append([])
                    else:
                        rows[-1].append(x)
                mark = ord("^")
                if len(rows) < 2 or c not in rows[0] or mark not in rows[1] or \
                        rows[0].index(c) != rows[1].index(mark):
                    self.rep.viol("shown:mark", where, "%s: the mark is not below it" % what)
                    return
                want = [x for x in cells[starts[line]:(starts + [len(cells)])[line + 1]] if x not in (9, 10, 13, 32)]
                if [x for x in rows[0] if x not in (13, 32)] != want:
                    self.rep.viol("shown:text", where, "%s: the line that is shown is not the line of the file" % what)
                    return
                col = bytes(x for x in pre[len(head):] if isinstance(x, int)).split(b":")[0]
                if col.strip() != b"%d" % rows[0].index(c):
                    self.rep.viol("shown:column", where, "%s: column %s where the mark is at %d" % (
                        what, col.decode(), rows[0].index(c)))
                    return
