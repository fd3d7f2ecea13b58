"""matrices over the polynomials of alg.py, and the documentation's formulas"""
import re

from alg import P, Unsupported, add, div, fn, is_zero, mul, num, sub
from facts import Broken


def off(prog, rec, path):
    """byte offset and type index of a field path like 'n.b.m' in record rec"""
    o = 0
    tu, r = prog.records[rec]
    for name in path.split("."):
        hit = find(prog, tu, r, name)
        if hit is None:
            raise Broken("no field %s in %s" % (name, rec))
        o += hit[0]
        t = tu.types[hit[1]]
        if t.rec in prog.records:
            r = tu.records.get(t.rec) or prog.records[t.rec][1]
    return o


def find(prog, tu, r, name):
    for f in r["f"]:
        if f["n"] == name:
            return f["off"], f["t"]
        if f.get("anon"):
            t = tu.types[f["t"]]
            rr = tu.records.get(t.rec)
            if rr is not None:
                h = find(prog, tu, rr, name)
                if h is not None:
                    return f["off"] + h[0], h[1]
    return None


def mmul(a, b):
    n, m = len(a), len(b[0])
    r = []
    for i in range(n):
        row = []
        for j in range(m):
            s = P()
            for k in range(len(b)):
                s = add(s, mul(a[i][k], b[k][j]))
            row.append(s)
        r.append(row)
    return r


def det(m):
    if len(m) == 1:
        return m[0][0]
    s = P()
    for j in range(len(m)):
        minor = [[m[i][k] for k in range(len(m)) if k != j] for i in range(1, len(m))]
        s = add(s, mul(m[0][j], det(minor)), -1 if j % 2 else 1)
    return s


def adj(m):
    n = len(m)
    if n == 1:
        return [[num(1)]]
    r = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i]
            d = det(minor)
            r[j][i] = sub(P(), d) if (i + j) % 2 else d
    return r


def inv(m):
    d = det(m)
    return [[div(x, d) for x in row] for row in adj(m)], d


def unit(n):
    return [[num(1 if i == j else 0) for j in range(n)] for i in range(n)]


def vecunit(v):
    s = P()
    for x in v:
        s = add(s, mul(x, x))
    l = fn("sqrt", s)
    return [div(x, l) for x in v]


class N:
    """operators for formulas"""
    def __init__(self, p):
        self.p = p

    def __add__(self, o):
        return N(add(self.p, n(o)))

    def __radd__(self, o):
        return N(add(n(o), self.p))

    def __sub__(self, o):
        return N(sub(self.p, n(o)))

    def __rsub__(self, o):
        return N(sub(n(o), self.p))

    def __mul__(self, o):
        return N(mul(self.p, n(o)))

    def __rmul__(self, o):
        return N(mul(n(o), self.p))

    def __neg__(self):
        return N(sub(P(), self.p))


def n(x):
    return x.p if isinstance(x, N) else num(x)


def doc_matrices(text):
    """{heading: [matrix of formula texts]} from the documentation"""
    r = {}
    head = None
    rows = []
    for line in text.split("\n"):
        m = re.match(r"###+ (.*)$", line)
        if m:
            if line.startswith("### "):
                head = m.group(1).strip().strip("`")
        m = re.match(r"\s*\|(.*)\|\s*$", line)
        if m:
            cells = re.split(r"\s{2,}", m.group(1).strip())
            rows.append(cells)
        elif rows:
            r.setdefault(head, []).append(rows)
            rows = []
    return r


def evaluate(cells, env):
    e = {k: N(v) for k, v in env.items()}
    out = []
    for row in cells:
        o = []
        for c in row:
            if not re.match(r"^[\w\s*+.()-]+$", c):
                raise Broken("formula %r in the documentation" % c)
            try:
                o.append(n(eval(c, {"__builtins__": {}}, e)))  # noqa: S307 (checked above)
            except NameError as x:
                raise Broken("formula %r in the documentation: %s" % (c, x))
        out.append(o)
    return out
