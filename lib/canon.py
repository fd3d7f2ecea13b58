"""Canonical forms of expressions: locals with one definition are replaced by it, statement
expressions by their value, integer arithmetic becomes a linear form over canonical atoms."""

_cache = {}


class Canon:
    def __init__(self, f):
        self.f = f
        self.ini = {}      # decl -> init node
        self.bad = set()   # decls changed after their definition
        for n in f.body.walk():
            if n.k == "DeclStmt":
                for d, i in n.raw["ds"]:
                    if d in self.ini:
                        self.bad.add(d)
                    self.ini[d] = f.nodes[i] if i >= 0 else None
            elif n.k in ("BinaryOperator", "CompoundAssignOperator"):
                if n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                    self.mark(n.ch[0])
            elif n.k == "UnaryOperator" and n.op in ("++", "--", "&"):
                self.mark(n.ch[0])
        self.memo = {}

    def mark(self, n):
        n = n.strip()
        while n is not None and n.k in ("MemberExpr", "ArraySubscriptExpr") and \
                not n.raw.get("arrow"):
            if n.k == "ArraySubscriptExpr" and (n.ch[0].strip().type is None or
                                                n.ch[0].strip().type.kind == "ptr"):
                return
            n = n.ch[0].strip()
        if n is not None and n.k == "DeclRefExpr":
            self.bad.add(n.decl.i)

    def of(self, n):
        """canonical tuple"""
        if n is None:
            return ("?", -1)
        if n.i in self.memo:
            return self.memo[n.i]
        self.memo[n.i] = ("?", n.i)
        r = self.of_(n)
        self.memo[n.i] = r
        return r

    def of_(self, n):
        n = n.strip()
        if n is None:
            return ("?", -1)
        k = n.k
        if n.val is not None and isinstance(n.val, int):
            return ("lin", (), n.val)
        if k == "DeclRefExpr":
            d = n.decl
            if d.raw["k"] == "local" and d.i not in self.bad and self.ini.get(d.i) is not None:
                return self.of(self.ini[d.i])
            return ("v", d.i)
        if k == "ParenExpr":
            return self.of(n.ch[0])
        if k == "MemberExpr":
            b = self.of(n.ch[0])
            if n.raw.get("arrow"):
                b = b[1] if b[0] == "&" else ("*", b)
            if not n.name:
                return b
            return (".", b, n.name)
        if k == "UnaryOperator":
            b = self.of(n.ch[0])
            if n.op == "*":
                if b[0] == "&":
                    return b[1]
                return ("*", b)
            if n.op == "&":
                if b[0] == "*":
                    return b[1]
                return ("&", b)
            if n.op == "-":
                return lin_add(("lin", (), 0), b, -1)
            if n.op in ("++", "--"):
                return ("?", n.i)
            return ("u" + n.op, b)
        if k == "ArraySubscriptExpr":
            return ("[]", self.of(n.ch[0]), self.of(n.ch[1]))
        if k == "BinaryOperator":
            if n.op == "+":
                return lin_add(self.of(n.ch[0]), self.of(n.ch[1]), 1)
            if n.op == "-":
                return lin_add(self.of(n.ch[0]), self.of(n.ch[1]), -1)
            if n.op == "*":
                a, b = self.of(n.ch[0]), self.of(n.ch[1])
                for x, y in ((a, b), (b, a)):
                    if x[0] == "lin" and not x[1]:
                        return lin_add(("lin", (), 0), y, x[2])
            if n.op == ",":
                return self.of(n.ch[1])
            if n.op == "=":
                return self.of(n.ch[1])
            return ("b" + n.op, self.of(n.ch[0]), self.of(n.ch[1]))
        if k == "StmtExpr":
            c = n.ch[0]
            if c is not None and c.k == "CompoundStmt" and c.ch:
                return self.of(c.ch[-1])
        if k == "CallExpr" and n.callee:
            return ("call", n.callee, tuple(self.of(a) for a in n.args))
        if k == "InitListExpr" and len(n.ch) == 1:
            return self.of(n.ch[0])
        return ("?", n.i)

    def lin(self, n):
        return as_lin(self.of(n))


def as_lin(t):
    """(dict atom -> coefficient, constant)"""
    if t[0] == "lin":
        return dict(t[1]), t[2]
    return {t: 1}, 0


def lin_add(a, b, s):
    m, c = as_lin(a)
    m = dict(m)
    m2, c2 = as_lin(b)
    for k, v in m2.items():
        m[k] = m.get(k, 0) + s * v
        if m[k] == 0:
            del m[k]
    c += s * c2
    if len(m) == 1 and c == 0 and list(m.values()) == [1]:
        return list(m)[0]
    return ("lin", tuple(sorted(m.items(), key=repr)), c)


def canon(f):
    c = _cache.get(id(f))
    if c is None:
        c = _cache[id(f)] = Canon(f)
    return c
