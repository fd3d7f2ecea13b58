"""uses of addresses of records as numbers, order, or distance (part of P11)"""


def defs(f, d):
    """what is assigned to a local"""
    for n in f.body.walk():
        if n.k == "DeclStmt":
            for di, i in n.raw["ds"]:
                if di == d and i >= 0:
                    yield f.nodes[i]
        elif n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k == "DeclRefExpr" and \
                n.ch[0].strip().decl.i == d:
            yield n.ch[1]


CASTS = ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr", "ConstantExpr")


def addresses(prog, rep, live):
    packed = set()      # fields that hold a number in a pointer
    for k in sorted(live):
        f = prog.functions.get(k)
        for n in f.body.walk():
            if n.k == "BinaryOperator" and n.op == "=":
                r = n.ch[1].strip()
                m = n.ch[0].strip()
                x = n.ch[1]
                while x.k in CASTS:
                    if x.raw.get("ck") == "IntegralToPointer" and m.k == "MemberExpr":
                        packed.add(m.name)
                    x = x.ch[0]
    for k in sorted(live):
        f = prog.functions.get(k)
        for n in f.body.walk():
            if n.k in CASTS and n.raw.get("ck") == "PointerToIntegral":
                rep.count("numbers made of addresses")
                u = misuse(prog, f, n, packed)
                if u is not None:
                    rep.viol("number:%s" % f.key, n.where(), "%s() makes a number of an address (%s) and %s" % (
                        f.name, n.ch[0].src()[:40], u))
            if n.k == "BinaryOperator" and n.op == "-" and all(record(x.type) for x in n.ch if x.type is not None):
                rep.count("distances of addresses of records")
                if not base(f, n.ch[1]):
                    rep.viol("distance:%s" % f.key, n.where(), "%s() uses the distance of two records that need "
                             "not be in one list (%s)" % (f.name, n.src()[:60]))
            if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">="):
                t = [x.type for x in n.ch]
                if any(x is not None and x.kind == "ptr" for x in t):
                    rep.count("comparisons of the order of addresses")
                    if any(record(x) for x in t if x is not None) and not asserted(n):
                        rep.viol("order:%s" % f.key, n.where(), "%s() decides by the order of the addresses of "
                                 "records (%s)" % (f.name, n.src()[:60]))
    rep.floor("numbers made of addresses", 40)
    rep.floor("comparisons of the order of addresses", 10)


def record(t):
    """a pointer to a record, or to pointers to records"""
    while t is not None and t.kind == "ptr":
        if t.ptr_rec():
            return True
        t = t.to_t
    return t is not None and t.kind == "rec"


def base(f, n, depth=0):
    """the start of a list or array"""
    while n.k in CASTS:
        if n.raw.get("ck") == "ArrayToPointerDecay":
            return True
        n = n.ch[0]
    if n.k == "MemberExpr":
        return n.name == "data"
    if n.k == "UnaryOperator" and n.op == "&":
        x = n.ch[0].strip()
        return x.k == "ArraySubscriptExpr" and base(f, x.ch[0], depth + 1)
    if n.k == "StmtExpr":
        return base(f, n.ch[0].ch[-1], depth + 1)
    if n.k == "DeclRefExpr" and depth < 5:
        l = list(defs(f, n.decl.i))
        return bool(l) and all(base(f, x, depth + 1) for x in l)
    return False


def asserted(n):
    """the comparison only decides whether an assertion fails"""
    p, c = n.par, n
    while p is not None and p.k in CASTS + ("BinaryOperator", "UnaryOperator", "ConditionalOperator"):
        if p.k == "ConditionalOperator":
            break
        p, c = p.par, p
    if p is None:
        return False
    if p.k == "ConditionalOperator":
        return any(x.k == "CallExpr" and x.callee in ("__assert_fail", "abort") for b in p.ch[1:] for x in b.walk())
    if p.k == "IfStmt":
        return any(x.k == "CallExpr" and x.callee in ("__assert_fail", "abort") for b in p.ch[1:] for x in b.walk()) \
            and len([b for b in p.ch[1:]]) <= 2
    return False


def misuse(prog, f, n, packed):
    """why a number made of an address may tell the address, or None"""
    src = n.ch[0].strip()
    if src.k == "MemberExpr" and src.name in packed:
        return None
    c, p = n, n.par
    while p is not None:
        if p.k in CASTS:
            if p.raw.get("ck") == "IntegralToPointer":
                return None
        elif p.k == "BinaryOperator" and p.op in ("+", "-", "|", "&", "^"):
            pass
        elif p.k == "BinaryOperator" and p.op == "%" and p.ch[0] is c:
            q = p.par
            while q is not None and q.k in CASTS:
                q = q.par
            if q is not None and (q.k == "BinaryOperator" and q.op in ("==", "!=") or
                                  q.k in ("IfStmt", "UnaryOperator")):
                return None
            return "uses a part of it as one"
        elif p.k == "BinaryOperator" and p.op in ("==", "!="):
            return None
        elif p.k == "CompoundAssignOperator" and p.op in ("+=", "-="):
            return None
        elif p.k == "CallExpr" and p.fn is not None and "align" in (p.callee or ""):
            return None
        elif p.k == "CompoundStmt":
            return None
        else:
            return "uses it as one"
        c, p = p, p.par
    return None
