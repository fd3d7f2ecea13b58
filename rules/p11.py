"""P11: the output is a function of the command line and the files read."""
from address import addresses
from externs import external, harmless
from inline import callees_closure, reach


def passed_to(n):
    """name of the library function that n is an argument of, or None"""
    for p in n.parents():
        if p.k == "CallExpr":
            return p.callee
    return None


def is_callee(n):
    p = n.par
    while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr", "UnaryOperator"):
        n, p = p, p.par
    return p is not None and p.k == "CallExpr" and p.ch[0] is n


def comparators(prog, live):
    """functions handed to sorting or ordered containers"""
    from facts import fkey
    r = {}
    places = [f.body for k in live for f in [prog.functions.get(k)] if f is not None]
    for tu in prog.tus:
        places += [g.init for g in tu.globals]
    for b in places:
        for n in b.walk():
            if n.k != "DeclRefExpr" or n.decl.raw["k"] != "func" or is_callee(n):
                continue
            g = prog.functions.get(fkey(n.decl, prog.repo))
            if g is None or g.ret.kind != "int":
                continue
            ptrs = [p for p in g.params if p.type.kind == "ptr"]
            # one that relates a key to an element of another type only searches
            if len(ptrs) >= 2 and "bsearch" not in (passed_to(n) or "") and \
                    ptrs[0].type.raw["s"] == ptrs[1].type.raw["s"]:
                r[g.key] = g
    return r


def back_to_pointer(n):
    """an address taken as a number only to be shifted and made an address again"""
    for p in n.parents():
        if p.k in ("ImplicitCastExpr", "CStyleCastExpr"):
            if p.raw.get("ck") == "IntegralToPointer":
                return True
            if p.raw.get("ck") in ("ToVoid",):
                return True
            if p.raw.get("ck") in ("IntegralToBoolean",):
                return True
            continue
        if p.k == "ParenExpr" or p.k == "BinaryOperator" and p.op in ("+", "-"):
            continue
        if p.k == "BinaryOperator" and p.op in ("==", "!="):
            return True
        return False
    return False


def run(prog, rep):
    rep.rule("live code refers to no library function whose answer depends on time, environment, "
             "process, locale or chance, formats no address, "
             "compiles no date into texts; no function that orders "
             "elements compares or computes with addresses; anywhere, addresses of records are not ordered "
             "except in assertions, their distance is taken only within a list, and a number made of an "
             "address only becomes an address again or is tested for alignment")
    live = reach(prog)
    addresses(prog, rep, live)
    for k in sorted(live):
        f = prog.functions.get(k)
        if f is None:
            continue
        rep.count("live functions")
        for n in f.body.walk():
            nm = external(prog, n)
            if nm is not None:
                rep.count("references to library functions")
                if not harmless(nm) and nm not in ("fopen", "fopen64"):
                    rep.viol("extern:%s:%s" % (f.key, nm), n.where(),
                             "%s() uses %s, whose answer may differ between runs" % (f.name, nm))
            if n.k == "StringLiteral":
                s = n.raw.get("str") or ""
                rep.count("texts")
                if "%p" in s.replace("%%", ""):
                    rep.viol("print:%s" % f.key, n.where(), "%s() formats an address" % f.name)
                if n.macro in ("__DATE__", "__TIME__", "__TIMESTAMP__"):
                    rep.viol("date:%s" % f.key, n.where(), "%s() contains the time of the build"
                             % f.name)
    cs = comparators(prog, live)
    for c in sorted(cs):
        rep.count("ordering functions")
        for k in sorted(callees_closure(prog, {c})):
            g = prog.functions.get(k)
            if g is None:
                continue
            rep.count("functions used by ordering functions")
            for n in g.body.walk():
                if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">=", "-") and \
                        all(x.type is not None and x.type.kind == "ptr" for x in n.ch):
                    if any("assert" in (p.macro or "") for p in [n] + list(n.parents())):
                        continue
                    rep.viol("order:%s" % g.key, n.where(), "%s() orders elements by their "
                             "address (%s)" % (g.name, n.src()[:60]))
                if n.k in ("ImplicitCastExpr", "CStyleCastExpr") and \
                        n.raw.get("ck") == "PointerToIntegral" and not back_to_pointer(n):
                    rep.viol("number:%s" % g.key, n.where(), "%s() orders elements by a number "
                             "made from the address %s" % (g.name, n.src()[:50]))
        rep.sample("ordering function", c)
    rep.floor("live functions", 600)
    rep.floor("references to library functions", 300)
    rep.floor("ordering functions", 5)


