"""P12: the only thing the program changes outside itself is the output the user asked for."""
from externs import OPEN, external, harmless
from inline import reach

def run(prog, rep):
    rep.rule("every library function that live code refers to must be one that neither changes "
             "files, directories, processes, settings nor talks to other programs; a file is opened "
             "for reading, or for writing under the name that only the output option sets")
    live = reach(prog)
    writes = []
    for k in sorted(live):
        f = prog.functions.get(k)
        if f is None:
            continue
        for n in f.body.walk():
            nm = external(prog, n)
            if nm is None:
                continue
            rep.count("references to library functions")
            if nm in OPEN:
                c = n.par
                while c is not None and c.k in ("ImplicitCastExpr", "ParenExpr"):
                    c = c.par
                if c is None or c.k != "CallExpr" or c.fn is None or c.callee != nm:
                    rep.viol("open:%s:%s" % (f.key, nm), n.where(),
                             "%s() hands out %s, so that its mode is not known" % (f.name, nm))
                    continue
                rep.count("files opened")
                ms = modes(c.args[OPEN[nm]], f)
                if ms is None or nm not in ("fopen", "fopen64"):
                    rep.viol("open:%s:mode" % f.key, c.where(),
                             "%s() opens a file with %s and a mode that is not known"
                             % (f.name, nm))
                elif any(m[:1] != "r" or "+" in m for m in ms):
                    writes.append((f, c, ms))
                else:
                    rep.count("files opened for reading")
            elif not harmless(nm):
                rep.viol("effect:%s:%s" % (f.key, nm), n.where(),
                         "%s() uses %s, which is not known to leave the system alone"
                         % (f.name, nm))
    for f, c, ms in writes:
        rep.count("files opened for writing")
        src = source(c.args[0], f)
        if any(m[:1] != "w" or "+" in m for m in ms):
            rep.viol("open:%s:append" % f.key, c.where(),
                     "%s() opens a file with mode '%s': the output must be the file's whole content"
                     % (f.name, "/".join(sorted(ms))))
        if src is None:
            rep.viol("open:%s:name" % f.key, c.where(), "%s() writes to a file whose name does not "
                     "come from the settings (%s)" % (f.name, c.args[0].src()[:60]))
            continue
        rec, fld = src
        # who sets that name
        for k in sorted(live):
            g = prog.functions.get(k)
            if g is None:
                continue
            for n in g.body.walk():
                if n.k == "BinaryOperator" and n.op == "=":
                    l = n.ch[0].strip()
                    if l.k == "MemberExpr" and l.name == fld and rec_of(l) == rec:
                        rep.count("places that set the output name")
                        if not from_user(n.ch[1], g):
                            rep.viol("name:%s" % g.key, n.where(), "%s() makes up the name of a "
                                     "file that is written (%s)" % (g.name, n.ch[1].src()[:60]))
        if len(writes) > 1:
            rep.viol("open:several:%s" % f.key, c.where(),
                     "%d places open a file for writing; one output is asked for" % len(writes))
    rep.floor("references to library functions", 300)
    rep.floor("files opened", 2)
    rep.floor("files opened for writing", 1)
    rep.floor("places that set the output name", 1)


def rec_of(m):
    t = m.ch[0].type
    return t.ptr_rec() if m.raw.get("arrow") else t.rec


def defs(f, d):
    for n in f.body.walk():
        if n.k == "DeclStmt":
            for di, i in n.raw["ds"]:
                if di == d and i >= 0:
                    yield f.nodes[i]
        elif n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k == "DeclRefExpr" and \
                n.ch[0].strip().decl.i == d:
            yield n.ch[1]


def modes(n, f, depth=0):
    n = n.strip()
    while n.k in ("ParenExpr", "ImplicitCastExpr"):
        n = n.ch[0]
    if n.k == "StringLiteral":
        return {n.raw.get("str")}
    if n.k == "ConditionalOperator":
        a, b = modes(n.ch[1], f, depth + 1), modes(n.ch[2], f, depth + 1)
        return a | b if a and b else None
    if n.k == "DeclRefExpr" and n.decl.raw["k"] == "local" and depth < 5:
        r = set()
        for d in defs(f, n.decl.i):
            m = modes(d, f, depth + 1)
            if m is None:
                return None
            r |= m
        return r or None
    if n.k == "DeclRefExpr" and n.decl.raw["k"] == "parm" and depth < 5:
        i = f.raw["params"].index(n.decl.i)
        r = set()
        for g in f.tu.prog.functions.values():
            for c in g.calls():
                if f.tu.prog.resolve(c) is f:
                    m = modes(c.args[i], g, depth + 1)
                    if m is None:
                        return None
                    r |= m
        return r or None
    return None


def source(n, f, depth=0):
    """(record, field) that a name comes from"""
    n = n.strip()
    while n.k in ("ParenExpr", "ImplicitCastExpr"):
        n = n.ch[0]
    if n.k == "MemberExpr":
        return rec_of(n), n.name
    if n.k == "DeclRefExpr" and depth < 5:
        if n.decl.raw["k"] == "parm":
            i = f.raw["params"].index(n.decl.i)
            r = {source(c.args[i], g, depth + 1) for g in f.tu.prog.functions.values()
                 for c in g.calls() if f.tu.prog.resolve(c) is f}
        else:
            r = {source(d, f, depth + 1) for d in defs(f, n.decl.i) if not null(d)}
        return r.pop() if len(r) == 1 else None
    return None


def null(n):
    while n is not None and n.k in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
        n = n.ch[0]
    return n is not None and n.val == 0


def from_user(n, f, depth=0):
    """the value is (part of) a command line argument, or nothing"""
    n = n.strip()
    while n.k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
        if n.val == 0:
            return True
        n = n.ch[0]
    if n.val == 0:
        return True
    if n.k == "ConditionalOperator":
        return from_user(n.ch[1], f, depth) and from_user(n.ch[2], f, depth)
    if n.k == "StmtExpr" and n.ch[0].ch:
        return from_user(n.ch[0].ch[-1], f, depth)
    if n.k in ("ArraySubscriptExpr", "UnaryOperator"):
        return from_user(n.ch[0], f, depth)
    if n.k == "BinaryOperator" and n.op in ("+", "-"):
        return from_user(n.ch[0], f, depth)
    if n.k == "CallExpr" and n.callee in ("strchr", "strrchr", "strstr", "strpbrk"):
        return from_user(n.args[0], f, depth)
    if n.k == "MemberExpr" and not n.raw.get("arrow") and depth < 8:
        b = n.ch[0].strip()
        if b.k != "DeclRefExpr" or b.decl.raw["k"] != "local":
            return False
        src = []
        for x in f.body.walk():
            if x.k == "BinaryOperator" and x.op == "=":
                l = x.ch[0].strip()
                if l.k == "MemberExpr" and l.name == n.name and \
                        l.ch[0].strip().k == "DeclRefExpr" and l.ch[0].strip().decl.i == b.decl.i:
                    src.append(x.ch[1])
            elif x.k == "DeclStmt":
                for di, i in x.raw["ds"]:
                    if di == b.decl.i and i >= 0:
                        src += [e for e in f.nodes[i].ch if e is not None and e.type is not None and
                                e.type.kind == "ptr" and not null(e)]
        return bool(src) and all(from_user(x, f, depth + 1) for x in src)
    if n.k == "DeclRefExpr" and depth < 8:
        d = n.decl
        if d.raw["k"] == "parm":
            if f.name == "main":
                return True
            i = f.raw["params"].index(d.i)
            cs = [(c, g) for g in f.tu.prog.functions.values() for c in g.calls()
                  if f.tu.prog.resolve(c) is f]
            if not cs:
                # called through a table
                ty = f.decl.type.raw["s"].replace(" ", "")
                cs = [(c, g) for g in f.tu.prog.functions.values() for c in g.calls()
                      if c.fn is None and c.ch[0].type is not None and
                      c.ch[0].type.raw["s"].replace(" ", "").replace("(*)", "") == ty]
            return bool(cs) and all(from_user(c.args[i], g, depth + 1) for c, g in cs)
        ds = list(defs(f, d.i))
        return bool(ds) and all(from_user(x, f, depth + 1) for x in ds)
    return False
