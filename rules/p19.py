"""P19: a parameter that the reader accepts has an effect, unless it is documented as ignored."""
import os
import re

from facts import Broken, fkey
from inline import reach
from p13 import find_table, DOC, handle, param_rec, parse_doc, recursive


def reads(prog, live):
    """(record, field) -> files with a function that reads it"""
    r = {}
    for k in live:
        f = prog.functions.get(k)
        if f is None:
            continue
        for n in f.body.walk():
            if n.k == "MemberExpr" and n.name and not written_only(n):
                t = n.ch[0].type
                rec = t.ptr_rec() if n.raw.get("arrow") else t.rec
                r.setdefault((rec, n.name), set()).add(f)
    return r


def written_only(n):
    """the member is only stored to, or only its address is handed to the parameter table"""
    q, p = n, n.par
    while p is not None and p.k in ("MemberExpr", "ArraySubscriptExpr", "ParenExpr") and \
            not (p.k == "ArraySubscriptExpr" and p.ch[1] is q):
        q, p = p, p.par
    if p is None:
        return False
    if p.k == "BinaryOperator" and p.op == "=" and p.ch[0] is q:
        return True
    return False


def run(prog, rep):
    rep.rule("every parameter a functor's reader accepts is followed to where it is stored; a "
             "stored field must be read by the program outside the reading of parameters and the "
             "SCAD dump, a local must be used by the reader; parameters documented as ignored are "
             "exempt")
    docs = parse_doc(prog.repo)
    doc = open(os.path.join(prog.repo, DOC), encoding="utf-8").read()
    m = re.search(r"`?(\$\w+)`?,? and `?(\$\w+)`? are currently ignored", " ".join(doc.split()))
    ign = set(m.groups()) if m else set()
    later = {sec.split("\n", 1)[0].strip() for sec in re.split(r"\n### ", doc)
             if re.search(r"\b(?:is )?not yet implemented", sec.split("\n## ")[0])}
    rec, ix = param_rec(prog)
    table = find_table(prog, set(docs))
    stop = recursive(prog)
    live = reach(prog)
    rd = reads(prog, live)
    done = {}
    for name in sorted(table):
        h = prog.functions.get(fkey(table[name][1], prog.repo))
        if h is None:
            raise Broken("no handler for " + name)
        if name not in docs and h.key in done:
            continue
        x, sh = handle(prog, h, rec, ix, frozenset(), stop)
        logs = list(sh.log.items())
        if not logs:
            continue
        (ci, fk), (call, tabs) = logs[0]
        rep.count("functors with parameters")
        done[h.key] = name
        bad = []
        for p in (p for t in tabs for p in t):
            ty = docs[name].type.get(p.name) if name in docs else None
            if ty is None and name in docs and p.name in docs[name].type:
                ty = ""        # described more than once
            if ty is not None and "ignored" in ty or p.name in ign or name in later:
                rep.count("parameters documented as ignored")
                continue
            rep.count("parameters that should have an effect")
            where = p.node.where()
            if p.data in ("none", "dummy"):
                rep.viol("%s:%s:dropped" % (name, p.name), where, "the parameter '%s' of '%s' is "
                         "accepted, but not stored" % (p.name, name))
                continue
            m = place(p.datan)
            f = m.f if m is not None else h
            if m is not None and m.k == "CompoundLiteralExpr":
                rep.viol("%s:%s:dropped" % (name, p.name), where, "the parameter '%s' of '%s' is "
                         "accepted, but not stored" % (p.name, name))
                continue
            if m is None or m.k == "ConditionalOperator":
                rep.count("destinations not understood")
                continue
            if m.k == "MemberExpr":
                if not used(prog, rd, m, f):
                    bad.append(("%s:%s:unused" % (name, p.name), where, "the parameter '%s' of '%s' "
                                "is stored in '%s', which nothing uses" % (p.name, name, m.name),
                                p.mand))
                continue
            if m.k == "DeclRefExpr":
                d = m.decl.i
                use = [n for n in f.body.walk() if n.k == "DeclRefExpr" and n.decl.i == d and
                       n.i != m.i and not stored(n) and in_value(n)]
                if m.decl.raw["k"] == "parm" and f.key != h.key:
                    rep.count("destinations handed in by the caller")
                    continue
                if not use:
                    bad.append(("%s:%s:unused" % (name, p.name), where, "the parameter '%s' of '%s' "
                                "is read into '%s', which is not used"
                                % (p.name, name, m.decl.name), p.mand))
                continue
            rep.count("destinations not understood")
        if any(b[3] for b in bad):
            # what it is about has no effect at all
            rep.viol("%s:nothing" % name, bad[0][1], "the parameters of '%s' have no effect: %s"
                     % (name, ", ".join(b[0].split(":")[1] for b in bad)))
        else:
            for b in bad:
                rep.viol(*b[:3])
    rep.floor("functors with parameters", 18)
    rep.floor("parameters that should have an effect", 45)


def used(prog, rd, m, f, depth=0):
    """field m (of a record filled in f) is used by the program"""
    t = m.ch[0].type
    rk = (t.ptr_rec() if m.raw.get("arrow") else t.rec, m.name)
    fs = rd.get(rk, ())
    if any(g.relfile != f.relfile and not g.relfile.endswith("-2scad.c") for g in fs):
        return True
    for g in fs:
        if g.relfile != f.relfile:
            continue
        for n in g.body.walk():
            if n.k != "MemberExpr" or n.name != m.name or written_only(n) or not in_value(n):
                continue
            t = n.ch[0].type
            if (t.ptr_rec() if n.raw.get("arrow") else t.rec) != rk[0]:
                continue
            c = next((q for q in n.parents() if q.k in ("CallExpr", "BinaryOperator")), None)
            if c is not None and c.k == "BinaryOperator" and c.op in ("==", "!=") and \
                    any(null(x) for x in c.ch):
                continue
            if c is not None and c.k == "CallExpr":
                to = [x for a in c.args for x in [place(a)] if x is not None and
                      x.k == "MemberExpr" and x.name != m.name and
                      a.strip().k == "UnaryOperator" and a.strip().op == "&"]
                if to and depth < 3 and not any(used(prog, rd, x, f, depth + 1) for x in to):
                    continue
                if not to and any(a is not None and n in a.walk() and a.strip().k ==
                                  "UnaryOperator" and a.strip().op == "&" for a in c.args):
                    continue        # filled here
            return True
    return False


def null(n):
    while n is not None and n.k in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
        if n.val == 0:
            return True
        n = n.ch[0]
    return n is not None and n.val == 0


def place(n):
    """the lvalue whose address expression n is"""
    while n is not None:
        n = n.strip()
        if n.k == "ConditionalOperator" and n.ch[0].val is not None:
            n = n.ch[1 if n.ch[0].val else 2]
        elif n.k in ("ParenExpr", "UnaryOperator", "OpaqueValueExpr"):
            n = n.ch[0]
        elif n.k == "GenericSelectionExpr":
            n = n.ch[-1]
        elif n.k == "StmtExpr" and n.ch[0] is not None and n.ch[0].ch:
            n = n.ch[0].ch[-1]
        elif n.k == "BinaryOperator" and n.op == ",":
            n = n.ch[1]
        else:
            return n
    return None


def stored(n):
    q, p = n, n.par
    while p is not None and p.k in ("ParenExpr", "MemberExpr") and not (
            p.k == "MemberExpr" and p.raw.get("arrow")):
        q, p = p, p.par
    return p is not None and p.k == "BinaryOperator" and p.op == "=" and p.ch[0] is q


def in_value(n):
    """not merely mentioned in a parameter table or thrown away"""
    for p in n.parents():
        if p.k == "InitListExpr":
            return False
        if p.k == "CStyleCastExpr" and p.raw.get("ck") == "ToVoid":
            return False
        if p.k == "CallExpr":
            return True
    return True
