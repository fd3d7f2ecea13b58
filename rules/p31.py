"""P31: a loop over a list reaches every element of it, and both operands of a difference are
visited."""
import re

from canon import canon, as_lin, lin_add
from inline import reach

LIST = re.compile(r"cp_v_|CP_VEC|cp_a_")

# writers of finished models: without the Boolean pass (--no-csg) they are documented not to
# print correctly, and with it no difference is left
POSITIVE_ONLY = ("src/hob3l/csg2-2js.c", "src/hob3l/csg2-2stl.c")


def size_of(lst):
    return (".", lst, "size")


def accesses(f, c):
    """(list, index linear form, node) of every element access"""
    for n in f.body.walk():
        if n.k == "ArraySubscriptExpr":
            b = c.of(n.ch[0])
            if b[0] == "." and b[2] == "data":
                yield b[1], c.of(n.ch[1]), n
        elif n.k == "UnaryOperator" and n.op == "*":
            m, k = c.lin(n.ch[0])
            for a in m:
                if a[0] == "." and a[2] == "data" and m[a] == 1:
                    yield a[1], lin_add(c.of(n.ch[0]), a, -1), n


def loop_parts(n):
    """(index variable, start, condition node) of a counting loop"""
    if n.k == "ForStmt":
        return n.ch[1] if len(n.ch) > 1 else None
    if n.k == "WhileStmt":
        return n.ch[0]
    return None


def run(prog, rep):
    rep.rule("for every counting loop whose bound is the size of a list it indexes with its "
             "variable, the indices visited (start, bound and offsets taken as linear forms over "
             "resolved values) plus the constant positions accessed in the same function cover "
             "the list; a loop that starts at a computed position is taken to continue another "
             "one; a function that looks at one operand of a difference looks at the other")
    rep.assume("differences never reach these writers after the Boolean pass: "
               + ", ".join(POSITIVE_ONLY))
    live = reach(prog)
    for k in sorted(live):
        f = prog.functions[k]
        if not f.relfile.startswith("src/hob3l/"):
            continue
        loops(prog, rep, f)
        operands(prog, rep, f)
    rep.floor("loops over whole lists", 80)
    rep.floor("functions taking a difference", 8)


def start_of(f, c, loop, d):
    """linear start value of variable d"""
    st = []
    cfor = loop.ch[0] if loop.k == "ForStmt" else None
    for n in f.body.walk():
        if n.k == "DeclStmt":
            for q, i in n.raw["ds"]:
                if q == d and i >= 0:
                    st.append((n, f.nodes[i]))
        elif n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k == "DeclRefExpr" and \
                n.ch[0].strip().decl.i == d:
            st.append((n, n.ch[1]))
    if cfor is not None:
        ins = [e for s, e in st if s is cfor or any(p is cfor for p in s.parents())]
        if ins:
            return c.of(ins[-1])
    body = loop.ch[-1]
    st = [e for s, e in st if not any(p is loop for p in s.parents())]
    return c.of(st[0]) if len(st) == 1 else None


def step_of(loop, d):
    """the only change of d inside the loop: +1, other const, or None"""
    r = []
    for n in loop.walk():
        if n.k == "UnaryOperator" and n.op in ("++", "--") and \
                n.ch[0].strip().k == "DeclRefExpr" and n.ch[0].strip().decl.i == d:
            r.append(1 if n.op == "++" else -1)
        elif n.k == "CompoundAssignOperator" and n.ch[0].strip().k == "DeclRefExpr" and \
                n.ch[0].strip().decl.i == d:
            v = n.ch[1].val
            r.append(v if n.op == "+=" and v is not None else None)
        elif n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k == "DeclRefExpr" and \
                n.ch[0].strip().decl.i == d and loop.ch[0] is not n and \
                not any(p is loop.ch[0] for p in n.parents()):
            r.append(None)
    return r[0] if len(r) == 1 else None


def inc_line(loop, d):
    for n in loop.walk():
        if n.k in ("UnaryOperator", "CompoundAssignOperator") and \
                n.op in ("++", "--", "+=", "-=") and n.ch[0].strip().k == "DeclRefExpr" and \
                n.ch[0].strip().decl.i == d:
            return n.line
    return None


def conj(n):
    n = n.strip() if n is not None else None
    if n is None:
        return []
    if n.k == "BinaryOperator" and n.op == "&&":
        return conj(n.ch[0]) + conj(n.ch[1])
    return [n]


def loops(prog, rep, f):
    c = canon(f)
    acc = None
    for n in f.body.walk():
        if n.k not in ("ForStmt", "WhileStmt"):
            continue
        cond = loop_parts(n)
        cs = conj(cond)
        for q in cs:
            acc = down(prog, rep, f, c, n, q, acc)
        for q in cs:
            if q.k != "BinaryOperator" or q.op not in ("<", "!=", ">"):
                continue
            lo, hi = q.ch
            if q.op == ">":
                lo, hi = hi, lo
            # lo - hi as one linear form: i + c - size(E)
            m, k = as_lin(lin_add(c.of(lo), c.of(hi), -1))
            vs = [a for a in m if a[0] == "v" and m[a] == 1]
            ss = [a for a in m if a[0] == "." and a[2] == "size" and m[a] == -1]
            if len(m) != 2 or len(vs) != 1 or len(ss) != 1:
                continue
            d, lst = vs[0][1], ss[0][1]
            if acc is None:
                acc = list(accesses(f, c))
            offs = []
            early = n.k == "WhileStmt" and inc_line(n, d)
            for l, ix, an in acc:
                if l != lst or not any(p is n for p in an.parents()):
                    continue
                if early and an.line > early:
                    offs = None
                    break
                m2, k2 = as_lin(lin_add(ix, vs[0], -1))
                if not m2:
                    offs.append(k2)
                else:
                    rest = {a: v for a, v in m2.items() if a != vs[0]}
            if offs is None:
                rep.count("loops not judged (start or step not constant)")
                continue
            if not offs:
                continue
            s = start_of(f, c, n, d)
            st = step_of(n, d)
            if s is None or st is None:
                rep.count("loops not judged (start or step not constant)")
                continue
            ms, ks = as_lin(s)
            if ms:
                rep.count("loops continuing from a computed position")
                continue
            rep.count("loops over whole lists")
            rep.sample("loop", "%s:%s over %s" % (n.where(), f.name, show(c, f, lst)))
            consts = set()
            tails = set()
            for l, ix, an in acc:
                if l != lst or any(p is n for p in an.parents()) and False:
                    continue
                mi, ki = as_lin(ix)
                if not mi:
                    consts.add(ki)
                elif list(mi.items()) == [(size_of(lst), 1)]:
                    tails.add(ki)
            for o in cs:
                if o is not q and o.k == "BinaryOperator" and o.op in ("<", "!=", "<=", ">", ">="):
                    mo, _ = as_lin(lin_add(c.of(o.ch[0]), c.of(o.ch[1]), -1))
                    if abs(mo.get(vs[0], 0)) == 1 and o.op != "!=" and o.i != q.i and \
                            not redundant(mo, m):
                        bad(rep, f, n, c, lst, "also ends at another bound")
            low = ks + min(offs)
            miss = [x for x in range(0, low) if x not in consts]
            # last visited index = size - k - 1 + off
            top = -k - 1 + max(offs)
            misst = [x for x in range(top + 1, 0) if x not in tails]
            if abs(st) != 1:
                cov = set(o % abs(st) for o in offs)
                if len(cov) < abs(st):
                    bad(rep, f, n, c, lst, "visits only every %d-th element" % abs(st))
                    continue
            if miss:
                bad(rep, f, n, c, lst, "never visits element %d" % miss[0])
            elif misst:
                bad(rep, f, n, c, lst, "never visits the last element")


def redundant(mo, m):
    return mo == m or mo == {a: -x for a, x in m.items()}


def down(prog, rep, f, c, n, q, acc):
    """a loop that counts down from the size of a list"""
    if q.k == "BinaryOperator" and q.op in (">", ">=", "!="):
        lo, hi = q.ch[1].strip(), q.ch[0].strip()
        op = q.op
    elif q.k == "BinaryOperator" and q.op in ("<", "<="):
        lo, hi, op = q.ch[0].strip(), q.ch[1].strip(), {"<": ">", "<=": ">="}[q.op]
    elif q.k == "UnaryOperator" and q.op == "--":
        lo, hi, op = None, q, "!="
    else:
        return acc
    post = pre = False
    if hi.k == "UnaryOperator" and hi.op == "--":
        post, pre = not prefix(hi), prefix(hi)
        hi = hi.ch[0].strip()
    if hi.k != "DeclRefExpr" or hi.decl.raw["k"] != "local":
        return acc
    k = 0 if lo is None else lo.val
    d = hi.decl.i
    if k is None or step_of(n, d) != -1:
        return acc
    s = start_of(f, c, n, d)
    if s is None:
        return acc
    ms, ks = as_lin(s)
    ss = [a for a in ms if a[0] == "." and a[2] == "size" and ms[a] == 1]
    if len(ms) != 1 or len(ss) != 1:
        return acc
    lst = ss[0][1]
    if acc is None:
        acc = list(accesses(f, c))
    offs = []
    for l, ix, an in acc:
        if l != lst or not any(p is n for p in an.parents()):
            continue
        m2, k2 = as_lin(lin_add(ix, ("v", d), -1))
        if not m2:
            offs.append(k2)
    early = n.k == "WhileStmt" and not (post or pre)
    if not offs or early:
        if offs:
            rep.count("loops not judged (start or step not constant)")
        return acc
    # index values seen by the body: size + ks (- 1) down to b
    b = k if op == ">=" else k + 1
    t = ks
    if post or pre:
        t -= 1
        b = b - 1 if post else b
    rep.count("loops over whole lists")
    rep.sample("loop", "%s:%s over %s" % (n.where(), f.name, show(c, f, lst)))
    consts = {as_lin(ix)[1] for l, ix, an in acc if l == lst and not as_lin(ix)[0]}
    tails = {as_lin(ix)[1] for l, ix, an in acc if l == lst and
             list(as_lin(ix)[0].items()) == [(size_of(lst), 1)]}
    if [x for x in range(0, b + min(offs)) if x not in consts]:
        bad(rep, f, n, c, lst, "never visits the first element")
    elif [x for x in range(t + max(offs) + 1, 0) if x not in tails]:
        bad(rep, f, n, c, lst, "never visits the last element")
    return acc


def prefix(n):
    return not n.raw.get("post", True) if "post" in n.raw else not n.src(1).rstrip().endswith(n.op)


def show(c, f, t):
    if t[0] == "v":
        return f.tu.decls[t[1]].name
    if t[0] == ".":
        return show(c, f, t[1]) + "." + t[2]
    if t[0] in ("*", "&"):
        return ("" if t[0] == "*" else "&") + show(c, f, t[1])
    if t[0] == "[]":
        return show(c, f, t[1]) + "[]"
    return t[0]


def bad(rep, f, n, c, lst, text):
    rep.viol("%s:%s:%s" % (f.key, show(c, f, lst), text.split(" ")[-1]), n.where(),
             "%s(): the loop over %s %s" % (f.name, show(c, f, lst), text))


def operands(prog, rep, f):
    """both operands of a difference"""
    got = {}
    for n in f.body.walk():
        if n.k == "MemberExpr" and n.name in ("add", "sub"):
            b = n.ch[0].strip()
            t = b.type
            if t is None:
                continue
            r = t.ptr_rec() if t.kind == "ptr" else t.rec
            s = t.raw["s"]
            if re.search(r"\bcp_csg_sub_t\b", s):
                got.setdefault(1, set()).add(n.name)
    if got:
        rep.count("functions taking a difference")
        if f.relfile in POSITIVE_ONLY:
            rep.count("functions stated to need the positive operand only")
        elif got[1] != {"add", "sub"}:
            rep.viol("%s:operand" % f.key, "%s:%d" % (f.relfile, f.line),
                     "%s() looks at the '%s' side of a difference only"
                     % (f.name, "/".join(sorted(got[1]))))
