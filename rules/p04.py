"""P04: every kind of object one stage can hand on is handled by every consumer."""
import re

from ctx import CtxExplorer
from flow import Env
from facts import Broken
from inline import reach

FAM = {
    "scad": ["cp_scad_type_t"],
    "csg3": ["cp_csg_type_t", "cp_csg3_type_t"],
    "csg2": ["cp_csg_type_t", "cp_csg2_type_t"],
    "syn_value": ["cp_syn_value_type_t"],
    "syn_stmt": ["cp_syn_stmt_type_t"],
}
# kinds that the data a consumer walks cannot contain by construction (stated assumptions)
NOT_THERE = {
    ("src/hob3l/csg2-layer.c", "CP_CSG2_POLY"): "the tree of a sliced model has its outlines "
    "inside the layers of stacks only",
    ("src/hob3l/csg2-layer.c", "CP_CSG2_VLINE2"): "the tree of a sliced model has its outlines "
    "inside the layers of stacks only",
    ("src/hob3l/csg3-2scad.c", "CP_CSG_ADD"): "in 3D models a sum is only the operand of an "
    "operator, never an element",
}
NOT_THERE["src/hob3l/csg2-2ps.c", "CP_CSG2_VLINE2"] = \
    "the PostScript writer visits layers the Boolean pass has marked only"
NOT_THERE["*", "CP_CSG2_SWEEP"] = "sweeps are work records of the Boolean pass, never stored in a tree"
for _k in ("ADD", "CUT", "SUB", "XOR"):
    NOT_THERE["src/hob3l/csg2-layer.c", "csg3", "CP_CSG_" + _k] = \
        "a stack is made for a solid, never for an operator"
# a consumer that takes sweeps works on lazy polygons, which hold outlines and sweeps only
LAZY = ("CP_CSG2_STACK", "CP_CSG_ADD", "CP_CSG_CUT", "CP_CSG_SUB", "CP_CSG_XOR")
# leaves although they carry the record prefix of a group
LEAF = ("CP_SCAD_TEXT",)
TAGS = ("type", "loc", "modifier", "gc")


def family(t):
    m = re.search(r"\bcp_(scad|csg3|csg2|syn_value|syn_stmt)_t \*$", t.raw["s"])
    return m.group(1) if m else None


class Kind(CtxExplorer):
    def __init__(self, prog, f, di):
        super().__init__(prog, f)
        self.di = di
        self.outs = set()
        self.where = {}
        self.reached = set()
        al = {di}
        ch = True
        while ch:
            ch = False
            for n in f.body.walk():
                if n.k == "DeclStmt":
                    for d, ini in n.raw["ds"]:
                        if ini >= 0 and d not in al and self.men(f.nodes[ini], al) and \
                                f.tu.decls[d].type.kind == "ptr":
                            al.add(d)
                            ch = True
        self.al = al

    def men(self, n, al):
        """is the object itself (not just its tag) looked at"""
        st = [n]
        while st:
            m = st.pop()
            if m is None:
                continue
            if m.k == "MemberExpr" and m.name in TAGS:
                continue
            if m.k == "DeclRefExpr" and m.decl.i in al:
                return True
            if m.k == "BinaryOperator" and m.op in ("==", "!="):
                continue
            st.extend(m.ch)
        return False

    def tagtest(self, n):
        return n is not None and any(
            m.k == "MemberExpr" and m.name == "type" and
            any(d.k == "DeclRefExpr" and d.decl.i in self.al for d in m.walk())
            for m in n.walk()) and not in_cast(n)

    def keep_over_call(self, call, k):
        return k == (self.di, ".type") or super().keep_over_call(call, k)

    def on_element(self, n, env):
        if n.k == "CallExpr":
            self.reached.add(n.i)
        if env.get(("x", "touch")):
            return True
        if n.k == "CallExpr":
            if any(self.men(a, self.al) for a in n.args):
                env.set(("x", "touch"), 1)
        elif n.k == "BinaryOperator" and n.op == "=":
            if self.men(n.ch[1], self.al):
                env.set(("x", "touch"), 1)
        elif n.k == "ReturnStmt" and n.ch and self.men(n.ch[0], self.al):
            env.set(("x", "touch"), 1)
        elif n.k == "MemberExpr" and n.name not in TAGS and self.men(n, self.al) and \
                env.get(("x", "test")):
            env.set(("x", "touch"), 1)
        return True

    def on_edge(self, b, s, env, cond, taken):
        if self.tagtest(cond):
            env.set(("x", "test"), 1)
            env.m.pop(("x", "touch"), None)
        return True

    def done(self, env, n):
        t = (bool(env.get(("x", "test"))), bool(env.get(("x", "touch"))))
        self.outs.add(t)
        self.where.setdefault(t, n)

    def on_return(self, n, env, val):
        if self.f.ret.kind == "bool" and val == 0:
            # refused: the error rules see to it that this is an error
            env.set(("x", "test"), 1)
            env.set(("x", "touch"), 1)
        self.done(env, n)

    def on_exit(self, env):
        if self.f.ret.kind == "void":
            self.done(env, None)


def in_cast(n):
    """the tag test of a checked cast"""
    for m in n.walk():
        if m.k == "CallExpr" and m.callee == "cp_is_compatible_":
            return True
    q = n
    while q is not None:
        if q.k == "ConditionalOperator" and q.par is not None and any(
                p.k == "StmtExpr" for p in q.parents()):
            return True
        q = q.par
    return False


def run(prog, rep):
    rep.rule("every function that tells object kinds apart is explored once per kind of the "
             "family with the tag assumed: some path must hand the object (or its fields) on "
             "after the tag test; a kind with children must not be skipped on any such path; a "
             "kind for which every path ends in an abort is a violation unless that kind is "
             "stated not to occur there")
    rep.assume("kinds that cannot occur in a consumer's data by construction: " + "; ".join(
        "%s in %s (%s)" % (q[-1], q[0], w) for q, w in NOT_THERE.items()) + "; " +
               ", ".join(LAZY) + " where sweeps are handled (lazy polygons)")
    live = reach(prog)
    pushed = constructed(prog, live)
    fams = {}
    for fam, ens in FAM.items():
        ks = {}
        for e in ens:
            if e not in prog.enums:
                raise Broken("enumeration %s has vanished" % e)
            for n, v in prog.enums[e]:
                ks.setdefault(v, n)
        fams[fam] = ks
    recs = {}
    for n in prog.records:
        recs[n] = n
    nf = 0
    memo = {"live": [prog.functions[k] for k in sorted(live)]}
    for k in sorted(live):
        f = prog.functions[k]
        cands = [(p.i, family(p.type)) for p in f.params if p.type.kind == "ptr"]
        for n in f.body.walk():
            if n.k == "DeclStmt":
                for d, _ in n.raw["ds"]:
                    t = f.tu.decls[d].type
                    if t is not None and t.kind == "ptr" and not any(
                            q.k == "StmtExpr" for q in n.parents()):
                        cands.append((d, family(t)))
        for di, fam in cands:
            if fam is None:
                continue
            x = Kind(prog, f, di)
            tests = tests_of(x, f, di)
            if len(tests) < 2 and not any(n.k == "SwitchStmt" for n in tests):
                continue
            nf += 1
            rep.sample("dispatching function", "%s (%s)" % (f, fam))
            judge(prog, rep, f, di, fam, fams[fam], pushed, memo)
    rep.count("functions that tell kinds apart", nf)
    rep.floor("functions that tell kinds apart", 8)
    rep.floor("function/kind pairs decided", 80)


def tests_of(x, f, di):
    """switches on the tag of variable di; comparisons of it with constants"""
    r = []
    for n in f.body.walk():
        c = None
        if n.k == "SwitchStmt":
            c = n.ch[0].strip()
            if c.k == "MemberExpr" and c.name == "type" and c.ch[0].strip().k == "DeclRefExpr" \
                    and c.ch[0].strip().decl.i == di:
                r.append(n)
        elif n.k == "BinaryOperator" and n.op in ("==", "!="):
            for a, b in (n.ch, n.ch[::-1]):
                c = a.strip()
                if c.k == "MemberExpr" and c.name == "type" and b.val is not None and \
                        c.ch[0].strip().k == "DeclRefExpr" and c.ch[0].strip().decl.i == di and \
                        not any(q.k == "StmtExpr" for q in n.parents()):
                    r.append(n)
    return r


def record_of(prog, name):
    n = name.lower() + "_t"
    for cand in (n, n.replace("cp_csg2_add", "cp_csg_add")):
        if cand in prog.records:
            return prog.records[cand]
    # named by typedef only
    for tu in prog.tus:
        for t in tu.types:
            if t.raw.get("s") == n and t.raw.get("rd"):
                return prog.records.get(t.raw["rd"])
    return None


def container(prog, name):
    r = record_of(prog, name)
    if r is None or name in LEAF:
        return False
    tu, raw = r

    def has(raw, depth=0):
        for fd in raw["f"]:
            s = tu.types[fd["t"]].raw["s"]
            if re.search(r"cp_v_(obj|scad|csg_add|syn_value|syn_stmt_item|syn_arg)_p_t|"
                         r"cp_(csg_add|scad|syn_value)_t \*|csg2_layer", s):
                return True
            if fd["n"] == "" and depth < 3:
                rd = tu.types[fd["t"]].raw.get("rd")
                if rd and rd in tu.records and has(tu.records[rd], depth + 1):
                    return True
        return False
    return has(raw)


def constructed(prog, live):
    """kinds some live code constructs (stores into a tag) -- values"""
    r = set()
    for k in live:
        f = prog.functions[k]
        for n in f.body.walk():
            if n.k == "BinaryOperator" and n.op == "=":
                l = n.ch[0].strip()
                if l.k == "MemberExpr" and l.name == "type":
                    v = n.ch[1].val
                    if v is None:
                        v = n.ch[1].strip().val
                    if v is not None:
                        r.add(v)
                    else:
                        r.add("any:" + f.relfile)
    for tu in prog.tus:
        for gl in tu.globals:
            for n in gl.nodes:
                if n.val is not None:
                    r.add(n.val)
    # tables inside functions
    for k in live:
        f = prog.functions[k]
        for n in f.body.walk():
            if n.k == "InitListExpr":
                for c in n.ch:
                    if c is not None and c.val is not None:
                        r.add(c.val)
    return r


def judge(prog, rep, f, di, fam, kinds, pushed, memo):
    lazy = False
    for v, name in kinds.items():
        if name == "CP_CSG2_SWEEP":
            lazy = bool([r for r in explore(prog, f, di, v, memo).outs if r[0]])
    for v, name in kinds.items():
        if v not in pushed and fam in ("csg2", "csg3"):
            rep.count("kinds nobody constructs, skipped")
            continue
        x = explore(prog, f, di, v, memo)
        res = x.outs
        rep.count("function/kind pairs decided")
        good = any(t for _, t in res)
        rel = f.relfile
        bad = None
        if not [r for r in res if r[0]]:
            if (rel, name) in NOT_THERE or (rel, fam, name) in NOT_THERE or \
                    ("*", name) in NOT_THERE or lazy and name in LAZY:
                rep.count("kinds stated not to occur")
                continue
            if not good:
                bad = ("aborts", "aborts for every object of kind " + name)
        elif not good:
            bad = ("dropped", "drops objects of kind " + name)
        elif (True, False) in res and container(prog, name):
            bad = ("skipped", "has a path that skips an object of kind %s with everything in it"
                   % name)
        if bad is None:
            continue
        if not arrives(prog, f, di, v, memo):
            rep.count("kinds that no caller passes on")
            continue
        w = x.where.get((True, False)) if bad[0] == "skipped" else None
        rep.viol("%s:%s:%s" % (rel, name, bad[0]),
                 w.where() if w is not None else "%s:%d" % (f.relfile, f.line),
                 "%s() %s" % (f.name, bad[1]))


def explore(prog, f, di, v, memo):
    key = (f.key, di, v)
    if key not in memo:
        if f.tu.decls[di].raw["k"] == "local":
            memo[key] = explore_local(prog, f, di, v)
        else:
            x = Kind(prog, f, di)
            x.run(env=Env({(di,): ("ne", frozenset([0])), (di, ".type"): v}))
            memo[key] = x
    return memo[key]


def arrives(prog, f, di, v, memo):
    """can an object of this kind be handed to the parameter at all"""
    pos = [k for k, p in enumerate(f.params) if p.i == di]
    if not pos:
        return True
    sites = 0
    for g in memo["live"]:
        for n in g.body.walk():
            if n.k != "CallExpr" or n.callee != f.name or prog.resolve(n) is not f:
                continue
            sites += 1
            if g is f:
                continue
            a = n.args[pos[0]].strip()
            if a.k != "DeclRefExpr" or family(a.decl.type) is None:
                return True
            x = explore(prog, g, a.decl.i, v, memo)
            if n.i in x.reached:
                return True
    return sites == 0


def explore_local(prog, f, di, v):
    """the tag is assumed each time the variable is set"""
    class L(Kind):
        def transfer(self, n, env):
            super().transfer(n, env)
            hit = False
            if n.k == "DeclStmt":
                hit = any(d == di for d, _ in n.raw["ds"])
            elif n.k == "BinaryOperator" and n.op == "=":
                l = n.ch[0].strip()
                hit = l.k == "DeclRefExpr" and l.decl.i == di
            if hit:
                env.set((di, ".type"), v)
                env.set((di,), ("ne", frozenset([0])))
    x = L(prog, f, di)
    x.run(env=Env())
    return x
