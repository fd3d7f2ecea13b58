"""P32: what the program writes as SCAD is SCAD its own reader accepts, with the same parameters."""
import os
import re

from facts import Broken, fkey
from flow import Env, path, truth
from inline import InlineExplorer, callees_closure, reach
from p13 import DOC, find_table, handle, param_rec, parse_doc, recursive, syn_kinds

COMP = {"x": 0, "y": 1, "z": 2, "r": 0, "g": 1, "b": 2, "a": 3}
TRUE = ("true", "false")


def literal(n):
    n = n.strip()
    while n is not None and n.k in ("ParenExpr", "ImplicitCastExpr"):
        n = n.ch[0]
    return n.raw.get("str") if n is not None and n.k == "StringLiteral" else None


def single_defs(f):
    r = getattr(f, "_p32", None)
    if r is None:
        r, bad = {}, set()
        for n in f.body.walk():
            if n.k == "DeclStmt":
                for d, i in n.raw["ds"]:
                    if d in r:
                        bad.add(d)
                    r[d] = f.nodes[i] if i >= 0 else None
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and \
                    n.op not in ("==", "!=", "<=", ">="):
                l = n.ch[0].strip()
                if l.k == "DeclRefExpr":
                    bad.add(l.decl.i)
        for d in bad:
            r[d] = None
        f._p32 = r
    return r


def punct(s):
    """separators and brackets: which of them is written does not tell anything about the object"""
    return not re.search(r"\w", s)


class Val:
    """where a written value comes from"""
    def __init__(self, steps=None, text=None, flags=()):
        self.steps, self.text, self.flags = steps, text, tuple(flags)

    def key(self):
        return (self.steps, self.text, self.flags)


def origin(n, ex, depth=0):
    if n is None or depth > 40:
        return Val()
    n = n.strip()
    k = n.k
    if k == "ParenExpr":
        return origin(n.ch[0], ex, depth + 1)
    if k == "StringLiteral":
        return Val(text=n.raw.get("str"))
    if n.val is not None and isinstance(n.val, int):
        return Val(text=str(n.val))
    if k == "FloatingLiteral":
        return Val(text="%g" % float(n.raw["fv"]))
    if k == "MemberExpr":
        b = origin(n.ch[0], ex, depth + 1)
        if b.steps is None:
            return Val()
        if not n.name:
            return b
        return Val(b.steps + (n.name,), flags=b.flags)
    if k == "ArraySubscriptExpr":
        b = origin(n.ch[0], ex, depth + 1)
        if b.steps is None:
            return Val()
        v = n.ch[1].val
        if v is None and ex.now is not None:
            v = ex.ev(n.ch[1], ex.now)
        return Val(b.steps + (v if isinstance(v, int) else "*",), flags=b.flags)
    if k == "UnaryOperator" and n.op in ("*", "&", "-", "+", "!"):
        b = origin(n.ch[0], ex, depth + 1)
        if n.op in "-!" and b.steps is not None:
            return Val(b.steps, flags=b.flags + (n.op,))
        return b
    if k == "BinaryOperator" and n.op in ("*", "/", "+", "-", "!=", "==", ",", "="):
        a, b = origin(n.ch[0], ex, depth + 1), origin(n.ch[1], ex, depth + 1)
        if n.op in (",", "="):
            return b
        if b.steps is None and b.text is not None and a.steps is not None:
            return Val(a.steps, flags=a.flags + (n.op + b.text,))
        if a.steps is None and a.text is not None and b.steps is not None:
            return Val(b.steps, flags=b.flags + (a.text + n.op,))
        return Val()
    if k == "ConditionalOperator":
        t = truth(ex.ev(n.ch[0], ex.now)) if ex.now is not None else None
        if t is not None:
            v = origin(n.ch[1 if t else 2], ex, depth + 1)
            if isinstance(v.text, str) and punct(v.text):
                return v
        a, b = origin(n.ch[1], ex, depth + 1), origin(n.ch[2], ex, depth + 1)
        c = origin(n.ch[0], ex, depth + 1)
        if a.text is not None and b.text is not None:
            return Val(c.steps, text=(a.text, b.text), flags=c.flags)
        return Val()
    if k == "StmtExpr":
        c = n.ch[0]
        if c is not None and c.k == "CompoundStmt" and c.ch:
            return origin(c.ch[-1], ex, depth + 1)
        return Val()
    if k == "CallExpr":
        for a in n.args:
            v = origin(a, ex, depth + 1)
            if v.steps is not None and len(v.steps) > 1:
                return Val(v.steps, flags=v.flags + ("call",))
        return Val()
    if k == "DeclRefExpr":
        d = n.decl
        t = ex.now.get(("x", "str", d.i)) if ex.now is not None else None
        if t is not None:
            return Val(text=t)
        if d.raw["k"] == "parm" or d.i in ex.f.raw["params"]:
            if ex.up is not None:
                up, call = ex.up
                return origin(call.args[ex.f.raw["params"].index(d.i)], up, depth + 1)
            return Val((d.name and "",))
        i = single_defs(ex.f).get(d.i)
        if i is not None:
            v = origin(i, ex, depth + 1)
            if v.steps is not None or v.text is not None:
                return v
        if d.raw["k"] == "global" or d.raw["k"] == "func":
            return Val()
        return Val(("local " + d.name,))
    return Val()


class Emit(InlineExplorer):
    """collects, per path, the texts written"""
    carry = ("emit",)
    up = None
    now = None
    chain = ()
    MAX_INLINE = 9
    track_arith = True
    ROUNDS = 2              # of a loop whose condition is not known

    def inline(self, g, call):
        return g.relfile.startswith("src/hob3l/") and g.key not in self.chain and \
            g.key != self.f.key and stream_param(g) is not None

    def keep_over_call(self, call, k):
        # writing does not change the object
        return k[-1] == ".type" or call.callee in self.shared.printf and len(k) > 1 or \
            super().keep_over_call(call, k)

    def child(self, g):
        c = super().child(g)
        c.chain = self.chain + (self.f.key,)
        c.max_states = self.max_states
        return c

    def entering(self, call, env, child, seed):
        self.now = env
        child.up = (self, call)

    def on_edge(self, block, succ, env, cond, taken):
        t = block.term
        if t is None or taken is None or t.k not in ("ForStmt", "WhileStmt", "DoStmt"):
            return True
        k = ("x", "rounds", t.i)
        if not taken:
            env.m.pop(k, None)
            return True
        n = (env.get(k) or 0) + 1
        if self.now is None or truth(self.ev(cond, self.now)) is None:
            if n > self.ROUNDS:
                # further rounds are like the last
                return False
            env.set(k, n)
        # loops further inside start again
        for q in [q for q in env.m if q[:2] == ("x", "rounds") and q[2] != t.i and
                  any(p is t for p in self.f.nodes[q[2]].parents())]:
            del env.m[q]
        return True

    def cid(self, call):
        return tuple(sorted(x for x in ())) + ((self.up[0].cid(self.up[1]) if self.up else ()) +
                                               ((self.f.key, call.i),))

    def facts(self, env):
        """what is known here about the fields of the object"""
        r = set()
        for k, v in env.m.items():
            if k[0] in ("n", "x") or truth(v) is None or k[-1] == ".type":
                continue
            if len(k) == 1:
                i = single_defs(self.f).get(k[0])
                o = origin(i, self) if i is not None else Val()
                if o.steps and not o.flags and o.text is None and not any(
                        str(x).startswith("local ") or x == "*" for x in o.steps):
                    r.add((tuple(x for x in o.steps if x), truth(v)))
                continue
            if k[0] not in self.f.raw["params"] or not all(
                    isinstance(x, str) and x.startswith(".") for x in k[1:]):
                continue
            up = Val(())
            if self.up is not None:
                u, call = self.up
                up = origin(call.args[self.f.raw["params"].index(k[0])], u)
            if up.steps is not None:
                r.add((tuple(x for x in up.steps if x) + tuple(x[1:] for x in k[1:]), truth(v)))
        return tuple(sorted(r))

    def add(self, call, ev, env):
        ev = ev + (self.facts(env),)
        e = env.get(("x", "emit")) or ()
        if len(e) > 400:
            raise Broken("the text that %s writes does not end" % self.f)
        env.set(("x", "emit"), e + ((self.cid(call), ev),))

    def keep_text(self, d, n, env):
        """a local takes a text"""
        if self.f.tu.decls[d].type is None or self.f.tu.decls[d].type.kind != "ptr":
            return
        v = origin(n, self) if n is not None else Val()
        if isinstance(v.text, str) and v.steps is None and punct(v.text):
            env.set(("x", "str", d), v.text)
        else:
            env.m.pop(("x", "str", d), None)

    def transfer(self, n, env):
        self.now = env
        super().transfer(n, env)
        self.now = env
        if n.k == "DeclStmt":
            for d, i in n.raw["ds"]:
                self.keep_text(d, self.f.nodes[i] if i >= 0 else None, env)
        elif n.k == "BinaryOperator" and n.op == "=" and n.ch[0].strip().k == "DeclRefExpr":
            self.keep_text(n.ch[0].strip().decl.i, n.ch[1], env)
        if n.k != "CallExpr":
            return
        g = self.prog.resolve(n)
        if n.callee in self.shared.printf:
            i = self.shared.printf[n.callee]
            fmt = literal(n.args[i]) if i < len(n.args) else None
            if fmt is None:
                v = origin(n.args[i], self)
                fmt = v.text if isinstance(v.text, str) else None
            vals = tuple(origin(a, self).key() for a in n.args[i + 1:])
            self.add(n, (fmt, vals, n.where()), env)
        elif g is not None and (g.key in self.chain or g.key == self.f.key) and \
                stream_param(g) is not None:
            self.add(n, ("\0", (), n.where()), env)


def stream_param(g):
    for i, p in enumerate(g.params):
        if p.type.kind == "ptr" and p.type.ptr_rec() is not None and \
                "stream" in p.type.ptr_rec():
            return i
    return None


def printers(prog):
    """variadic stream functions: name -> index of the format"""
    r = {}
    for tu in prog.tus:
        for d in tu.decls:
            if d.raw["k"] == "func" and d.raw.get("t") is not None:
                s = d.type.raw["s"].replace(" ", "")
                m = re.match(r"void\(cp_stream_t\*,constchar\*,\.\.\.\)", s)
                if m:
                    r[d.name] = 1
    if not r:
        raise Broken("no formatting stream function")
    return r


# ---------------------------------------------------------------- texts
def pieces(events):
    """list of characters and values"""
    out = []
    for c, (fmt, vals, where, _) in events:
        if fmt == "\0":
            out.append(("child", where))
            continue
        if fmt is None:
            out.append(("val", (None, None, ()), where))
            continue
        vals = list(vals)
        i = 0
        while i < len(fmt):
            ch = fmt[i]
            if ch != "%":
                out.append((ch, where))
                i += 1
                continue
            m = re.match(r"%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])",
                         fmt[i:])
            if m is None:
                raise Broken("format %r" % fmt)
            i += m.end()
            if m.group(5) == "%":
                out.append(("%", where))
                continue
            if m.group(2) == "*" and vals:
                vals.pop(0)
            if m.group(3) == "*" and vals:
                vals.pop(0)
            v = vals.pop(0) if vals else (None, None, ())
            if isinstance(v[1], str) and v[0] is None:
                out.extend((x, where) for x in (v[1] if m.group(5) == "s" else v[1]))
            elif isinstance(v[1], tuple) and set(v[1]) <= {"", ",", " ", ", "}:
                out.append(("sep", where))
            else:
                out.append(("val", v, where))
    return out


def text_of(ps):
    """the pieces as one string; values are \\1, children \\2, optional separators \\3"""
    s, back = [], []
    for p in ps:
        s.append({"val": "\1", "child": "\2", "sep": "\3"}.get(p[0], p[0]))
        back.append(p)
    # comments do not count
    t = "".join(s)
    for m in reversed(list(re.finditer(r"//[^\n]*\n", t))):
        t = t[:m.start()] + t[m.end():]
        del back[m.start():m.end()]
    return t, back


IDRE = r"[A-Za-z_$][\w$]*"


def functors(t):
    """(name, start, [(param or None, value start, value end)], after, name position)"""
    r = []
    pos = 0
    while True:
        m = re.compile("(%s)\\s*\\(" % IDRE).search(t, pos)
        if m is None:
            return r
        i, d, a, args = m.end(), 1, m.end(), []
        q = False
        while i < len(t) and d:
            c = t[i]
            if c == '"':
                q = not q
            elif not q and c in "([{":
                d += 1
            elif not q and c in ")]}":
                d -= 1
            if d == 0 or c == "," and d == 1 and not q:
                args.append((a, i))
                a = i + 1
            i += 1
        if d:
            r.append((m.group(1), m.start(), None, i))
            return r
        lst = []
        for a, b in args:
            x = t[a:b]
            mm = re.match(r"[\s\3]*(%s)\s*=" % IDRE, x)
            if mm:
                lst.append((mm.group(1), a + mm.end(), b))
            elif x.strip(" \t\n\3"):
                lst.append((None, a, b))
        r.append((m.group(1), m.start(), lst, i))
        pos = i


def dispatchers(prog, entry, rec_t):
    """functions reachable from the entry that switch on the kind of an object"""
    r = []
    for k in sorted(callees_closure(prog, {entry.key})):
        f = prog.functions.get(k)
        if f is None:
            continue
        for n in f.body.walk():
            if n.k == "SwitchStmt":
                for c in n.ch:
                    p = path(c) if c is not None else None
                    if p is not None and p[-1] == ".type" and p[0] in f.raw["params"]:
                        r.append((f, p))
    return r


class Shared:
    pass


def explore(prog, f, seed, printf):
    sh = Shared()
    sh.printf = printf
    x = Emit(prog, f, sh)
    x.max_states = 3000
    x.run(env=Env(seed))
    seen, r = set(), []
    for val, xs in x.outs:
        e = dict(xs).get(("x", "emit"), ())
        if e not in seen:
            seen.add(e)
            r.append(e)
    return sorted(r, key=repr)


def run(prog, rep):
    rep.rule("the texts that the SCAD writers produce are collected per kind of object and path "
             "(format strings with the origin of every value), parsed into functor applications, "
             "and compared with the reader's tables: names, acceptance by the handler, and the "
             "field each parameter is read into")
    if rep.tier == "thorough":
        Emit.ROUNDS = 3
    docs = parse_doc(prog.repo)
    doc = open(os.path.join(prog.repo, DOC), encoding="utf-8").read()
    unreadable = set(re.findall(r"cannot be read back(?:(?!\n\n).)*?represented by a `(\w+)` functor",
                                " ".join(doc.split("\n")), re.S))
    rec, ix = param_rec(prog)
    table = find_table(prog, set(docs))
    stop = recursive(prog)
    printf = printers(prog)
    live = reach(prog)
    vkinds = syn_kinds(prog)
    memo = {}

    def reader(name, given, kinds=()):
        if (name, given, kinds) not in memo:
            h = prog.functions.get(fkey(table[name][1], prog.repo))
            if h is None:
                raise Broken("no handler for " + name)
            x, sh = handle(prog, h, rec, ix, given, stop, dict(kinds))
            logs = list(sh.log.values())
            memo[name, given, kinds] = (h, x, [t for t in logs[0][1]] if logs else [])
        return memo[name, given, kinds]

    def params(name):
        return [p for t in reader(name, frozenset())[2] for p in t]

    entries = [f for k, f in prog.functions.items() if k in live and not f.static and
               f.relfile.startswith("src/hob3l/") and f.name.endswith("_put_scad") and
               stream_param(f) is not None and f.ret.kind == "void" and
               dispatchers(prog, f, None)]
    if len(entries) < 3:
        raise Broken("only %d SCAD writers found" % len(entries))
    kinds = [e for n, e in prog.enums.items() if {"CP_SCAD_UNION", "CP_SCAD_CUBE"} <= {x for x, _ in e}]
    names_of = {}
    for nm, (ev, fn, n, h) in table.items():
        names_of.setdefault(ev, set()).add(nm)

    def check_call(nm, lst, t, back, at, key):
        """a functor application; returns its parameters' values"""
        where = back[at][-1]
        if lst is None:
            rep.viol("%s:%s:unbalanced" % (key, nm), where, "the text written for '%s' has "
                     "unbalanced brackets: %s" % (nm, plain(t)))
            return
        rep.count("functor applications written")
        if nm not in table and nm in unreadable:
            rep.count("functors documented as not readable")
            return
        if nm not in table:
            rep.viol("%s:%s:unknown" % (key, nm), where, "'%s' is written, but the reader does not "
                     "know that functor" % nm)
            return
        ps = params(nm)
        byname = {p.name: p for p in ps}
        pos = reader(nm, frozenset())[2]
        pos = pos[0] if pos else []
        given = set()
        for i, (pn, a, b) in enumerate(lst):
            w = back[a][-1] if a < len(back) else where
            rep.count("parameters written")
            if pn is None:
                if i >= len(pos):
                    rep.viol("%s:%s:extra" % (key, nm), w, "'%s' is written with %d unnamed "
                             "parameters, the reader knows %d" % (nm, len(lst), len(pos)))
                    continue
                pn = pos[i].name
            if pn in given:
                rep.viol("%s:%s:twice:%s" % (key, nm, pn), w, "'%s' of '%s' is written twice"
                         % (pn, nm))
            if pn not in byname:
                rep.viol("%s:%s:unknown:%s" % (key, nm, pn), w, "'%s' is written with parameter "
                         "'%s', which its reader does not know" % (nm, pn))
                continue
            given.add(pn)
        for p in ps:
            if p.mand and p.name not in given:
                rep.viol("%s:%s:mandatory:%s" % (key, nm, p.name), where, "'%s' is written without "
                         "its mandatory parameter '%s'" % (nm, p.name))
        if all(p.name in given for p in ps if p.mand):
            h, x, _ = reader(nm, frozenset(given))
            rep.count("written parameter sets tried on the reader")
            if not x.ends:
                rep.viol("%s:%s:rejected" % (key, nm), where, "%s() never accepts the parameters "
                         "written: %s" % (h.name, ", ".join(sorted(given))))
        # arrays: components in order
        for pn, a, b in lst:
            rows(nm, pn, t[a:b], back[a:b], key)
            separators(nm, pn, t[a:b], back[a:b], key)

    def separators(nm, pn, t, back, key):
        """the elements of a list stand between commas"""
        rep.count("values whose separators were looked at")
        x = re.sub(r'"[^"]*"', lambda m: "v" * len(m.group()), t)
        x = re.sub(r"[\w.\1]", "v", x)
        for m in re.finditer(r"(?:\]\s*(?=[\[v])|v\s*(?=\[)|v\s+(?=v)|[\[,]\s*(?=,))", x):
            w = back[m.start()][-1]
            rep.viol("%s:%s:separators:%s" % (key, nm, pn), w, "the list written for '%s' of '%s' "
                     "is not separated by single commas: %s" % (pn, nm, plain(t)))
            break
        q = re.sub(r'"[^"]*"', lambda m: "v" * len(m.group()), t)
        if q.find("\1\1") >= 0:
            rep.viol("%s:%s:separators:%s" % (key, nm, pn), back[q.find("\1\1")][-1], "two values "
                     "of '%s' of '%s' are written without anything between: %s"
                     % (pn, nm, plain(t)))

    def rows(nm, pn, t, back, key):
        for m in re.finditer(r"\[([^\[\]]*)\]", t):
            k = t[:m.start()].count("]") - 0
            el, st = [], m.start(1)
            for q in m.group(1).split(","):
                vs = [back[st + i][1] for i, c in enumerate(q) if c == "\1"]
                el.append(vs[0] if len(vs) == 1 and q.strip() == "\1" else None)
                st += len(q) + 1
            known = [(i, comp(v[0])) for i, v in enumerate(el) if v is not None]
            if len(known) < 2 or any(c is None for _, c in known):
                continue
            rep.count("arrays of components written")
            w = back[m.start()][-1]
            base = None
            for i, (root, cs) in known:
                if base is None:
                    base = (root, len(cs))
                if len(cs) == 1 and (root, 1) == base:
                    ok = cs[0] == i
                elif len(cs) == 2 and base == (root, 2):
                    ok = cs == (k, i)
                elif base[1] == 2 and len(cs) == 1:
                    ok = cs[0] == k
                else:
                    ok = False
                if not ok:
                    rep.viol("%s:%s:order:%s:%d:%d" % (key, nm, pn, k, i), w,
                             "'%s' of '%s' is written with a wrong component at position %d%s"
                             % (pn, nm, i + 1, " of row %d" % (k + 1) if base[1] == 2 else ""))

    def comp(steps):
        if steps is None:
            return None
        cs = []
        st = list(steps)
        while st and (isinstance(st[-1], int) or st[-1] in COMP or st[-1] in ("v", "c", "m")):
            x = st.pop()
            if isinstance(x, int):
                cs.insert(0, x)
            elif x in COMP and not (x == "b" and cs):
                cs.insert(0, COMP[x])
        if not cs:
            return None
        return ("/".join(map(str, st)), tuple(cs)) if len(cs) == 1 else \
            ("/".join(map(str, st)), tuple(cs))

    for e in sorted(entries, key=lambda f: f.key):
        disp = dispatchers(prog, e, None)
        # the dispatcher whose cases are reader kinds
        scad = False
        for f, p in disp:
            sw = {c.ch[0].val for n in f.body.walk() if n.k == "SwitchStmt"
                  for c in n.walk() if c.k == "CaseStmt"}
            if kinds and len(sw & {v for _, v in kinds[0]}) > 15:
                scad = (f, p)
        if not scad:
            n = 0
            for f, p in disp:
                for ev in explore(prog, f, {}, printf):
                    t, back = text_of(pieces(ev))
                    n += 1
                    for nm, a, lst, b in functors(t):
                        check_call(nm, lst, t, back, a, e.name)
            rep.count("texts collected", n)
            continue
        f, p = scad
        for kn, kv in kinds[0]:
            nms = names_of.get(kv, set())
            if not nms:
                continue
            evs = explore(prog, f, {p: kv}, printf)
            key = e.name + ":" + kn
            rep.count("object kinds written")
            rep.count("texts collected", len(evs))
            where = "%s:%d" % (f.relfile, f.line)
            if not any(evs):
                rep.viol(key + ":nothing", where, "nothing is written for %s" % kn)
                continue
            mine, childs, bodies = {}, 0, 0
            bare, full = {}, set()
            omitted, maybe = {}, {q.name for nm in nms for q in params(nm)}
            for ev in evs:
                t, back = text_of(pieces(ev))
                fs = functors(t)
                if not fs:
                    rep.viol(key + ":none", where, "no functor is written for %s on some path: %s"
                             % (kn, plain(t)))
                    continue
                nm, a, lst, b = fs[0]
                if not (set(t[:a]) <= set(" \n*#%!\3")):
                    rep.viol(key + ":prefix", where, "unexpected text before '%s': %s"
                             % (nm, plain(t[:a])))
                if nm not in nms:
                    rep.viol(key + ":name", back[a][-1], "%s is written as '%s', but the reader "
                             "makes it from %s" % (kn, nm, "/".join(sorted(nms))))
                    continue
                check_call(nm, lst, t, back, a, key)
                if lst is None:
                    continue
                rest = re.sub(r"\s", "", t[b:])
                cond = tuple(sorted(((k, v) for c, w in ev for k, v in w[3]
                                     if k[-1:] not in (("size",), ("data",))), key=repr))
                if re.fullmatch("{\2+}", rest):
                    childs += 1
                    full.add(cond)
                    bodies += 1
                elif rest == "{}":
                    bodies += 1
                    bare.setdefault(cond, back[b - 1][-1])
                elif rest != ";":
                    rep.viol(key + ":tail", back[b - 1][-1], "the text after '%s(…)' is neither ';' "
                             "nor a block: %s" % (nm, plain(rest)))
                byname = {q.name: q for q in params(nm)}
                pos = reader(nm, frozenset())[2]
                pos = pos[0] if pos else []
                for i, (pn, va, vb) in enumerate(lst):
                    if pn is None and i < len(pos):
                        pn = pos[i].name
                    q = byname.get(pn)
                    if q is None or not isinstance(q.data, tuple) or len(q.data) < 2:
                        continue
                    dest = tuple(s.lstrip(".") for s in q.data[1:])
                    vals = [back[j][1] for j in range(va, vb) if t[j] == "\1"]
                    w = back[va][-1]
                    mine.setdefault(pn, False)
                    if not vals:
                        rep.viol("%s:constant:%s" % (key, pn), w, "'%s' of '%s' is written without "
                                 "its value" % (pn, nm))
                        continue
                    for st, tx, fl in vals:
                        if st is None or st and str(st[0]).startswith("local "):
                            mine[pn] = True
                            rep.count("values of unknown origin")
                            continue
                        got = tuple(x for x in st if x != "")
                        got = alias(got, dest)
                        rep.count("values compared with the reader's field")
                        if got[:len(dest)] != dest:
                            rep.viol("%s:field:%s" % (key, pn), w, "'%s' of '%s' is written from "
                                     "the field '%s', but read into '%s'"
                                     % (pn, nm, ".".join(map(str, got)), ".".join(dest)))
                        elif isinstance(tx, tuple):
                            neg = sum(x in ("!", "==0") for x in fl) % 2
                            want = TRUE if not neg else TRUE[::-1]
                            if tx != want:
                                rep.viol("%s:flag:%s" % (key, pn), w, "'%s' of '%s' is written as "
                                         "%s/%s" % (pn, nm, tx[0], tx[1]))
                        elif any(x not in ("call",) for x in fl):
                            rep.viol("%s:value:%s" % (key, pn), w, "'%s' of '%s' is changed when "
                                     "it is written (%s)" % (pn, nm, " ".join(fl)))
                        mine[pn] = True
                # the conditions under which this form is written
                facts = {}
                for c, v in ev:
                    for st, val in v[3]:
                        facts[st] = val
                names, shapes = set(), {}
                for i, (pn, va, vb) in enumerate(lst):
                    if pn is None and i < len(pos):
                        pn = pos[i].name
                    names.add(pn)
                    sp = shape(t[va:vb])
                    if sp in vkinds:
                        shapes[pn] = vkinds[sp]
                for q in params(nm):
                    if q.name in names or not isinstance(q.data, tuple) or len(q.data) < 2 or \
                            q.name not in mine and q.name not in maybe:
                        continue
                    dest = tuple(x.lstrip(".") for x in q.data[1:])
                    if any(back[j][1][0] is not None and
                           tuple(x for x in back[j][1][0] if x != "")[:len(dest)] == dest
                           for j in range(a, b) if t[j] == "\1"):
                        continue        # written under another name
                    omitted.setdefault(q.name, []).append((facts.get(dest), back[a][-1]))
                for i, (pn, va, vb) in enumerate(lst):
                    q = byname.get(pn)
                    if q is None or not isinstance(q.data, tuple) or len(q.data) < 2:
                        continue
                    dest = tuple(x.lstrip(".") for x in q.data[1:])
                    if facts.get(dest) is False and any(
                            t[j] == "\1" and back[j][1][0] is not None and back[j][1][1] is None and
                            tuple(x for x in back[j][1][0] if x != "") == dest
                            for j in range(va, vb)):
                        rep.viol("%s:absent:%s" % (key, pn), back[va][-1], "'%s' of '%s' is "
                                 "written where '%s' is not set" % (pn, nm, ".".join(dest)))
                if all(q.name in names for q in params(nm) if q.mand) and \
                        names <= set(byname) and facts:
                    h, x, _ = reader(nm, frozenset(names), tuple(sorted(shapes.items())))
                    rep.count("written forms compared with what the reader makes of them")
                    if x.ends and not any(agrees(env, facts) for _, env in x.ends):
                        rep.viol("%s:form" % key, back[a][-1], "the form %s is written for an "
                                 "object with %s, which reading it never makes"
                                 % (plain(t[a:b]), ", ".join("%s%s" % ("" if v else "not ",
                                                                        ".".join(map(str, k)))
                                                             for k, v in sorted(facts.items()))))
            for pn, l in sorted(omitted.items()):
                for fact, w in l:
                    if fact is not False and pn in mine:
                        rep.viol("%s:omitted:%s" % (key, pn), w, "'%s' of '%s' is left out where "
                                 "it may be set" % (pn, sorted(nms)[0]))
            for cond, w in sorted(bare.items(), key=repr):
                if childs and cond not in full:
                    rep.viol(key + ":children", w, "the children of '%s' are not written where %s"
                             % (sorted(nms)[0], ", ".join("%s%s" % ("" if v else "not ", ".".join(
                                 map(str, k))) for k, v in cond) or "nothing else is known"))
            # every field the reader fills is written
            nm = sorted(nms)[0]
            names = {back_nm for back_nm in nms}
            ps = params(nm)
            for q in ps:
                if not isinstance(q.data, tuple) or len(q.data) < 2:
                    continue
                if "ignored" in (docs[nm].type.get(q.name) or "") if nm in docs else False:
                    continue
                rep.count("parameters the reader keeps")
                if q.name not in mine and not any(same_field(q, o) for o in ps if o.name in mine):
                    rep.viol("%s:missing:%s" % (key, q.name), where, "the parameter '%s' of '%s' "
                             "is not written" % (q.name, nm))
            h, x, _ = reader(nm, frozenset(q.name for q in ps if q.mand))
            reads = any(env.get(("x", "body")) is not None for _, env in x.ends)
            if reads and not childs:
                rep.viol(key + ":children", where, "the children of '%s' are not written" % nm)
            if bodies and not reads:
                rep.viol(key + ":block", where, "'%s' is written with a block, but its children "
                         "are not read" % nm)
            rep.sample("kind", "%s -> %s" % (kn, plain(text_of(pieces(max(evs, key=len)))[0])[:150]))
    rep.floor("object kinds written", 20)
    rep.floor("parameters written", 60)
    rep.floor("values compared with the reader's field", 40)
    rep.floor("parameters the reader keeps", 30)


def shape(t):
    t = t.strip(" \t\n\3")
    return "ARRAY" if t.startswith("[") else "STRING" if t.startswith('"') else \
        "FLOAT" if t == "\1" else "ID" if re.fullmatch(r"[a-z]+", t) else None


def agrees(env, facts):
    for k, v in env.m.items():
        if k[0] in ("n", "x") or len(k) < 2 or truth(v) is None:
            continue
        st = tuple(str(x).lstrip(".") for x in k[1:])
        if st in facts and facts[st] != truth(v):
            return False
    return True


def same_field(p, q):
    return p.name != q.name and p.data == q.data


def alias(got, dest):
    return got


def plain(t):
    return t.replace("\1", "<value>").replace("\2", "<children>").replace("\3", "").strip()
