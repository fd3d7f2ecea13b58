#!/usr/bin/env python3
"""automut.py SEED COUNT OUT [FILE...]: random small changes to scratch copies of /repo; those that build and
pass the stable tests are given to all checks until one of them reports a violation"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = """hob3l/main.c hob3l/syn.c hob3l/scad.c hob3l/csg3.c hob3l/stl-parse.c hob3l/svg-parse.c hob3l/xml-parse.c
hob3l/csg2-tree.c hob3l/csg2-bool.c hob3l/csg2-layer.c hob3l/csg2-2js.c hob3l/csg2-2stl.c hob3l/csg2-2scad.c
hob3l/csg2-2ps.c hob3l/csg3-2scad.c hob3l/scad-2scad.c hob3l/gc.c hob3l/syn-msg.c hob3l/syn-2scad.c hob3l/csg2-hull.c
hob3lbase/stream.c hob3lop/op-slice.c hob3lop/op-sweep.c hob3lop/op-sweep-reduce.c hob3lop/op-poly.c
hob3lmat/algo.c hob3lbase/bool-bitmap.c hob3l/vec3-dict.c hob3l/csg2.c hob3l/csg2-xor.c hob3lbase/dict.c hob3lbase/qsort.c hob3lbase/heap.c hob3lbase/pool.c hob3lbase/vec.c hob3lbase/vchar.c hob3lbase/utf8.c hob3lop/hedron.c hob3lop/gon.c hob3lop/matq.c hob3lop/op-trianglify.c hob3lop/op-sweep-trace.c hob3lmat/mat_is_rot.c hob3lmat/mat_gen_ext.c""".split()
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" \+ ", " - "), (r" - ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r"\bfalse\b", "true"),
        (r"\btrue\b", "false"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\b3\b", "2"), (r"\.x\b", ".y"),
        (r"\.y\b", ".x"), (r"\.z\b", ".y"), (r"->x\b", "->y"), (r"->y\b", "->x"), (r"cp_min\(", "cp_max("),
        (r"cp_max\(", "cp_min("), (r"!(?=[a-z(])", ""), (r" \* ", " / "), (r" / ", " * "), (r"\+\+", "--"),
        (r"\bi\b", "(i+1)"), (r"\bj\b", "(j+1)"), (r" = -", " = "), (r"\breturn (\w+);", r"return !\1;"),
        (r"\(([a-z_]+), ([a-z_]+)\)", r"(\2, \1)"), (r"\|=", "="), (r"\+=", "="), (r"-=", "+="), (r"\bmin\b", "max"),
        (r"\bmax\b", "min"), (r"\badd\b", "sub"), (r"NULL\)", "NULL + 0 != NULL)"), (r"\ba\b", "b"), (r"\bb\b", "a")]


def mutants(seed, count, files):
    files = [f for f in files if os.path.exists("/repo/src/" + f)]
    r = random.Random(seed)
    seen = set()
    while len(seen) < count:
        f = r.choice(files)
        L = open("/repo/src/" + f).read().split("\n")
        i = r.randrange(len(L))
        l = L[i]
        s = l.strip()
        if not s or s.startswith(("/", "*", "#", "assert", "CP_UNUSED", "extern", "static")) or not l.startswith("    "):
            continue
        if r.random() < .25:
            if not s.endswith(";") or "=" in s and re.match(r"[\w* ]+ \**\w+( =|;|\[)", s) and " " in s.split("=")[0].strip():
                continue
            n = ""
        else:
            p, q = r.choice(SUBS)
            ms = list(re.finditer(p, l))
            if not ms:
                continue
            m = r.choice(ms)
            n = l[:m.start()] + m.expand(q) + l[m.end():]
        if (f, i, n) in seen:
            continue
        seen.add((f, i, n))
        yield f, i, l, n


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or FILES
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    man = json.load(open(V + "/MANIFEST.json"))
    props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
    checks = [c["property"] for c in man["checks"]]
    q = Queue()
    N = int(os.environ.get("WORKERS", "7"))
    for k in range(N):
        d = "/tmp/am/w%d" % k
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        for s in ("build", "test"):
            t = open("/opt/vp/%s.sh" % s).read().replace("/opt/vp/build.sh", d + "/build.sh").replace("/repo", d + "/repo")
            open(d + "/%s.sh" % s, "w").write(t.replace("-j8", "-j2"))
        os.makedirs(d + "/verif")
        for x in ("check.py", "lib", "rules", "tool", "build", "known_findings.json", "setup.sh"):
            subprocess.run(["cp", "-r", V + "/" + x, d + "/verif/"], check=True)
        q.put(d)

    def one(mu):
        f, i, old, new = mu
        d = q.get()
        try:
            p = d + "/repo/src/" + f
            src = open(p).read()
            L = src.split("\n")
            L[i] = new
            open(p, "w").write("\n".join(L))
            res = "?"
            try:
                if subprocess.run(["bash", d + "/build.sh"], capture_output=True).returncode:
                    res = "BUILD"
                    return
                subprocess.run(["bash", d + "/test.sh", d + "/o.json"], capture_output=True)
                if not stable <= set(json.load(open(d + "/o.json"))["passed"]):
                    res = "TESTS"
                    return
                rcs = []
                order = sorted(checks, key=lambda c: not any(f in a for a in props[c]["anchors"]["files"]))
                x = subprocess.run(["python3", d + "/verif/tool/allchecks.py"] + order, capture_output=True, text=True,
                                   env=dict(os.environ, HOB3L_REPO=d + "/repo"), timeout=3000)
                rcs = x.stdout.split() + (["ERR"] if x.returncode else [])
                res = " ".join(rcs) or "NONE"
            finally:
                with open(out + ".all", "a") as o:
                    o.write("%s | %s:%d | %s => %s\n" % (res, f, i + 1, old.strip(), new.strip()))
                open(p, "w").write(src)
                subprocess.run(["bash", d + "/build.sh"], capture_output=True)
            with open(out, "a") as o:
                o.write("%s | %s:%d | %s => %s\n" % (res, f, i + 1, old.strip(), new.strip()))
        except Exception as e:
            with open(out, "a") as o:
                o.write("ERROR %s:%d %r\n" % (f, i + 1, e))
        finally:
            q.put(d)

    with ThreadPoolExecutor(N) as ex:
        list(ex.map(one, mutants(seed, count, files)))
    shutil.rmtree("/tmp/am", ignore_errors=True)
    open(out, "a").write("DONE\n")


main()
