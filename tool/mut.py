#!/usr/bin/env python3
"""mut.py PROP < file of mutations: each 'FILE\n<<<\nold\n>>>\nnew\n===\n' is applied to a scratch
copy of the sources and the check run on it (exit codes listed; nothing is built)"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
from concurrent.futures import ThreadPoolExecutor
items = []
for blk in sys.stdin.read().split("\n===\n"):
    if not blk.strip():
        continue
    head, rest = blk.split("\n<<<\n", 1)
    old, new = (rest + "\n").split("\n>>>\n", 1)
    items.append((head.strip(), old, new.rstrip("\n")))


def one(it):
    f, old, new = it
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        for x in ("src", "include", "script", "doc"):
            shutil.copytree("/repo/" + x, d + "/" + x)
        for x in os.listdir("/repo"):
            if os.path.isfile("/repo/" + x):
                shutil.copy("/repo/" + x, d)
        p = d + "/" + f
        s = open(p).read()
        if s.count(old) < 1:
            return "OLD TEXT NOT FOUND"
        open(p, "w").write(s.replace(old, new, 1))
        v = d + "/verif"
        os.makedirs(v)
        for x in ("lib", "rules", "build"):
            os.symlink(V + "/" + x, v + "/" + x)
        for x in ("check.py", "known_findings.json", "setup.sh"):
            shutil.copy(V + "/" + x, v)
        r = subprocess.run(["python3", v + "/check.py", prop], env=dict(os.environ, HOB3L_REPO=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode()
        msg = [l for l in o.split("\n") if l and not l.startswith("  ") and "KNOWN" not in l]
        return "rc=%d %s" % (r.returncode, " | ".join(m.replace(d, "")[:230] for m in msg[:3]))
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(7) as ex:
    for it, r in zip(items, ex.map(one, items)):
        print("%-28s %-50s -> %s" % (it[0].split("/")[-1], it[1].strip().split("\n")[0][:50], r))
