#!/usr/bin/env python3
"""allchecks.py PROPERTY...: run these checks in turn on HOB3L_REPO, with one load of the program, until one reports a
violation; prints 'P=rc' of those that do not say 0"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)
import facts  # noqa: E402
from report import Report  # noqa: E402

prog = facts.Program(os.environ["HOB3L_REPO"])
for p in sys.argv[1:]:
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        fd = os.open("/dev/null", os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        rep = Report(p, "quick")
        rc = 2
        try:
            importlib.import_module(p.lower()).run(prog, rep)
            rc = rep.finish()
        except facts.Broken:
            try:
                if rep.viols and not rep.short:
                    rc = rep.finish() or 2
            except facts.Broken:
                pass
        except Exception:
            pass
        os._exit(rc)
    rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if rc:
        print("%s=%d" % (p, rc))
    if rc == 1:
        break
