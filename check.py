#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property on /repo's current sources.
exit 0: holds (or only known findings), 1: violated, 2: the analysis could not be done"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)

import facts  # noqa: E402
from report import Report  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    repo = os.environ.get("HOB3L_REPO", "/repo")
    rep = Report(prop, tier)
    try:
        mod = importlib.import_module(prop.lower())
        prog = facts.Program(repo)
        rep.count("translation units parsed", len(prog.tus))
        rep.count("function definitions in the program", len(prog.functions))
        mod.run(prog, rep)
        rc = rep.finish()
    except facts.Broken as e:
        rc = 2
        try:
            # what was found before stays found
            if rep.viols and not rep.short:
                rc = rep.finish() or 2
        except facts.Broken:
            pass
        if rc != 1:
            print("ANALYSIS-FAILED property=%s: %s" % (prop, e))
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-FAILED property=%s" % prop)
        rc = 2
    return rc


sys.exit(main())
