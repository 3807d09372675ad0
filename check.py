#!/usr/bin/env python3
"""check.py PROPERTY...: decide properties from /repo's current source."""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True


def main():
    rc = 0
    for prop in sys.argv[1:]:
        mod = importlib.import_module(prop.lower())
        from report import Report

        rep = Report(prop, mod.RULE, getattr(mod, "FLOOR", 1))
        try:
            mod.run(rep)
        except Exception as e:  # fail closed: what cannot be analysed is not established
            traceback.print_exc()
            rep.fail("analysis", "", "the analysis could not be completed: %s: %s" % (type(e).__name__, str(e)[:1500]))
        rc |= rep.finish()
    return rc


sys.exit(main())
