#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's working tree.

Exit 0: it held on everything that could be decided (what could not is printed and in the
evidence); 1 with a VIOLATION line: broken; 2: the tree or the analyser could not be compiled.
With VERIF_STRICT set, 2 also if anything is undecided."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import common


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = common.Report(prop, tier, seed)
    facts = None
    try:
        mod = importlib.import_module(prop.replace("-", "_"))
        facts = common.Facts(prop)
        try:
            mod.run(facts, rep)
        except common.Unfamiliar as e:
            rep.ob("analysis", None, str(e))
        except common.Broken:
            raise
        except Exception:
            rep.ob("analysis", None, traceback.format_exc()[-1500:])
        rc = rep.finish()
        if rc == 0 and os.environ.get("VERIF_STRICT") and any(o["ok"] is None for o in rep.obligations):
            return 2
        return rc
    except common.Broken as e:
        print("ANALYSIS BROKEN (%s): %s" % (prop, e))
        return 2
    finally:
        if facts:
            facts.close()


sys.exit(main())
