#!/usr/bin/env python3
"""check.py <property id>: decides one property.  Exit 0: held on everything explored; exit 1 and a line
'VIOLATION property=<id> replay=<path>': broken; exit 2: the check could not do its work."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from vlib import *

FAMILY = {}
for p in ("C01", "C02", "C03", "C04"):
    FAMILY[p] = "lexfam"
for p in ("C18", "C19", "C20", "C21", "C27"):
    FAMILY[p] = "convfam"
for p in range(5, 18):
    FAMILY["C%02d" % p] = "execfam"
for p in range(22, 27):
    FAMILY["C%02d" % p] = "contfam"
FAMILY["C28"] = "threadfam"
FAMILY["C29"] = "textfam"


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] == "thorough":
        os.environ["VERIF_TIER"] = "thorough"
    os.makedirs(BUILD, exist_ok=True)
    chk = Check(prop)
    try:
        __import__(FAMILY[prop]).check(chk)
        if prop == "C06":
            import convfam
            convfam.check_names(chk)
        import bigfam
        bigfam.check_big(chk)
        chk.finish()
        print("%s held: %d specification and trace states, %d observations/traces of the implementation validated, %.1f s"
              % (prop, chk.states, chk.validated, time.time() - chk.t0))
        return 0
    except Violation as v:
        chk.cleanup()
        print("  " + v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except Uncompilable as e:
        replay = chk.save_replay("uncompilable", {"compiler.txt": str(e), "README": "This use of the library's interface compiled at the pinned commit.\n"})
        chk.cleanup()
        print("  a use of the library no longer compiles: " + str(e).splitlines()[0])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    except CheckError as e:
        chk.cleanup()
        print("ERROR in the check of %s: %s" % (prop, e))
        return 2
    except Exception:
        chk.cleanup()
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
