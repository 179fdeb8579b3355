#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decides one property from /repo's current source."""
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(40000)
import threading
threading.stack_size(512 * 1024 * 1024)


LIMIT = 800          # seconds; what is not decided by then is reported as undecided


def main(out, reps):
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from gq import checks, build
    from gq.report import Report
    from gq.api import MissingAnchor
    rep = Report(pid, tier, seed)
    reps.append(rep)
    try:
        checks.run(pid, rep, tier, seed)
    except MissingAnchor as e:
        rep.errors.append("missing anchor: %s" % e)
    except build.BuildError as e:
        rep.errors.append("build: %s" % e)
    except Exception as e:          # a construct the analysis cannot digest leaves the rest undecided
        traceback.print_exc()
        rep.open("remaining obligations", "internal error %s: %s" % (type(e).__name__, e))
    if os.environ.get('GQ_FUEL'):
        from gq import linear
        print('fuel', linear._spent)
    out.append(rep.finish())


if __name__ == "__main__":
    out, reps = [], []

    def go():
        try:
            main(out, reps)
        except BaseException:
            traceback.print_exc()
            out.append(3)
    t = threading.Thread(target=go)
    t.daemon = True
    t.start()
    late = len(sys.argv) > 2 and sys.argv[2] == "thorough"
    t.join(None if late else LIMIT)
    if t.is_alive():
        rep = reps[0]
        rep.open("remaining obligations", "not reached within %d s" % LIMIT)
        rc = rep.finish()
        sys.stdout.flush()
        os._exit(rc)
    sys.stdout.flush()
    sys.exit(out[0] if out else 3)
