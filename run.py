#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property of the tree in /repo."""
import importlib
import os
import sys
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "checks"))
sys.path.insert(0, os.path.join(V, "engine"))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import common
    mod = importlib.import_module(pid.lower())
    ck = common.Check(pid, tier)
    try:
        mod.check(ck)
    except common.AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    if not ck.obl and not ck.viol:
        print("ANALYSIS-ERROR property=%s no obligation was decided" % pid)
        for u in ck.und:
            print("  undecided: %s at %s: %s" % u)
        return 2
    return ck.finish()


if __name__ == "__main__":
    import threading
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]

    def go():
        try:
            rc[0] = main()
        except BaseException:
            traceback.print_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
