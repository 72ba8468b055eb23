#!/usr/bin/env python3
"""./check.py <property id>: decide one property on /repo's current working tree (exit 0 held, 1 broken)."""
import importlib
import os
import signal
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis", "props"))
sys.dont_write_bytecode = True


def main():
    import env
    from facts import Crate
    from report import OutOfTime, Report
    start = time.time()

    def late(*_):
        raise OutOfTime()
    pid = sys.argv[1]
    if "--thorough" in sys.argv:
        os.environ["VERIF_DEEP"] = "1"
    mod = importlib.import_module(pid.lower())
    if os.environ.get("VERIF_FACTS"):      # development only: reuse a dump
        d = os.environ["VERIF_FACTS"]
        paths = {n[:-5]: os.path.join(d, n) for n in os.listdir(d) if n.endswith(".json")}
    else:
        try:
            paths = env.dump()
        except env.BuildFailed as e:
            print("the current tree does not type-check, nothing is decided:\n%s" % e)
            sys.exit(2)
    crates = {n: Crate(p) for n, p in paths.items()}
    rep = Report(pid)
    # what is not decided in time is left undecided
    deep = bool(os.environ.get("VERIF_DEEP"))
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, max(60, (3300 if deep else 780) - (time.time() - start)))
    try:
        mod.run(rep, crates)
    except OutOfTime:
        rep.undec("time", "the analysis ran out of time")
    signal.setitimer(signal.ITIMER_REAL, 0)
    sys.exit(rep.finish(getattr(mod, "LEVEL", "other"), mod.NOTE))


if __name__ == "__main__":
    main()
