#!/usr/bin/env python3
"""run.py PROPERTY: decide a property of the sources in /repo"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)


def main():
    from checks import CHECKS
    from sa.core import AnalysisError
    from sa.report import finish
    import time
    import traceback
    code = 0
    for prop in sys.argv[1:]:
        t0 = time.time()
        mod = CHECKS[prop]
        try:
            m = __import__("checks." + mod[0], fromlist=["x"])
            res, opts = getattr(m, mod[1])(*mod[2:])
            c = finish(prop, res, t0, **opts)
        except AnalysisError as e:
            print("ERROR property=%s: %s" % (prop, e))
            c = 2
        except Exception:
            traceback.print_exc()
            print("ERROR property=%s: internal error" % prop)
            c = 2
        code = max(code, c) if code != 1 else 1
        if c == 1:
            code = 1
    return code


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
