"""check.py PROPERTY: decides one property for /repo's current sources."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading

import build
import report


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from registry import SPECS

    try:
        return report.execute(prop, SPECS[prop], tier)
    except build.BuildError as e:
        print(f"{prop}: the sources cannot be analysed because they do not build\n{e}")
        return 2


if __name__ == "__main__":
    threading.stack_size(512 << 20)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
