"""Command line: ``python3 -m sa.run C01 [--tier quick|thorough]``."""

import argparse
import os
import sys

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sa import report  # noqa: E402
from sa.checks import CHECKS  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.pid == "all":
        rc = 0
        for pid in sorted(CHECKS):
            c = report.Check(pid, a.tier)
            CHECKS[pid](c)
            rc |= c.finish(report.Known())
        return rc
    c = report.Check(a.pid, a.tier)
    CHECKS[a.pid](c)
    return c.finish(report.Known())


if __name__ == "__main__":
    sys.exit(main())
