#!/opt/venv/bin/python
"""run.py CHECK [--tier quick|thorough]   |   run.py --replay FILE"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402


def main(argv):
    if argv[0] == "--replay":
        return core.replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    rcs = [core.run_check(pid, tier, int(os.environ.get("VERIF_SEED", "1"))) for pid in argv if pid.startswith("C")]
    return max(rcs)


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
