#!/opt/venv/bin/python
"""run.py <property> [quick|thorough]   |   run.py --replay <file>"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon import core  # noqa: E402


def main():
    if sys.argv[1] == "--replay":
        return core.replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER") or "quick"
    return core.run_check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED") or 1))


if __name__ == "__main__":
    sys.exit(main())
