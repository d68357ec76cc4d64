#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--only test ...] [--scale f] | check.py replay <file>"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import env  # noqa: E402

env.reexec()
env.setup_paths()


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    from lib import harness

    if a.prop == "replay":
        return harness.replay(a.file)
    return harness.run(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.only, a.scale)


if __name__ == "__main__":
    sys.exit(main())
