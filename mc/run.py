"""Command line of the explorer: see ../check."""
import argparse
import os
import sys

from mc import core


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick",
                   choices=["quick", "thorough"])
    p.add_argument("--replay")
    p.add_argument("--unit", help="only units whose JSON contains this text")
    p.add_argument("-v", action="store_true")
    p.add_argument("-j", type=int, default=os.cpu_count() or 4)
    a = p.parse_args()
    if a.replay:
        return core.replay_main(a.replay)
    return core.check_main(a.property, a.tier, a.j, a.v, a.unit)


if __name__ == "__main__":
    sys.exit(main())
