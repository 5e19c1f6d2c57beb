#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]: decide one property from /repo's current source."""
import importlib, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import report


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ctx = report.Ctx(prop, tier)
    mod = importlib.import_module("checks." + prop.lower())
    return ctx.run(mod)


if __name__ == "__main__":
    sys.exit(main())
