"""python3 check.py C01 [quick|thorough] | C01 --replay FILE"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from semla import engine  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    prop = mod.PROP
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return engine.run_replay(prop, sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("SEMLA_SCALE", "1"))
    return engine.run_check(prop, tier, seed, scale)


if __name__ == "__main__":
    sys.exit(main())
