#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "pbt"))
sys.dont_write_bytecode = True


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--replay")
    a = p.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0":  # every run is a function of the code and the seed
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__), *sys.argv[1:]])
    import core
    if a.replay:
        return core.replay(a.property, a.replay)
    return core.run_check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
