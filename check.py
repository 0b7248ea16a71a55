"""Entry point: check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B", "-W", "ignore"] + sys.argv)
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import common
    import harness
    check = importlib.import_module(a.id.lower())
    for n in ("matches_known", "reproduce_known"):
        if not hasattr(check, n):
            setattr(check, n, getattr(common, n))
    if a.replay:
        return harness.replay(check, a.replay)
    return harness.run_check(check, a.tier, a.seed)


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
