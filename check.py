#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--only HARNESS] [--replay FILE] [--jobs N]"""
import argparse
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    import logging

    logging.disable(logging.CRITICAL)
    from engine import runner

    if a.selftest:
        from engine import selftest

        sys.exit(selftest.main())

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(runner.run_check(a.id, a.tier, seed, a.only, a.replay, a.jobs))


if __name__ == "__main__":
    main()
