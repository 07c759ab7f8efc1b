#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] | --replay FILE"""
import argparse
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "TZ": "UTC", "MPLBACKEND": "Agg",
       "LANG": "C.UTF-8"}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    if os.environ.get("_VERIF_CHILD") != "1":
        env = dict(os.environ, **ENV)
        env["_VERIF_CHILD"] = "1"
        env.setdefault("VERIF_HASHSEED", "0")
        env["PYTHONHASHSEED"] = env["VERIF_HASHSEED"]
        env["PYTHONPATH"] = here
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)]
                  + sys.argv[1:], env)
    sys.path.insert(0, here)
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--digests")
    a = ap.parse_args()
    from sim import core
    if a.replay:
        return core.run_replay(a.replay)
    return core.run_check(a.property, a.tier, a.seed, a.workers, a.digests,
                          a.cases)


if __name__ == "__main__":
    sys.exit(main())
