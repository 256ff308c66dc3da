"""Decides one property:  python3 check.py C07 [--tier quick|thorough] [--seed N] [--replay FILE]

1. the design models of the property are checked with TLC (spec/MC*.tla);
2. sessions (some generated by TLC) are run against the real code in /repo and recorded;
3. TLC judges every recorded session with spec/NnjTrace.tla.

Exit 0: no disagreement.  Exit 1: disagreements, one VIOLATION line each.  Exit 2: the machinery failed.
"""
import os
import sys

VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("NNJ_REPO", "/repo")

if os.environ.get("NNJ_CHECK_CHILD") != "1":
    env = dict(os.environ, NNJ_CHECK_CHILD="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX="/nonexistent-nnj-pycache", CUDA_VISIBLE_DEVICES="")
    os.execve(VENV, [VENV, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse
import json
import shutil
import tempfile
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0, help="multiplies the budgets (development)")
    ap.add_argument("--nomodels", action="store_true")
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="nnjcheck.")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    try:
        sys.path.insert(0, HERE)
        sys.path.insert(0, REPO)
        import engine
        rc = engine.replay(a.prop, a.replay, tmp) if a.replay else engine.check(a, tmp, REPO, ROOT)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
