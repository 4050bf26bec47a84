#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
REPO = os.environ.get("VFBLIB_REPO", "/repo")
sys.path[:0] = [HERE, os.path.join(REPO, "src"),
                "/opt/venv/lib/python3.12/site-packages"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import logging

    logging.disable(logging.CRITICAL)
    import vfbLib

    assert vfbLib.__file__.startswith(os.path.join(REPO, "src")), vfbLib.__file__
    from pyvc.run import Run, replay

    if a.replay:
        return replay(a.replay)
    run = Run(a.property, a.tier, int(a.seed))
    mod = importlib.import_module("props." + a.property.lower())
    level = mod.check(run)
    return run.finish(level or "exploration")


if __name__ == "__main__":
    sys.exit(main())
