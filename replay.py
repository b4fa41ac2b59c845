#!/usr/bin/env python3
"""Replays a counterexample (evidence/replay/*.txt) against the real crate: natively, then under Miri.

  replay.py FILE [--miri]
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402


def main():
    path = os.path.abspath(sys.argv[1])
    w = open(path).readline().split()
    d = dict(zip(w[1::2], w[2::2]))
    prop, h, var, prof = d["property"], d["harness"], d["variant"], d["profile"]
    tier = d.get("tier", "quick")
    prep = check.variant(var).get("prepare")
    if prep:
        prep(check.ROOT)
    if "--miri" not in sys.argv:
        b = check.build_replay(prop, prof, tier, var)
        rc, out = check.run_native(b, h, path)
        print(out)
        print(f"native exit: {rc}")
        if rc != 0:
            return 1
    rc, out = check.run_miri(prop, tier, var, prof, h, path, strict="--strict" in sys.argv)
    print(out[-4000:])
    print(f"miri exit: {rc}")
    return 0 if rc == 0 else 1


if __name__ == "__main__":
    sys.exit(main())
