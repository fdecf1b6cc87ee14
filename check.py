#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]     decide one property on /repo's working tree
check.py --replay <file>                          re-run one counterexample on the real code

Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=<id> replay=<path>.
"""
from __future__ import annotations

import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
PLAIN = "/opt/venv/bin/python"


def _python():
    for p in (VT, "/usr/local/bin/python3-vt", "/usr/bin/python3-vt"):
        if os.path.exists(p):
            return p
    return sys.executable


def replay(path):
    """Runs under the plain interpreter of the repository: no z3, no symbolic values."""
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from symx import base, env, registry

    env.install()
    registry.load()
    with open(path) as f:
        d = json.load(f)
    e = registry.find(d["property"], d["harness"])
    verdict, msgs, ctx = base.run_concrete(e.bind(d["config"]), d["model"],
                                           max_steps=e.opts.get("max_steps", 6000))
    print(f"harness {d['harness']} config {d['config']}")
    print(f"inputs {json.dumps(d['model'])}")
    for line in ctx.log[:200]:
        print("  ", line)
    for m in msgs:
        print("FAILED:", m)
    print("verdict:", verdict)
    return 1 if verdict == "fail" else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only harnesses whose name contains this")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("VERIF_CHILD") != "1":
        envv = dict(os.environ, PYTHONHASHSEED="0", VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1")
        py = _python()
        os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], envv)
    sys.path.insert(0, HERE)
    from symx import runner

    return runner.check_property(a.property, a.tier, only=a.only, jobs=a.jobs, verbose=a.v)


if __name__ == "__main__":
    sys.exit(main())
