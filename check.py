#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] : decide one property on the current /repo tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(100000)

WHERE = {"S": "props_sig", "A": "props_asm", "I": "props_int", "C": "props_cov", "B": "props_bg", "N": "props_num",
         "T": "props_thr", "M": "props_mem", "F": "props_io", "Y": "props_py"}


def main():
    import core
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    chk = core.Check(pid, tier)
    mod = importlib.import_module(WHERE[pid[0]])
    core.guarded(chk, "whole check", getattr(mod, pid), chk)
    sys.exit(chk.finish())


if __name__ == "__main__":
    main()
