#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] — decide one property on /repo's current tree (see DESIGN.md)."""
import os, sys
PY = "/opt/pycold-venv/bin/python"
if sys.executable != PY and os.environ.get("VERIF_REEXEC") != "1":
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import importlib, traceback
import vlib

MODULES = {"C": "props_cold", "S": "props_sccd", "T": "props_tile", "U": "props_tile", "O": "props_ob", "R": "props_cls", "V": "props_par", "M": "props_exp", "P": "props_prep"}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    vlib.WORK.mkdir(exist_ok=True)
    if pid == "setup":
        vlib.build_oracle()
        vlib.build_repo()
        return 0
    try:
        return getattr(importlib.import_module(MODULES[pid[0]]), pid)(tier)
    except vlib.CheckError as e:
        print("check failed: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
