#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib

MODULES = {
    "C01": "c_build", "C02": "c_build", "C03": "c_build", "C04": "c_build", "C05": "c_build", "C06": "c_build", "C13": "c_build", "C17": "c_build",
    "C07": "c_io", "C08": "c_io",
    "C12": "c_fmt", "C14": "c_wf", "C15": "c_wf", "C16": "c_wf", "C19": "c_wf",
    "C09": "c_fst", "C10": "c_fst", "C11": "c_fst", "C18": "c_fst",
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = lib.Check(pid, tier, seed)
    try:
        lib.build_harness()
        getattr(importlib.import_module(MODULES[pid]), pid.lower())(c)
    except lib.ToolError as e:
        if c.violations:
            lib.log("tool error after a violation:", e)
        else:
            lib.log("TOOL ERROR:", e)
            sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    sys.exit(c.finish())


main()
