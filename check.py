#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py C01 [quick|thorough]."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from tv.common import Check, ToolError
from tv.registry import REGISTRY


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    module, func, level = REGISTRY[prop][:3]
    check = Check(prop, level, tier)
    try:
        getattr(importlib.import_module("tv." + module), func)(check)
    except ToolError as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return check.finish()


sys.exit(main())
