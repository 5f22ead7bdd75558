#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] [--replay FILE] [--scenario NAME] [--seed N]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
sys.path.insert(0, HERE)

if __name__ == "__main__":
    prop = sys.argv[1]
    try:
        from vmon import core
        module = importlib.import_module("props." + prop.lower())
    except Exception as e:  # the tree does not even import
        import traceback
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop}: cannot load the code under test: {e}")
        sys.exit(2)
    sys.exit(core.main(module, sys.argv[2:]))
