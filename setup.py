#!/usr/bin/env python3
"""setup_cmd: verifies the tool chain and pre-builds the instrumented library (every check can also do it itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    for v in ("san", "opt"):
        print(vlib.build("setup", ["vh.cpp", "selftest.cpp"], v))
except vlib.BuildError as e:
    print(e); sys.exit(1)
