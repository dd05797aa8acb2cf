#!/usr/bin/env python3
"""check.py <PROPERTY>: builds /repo's working tree with monitors, runs the property's workloads, decides."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from specs import SPECS

def main():
    prop = sys.argv[1]
    spec = SPECS[prop]
    rep = vlib.Report(prop, spec.get("level", "exploration"))
    rep.rule = spec["rule"]; rep.assumptions = spec.get("assumptions", [])
    try:
        if "run" in spec: spec["run"](rep, spec)
        else:
            for variant in spec.get("variants", ["san", "opt"]):
                exe = vlib.build(prop.lower(), ["vh.cpp"] + spec["src"], variant, spec.get("flags", ()), spec.get("libs", ()))
                args = list(spec.get("args", ()))
                rep.run_harness(exe, variant, args, env=spec.get("env"))
                if rep.fails: break   # decided
    except vlib.BuildError as e:
        print("ERROR: build failed\n" + str(e), file=sys.stderr); sys.exit(3)
    sys.exit(rep.finish())
main()
