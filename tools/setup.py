#!/usr/bin/env python3
"""Builds the drivers ahead of the checks (the checks rebuild what has changed)."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
for f in sorted(glob.glob(os.path.join(build.VERIF, "harness", "*.cpp"))):
    build.build(os.path.basename(f)[:-4])
