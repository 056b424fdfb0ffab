#!/usr/bin/env python3
"""Checks that the tools the checks need are present and compiles one variant."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
for t in ("cmake", "ninja", "g++"):
    if not shutil.which(t):
        sys.exit("missing " + t)
import checks
first = sorted(checks.CHECKS)[0]
sys.exit(subprocess.call([sys.executable, os.path.join(HERE, "run.py"), first, "--build-only"]))
