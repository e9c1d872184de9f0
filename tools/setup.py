#!/usr/bin/env python3
"""Verifies that the tools the checks need are there; everything else is built by each check from /repo."""
import shutil
import sys

missing = [t for t in ("g++", "gcc", "valgrind", "mpicxx") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
