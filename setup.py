#!/usr/bin/env python3
"""Compiles every harness package once, so that the build cache is warm."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
e = check.env()
for prop in ("C03", "C06"):
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        check.build(prop, tmp, e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
print("harness builds")
