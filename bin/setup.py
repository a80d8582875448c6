#!/usr/bin/env python3
"""Warms the build cache: builds the harness of every property once against /repo. Checks work without it, only slower."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

scratch = tempfile.mkdtemp(prefix="vsetup-")
try:
    for prop in sorted(os.listdir(os.path.join(check.HARNESS, "p"))):
        check.build(prop.upper(), scratch, check.go_env())
    print("built")
finally:
    shutil.rmtree(scratch, ignore_errors=True)
