#!/usr/bin/env python3
"""Compiles every harness once, as a test that the toolchain is complete; fills .cache when it is kept."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
bad = 0
for run in sorted({tuple(r) for p in check.PROPS.values() for r in p["runs"]}):
    work = tempfile.mkdtemp(prefix="vf-")
    exe, err = check.build(run[0], check.FLAGS[run[1]], run[2], work)
    shutil.rmtree(work, ignore_errors=True)
    if exe is None:
        print("%s: %s" % (run[0], err)); bad = 1
    else:
        print("built", *run)
sys.exit(bad)
