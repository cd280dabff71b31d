#!/usr/bin/env python3
"""Builds everything the checks share, so that each check only pays for what changed."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B
for kind in B.SETUP_KINDS:
    try:
        B.cleanup_bin(B.build(kind))
    except B.BuildFailed as e:
        print("build of %s failed: %s" % (kind, e))
        sys.exit(1)
for kind in B.SETUP_HARNESS:
    try:
        r = B.build_harness(kind)
        if kind == "asan":
            B.cleanup_bin(r[0])
    except B.BuildFailed as e:
        print("build of the %s harness failed: %s" % (kind, e))
        sys.exit(1)
