#!/usr/bin/env python3
"""Builds the driver once and parses the specification (checks rebuild what they need)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
try:
    check.build_harness(True)
except check.NoAnswer as e:
    print(e)
    sys.exit(1)
print("ok")
