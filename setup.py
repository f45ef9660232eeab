#!/usr/bin/env python3
"""Builds the library variants and all harnesses ahead of the checks."""
import sys
import check
from checks_table import CHECKS
from concurrent.futures import ThreadPoolExecutor
import os
os.makedirs(check.B, exist_ok=True)
vs = sorted({v for c in CHECKS.values() for v in (c.get("variants_quick") or c.get("variants", ["dbg"]))})
for v in vs:
    check.build_lib(v)
for b in sorted({tuple(x) for c in CHECKS.values() for x in c.get("prebuild", [])}):
    check.build_lib(b[0], b[1])
print("built", vs)
