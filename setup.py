#!/usr/bin/env python3
"""Build everything the checks need, so that each check only rebuilds what changed in /repo."""
import concurrent.futures as cf, sys
import vbuild
from check import build_bin
from registry import CHECKS

seen = set()
for pid, c in CHECKS.items():
    for b in c["bins"]:
        if b["name"] in seen:
            continue
        seen.add(b["name"])
        print(pid, build_bin(b), flush=True)
