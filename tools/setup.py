#!/usr/bin/env python3
"""Offline setup: checks that the tools are there and that the simulator builds."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('clang++', 'cmake', 'ninja', 'ar', 'addr2line'):
    if not shutil.which(t): sys.exit('missing tool: ' + t)
sys.path.insert(0, os.path.join(V, 'sim')); sys.path.insert(0, os.path.join(V, 'harness'))
import build
from checks import CHECKS
i = sorted(CHECKS)[0]; c = CHECKS[i]
print(build.build(i, c['harness'], c.get('defs', ()), c.get('narrow', False)))
