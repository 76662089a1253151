#!/usr/bin/env python3
"""Checks that the tools the monitors need are present. The checks themselves build from /repo's current tree."""
import os, shutil, sys
missing = [t for t in ('clang++', 'g++') if not shutil.which(t)]
if missing: print('missing tools:', missing); sys.exit(1)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('build', 'out', 'evidence'): os.makedirs(os.path.join(V, d), exist_ok=True)
print('setup ok')
