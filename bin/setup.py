#!/usr/bin/env python3
"""Verifies that what the checks need is present; each check compiles its own
harness from /repo's working tree when it runs."""
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib as L
import props
for t in ('g++', 'clang++'):
    if not shutil.which(t):
        sys.exit(t + ' is missing')
for d in ('evidence', 'build', 'replays'):
    os.makedirs(os.path.join(L.VERIF, d), exist_ok=True)
for e in props.EXES.values():
    if 'src' in e and not os.path.exists(os.path.join(L.VERIF, e['src'])):
        sys.exit(e['src'] + ' is missing')
assert os.path.isdir(os.path.join(L.REPO, 'include', 'poly_ops'))
print('ready')
