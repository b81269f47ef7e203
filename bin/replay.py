#!/usr/bin/env python3
"""replay.py PROPERTY FILE : run one saved case against /repo's working tree"""
import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib as L
from props import PROPS
case = L.Case.parse(open(sys.argv[2]).read())
if case.prop == 'compile':
    for t in PROPS[sys.argv[1]]['targets']:
        try:
            L.build_exe(t['exe'], tempfile.mkdtemp(prefix='pbt-replay-'))
        except L.BuildFailure as e:
            print(e)
            sys.exit(1)
    sys.exit(0)
for t in PROPS[sys.argv[1]]['targets']:
    if t['prop'] == case.prop:
        work = tempfile.mkdtemp(prefix='pbt-replay-')
        rc, err = L.replay(L.build_exe(t['exe'], work), sys.argv[2])
        m = L.classify(rc, err)
        print(m or err.strip())
        sys.exit(1 if m else 0)
sys.exit('no target %s in %s' % (case.prop, sys.argv[1]))
