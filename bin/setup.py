#!/usr/bin/env python3
"""Checks that the framework can be built; the checks build what they need themselves."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
tmp = tempfile.mkdtemp(prefix='katie-verif-')
try:
    check.build(tmp, {'.', 'comp', 'liar'})
    print('ok')
finally:
    shutil.rmtree(tmp, ignore_errors=True)
