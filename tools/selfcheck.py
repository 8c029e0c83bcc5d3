#!/usr/bin/env python3
"""setup: confirm that the tools the checks need are present, and that the size-generic engine proves nothing false"""
import os
import shutil
import subprocess
import sys
for t in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/opt', '/usr/lib/llvm-18/bin/llvm-cxxfilt'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
import z3  # noqa
print('tools present')
sys.exit(subprocess.call([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'selftest_sizes.py')]))
