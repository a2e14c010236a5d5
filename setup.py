#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs from /repo itself."""
import shutil, subprocess, sys
for t in (['cargo', 'kani', '--version'], ['verus', '--version'], ['cargo', '+stable', '--version']):
    if not shutil.which(t[0]) or subprocess.run(t, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        print('missing tool:', ' '.join(t))
        sys.exit(1)
print('tools present')
