#!/usr/bin/env python3
"""setup: checks that the tools are present and the spec files parse.  Builds nothing."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
n = 0
for d in sorted(os.listdir(driver.SPECS)):
    if os.path.isdir(os.path.join(driver.SPECS, d)):
        n += len(driver.load_units(d))
print('ok: %d units' % n)
