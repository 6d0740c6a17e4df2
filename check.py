#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property (see DESIGN.md)."""
import glob, importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib

pid = sys.argv[1]
fn = None
for f in sorted(glob.glob(os.path.join(vlib.VERIF, 'lib', 'a_*.py'))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    fn = getattr(m, pid, fn)
sys.exit(vlib.main(pid, fn))
