#!/usr/bin/env python3
"""Nothing is prebuilt (every check rebuilds from /repo); only verifies that the toolchain is there."""
import shutil, sys
missing = [t for t in ('java', 'g++') if not shutil.which(t)]
print('missing: %s' % missing if missing else 'toolchain present')
sys.exit(1 if missing else 0)
