#!/usr/bin/env python3
"""Nothing to prepare: every check rebuilds what it needs. Checks that the tools are there."""
import shutil, sys
missing = [t for t in ('g++', 'clang++', 'python3') if not shutil.which(t)]
print('missing: ' + ', '.join(missing) if missing else 'tools present')
sys.exit(1 if missing else 0)
