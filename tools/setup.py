#!/usr/bin/env python3
"""Nothing to build: confirm that the tools the checks need are installed."""
import shutil
import sys
missing = [t for t in ('clang', 'clang++', 'llvm-link', 'opt') if not shutil.which(t) and not shutil.which(t + '-18')]
if missing:
    print('missing:', missing)
    sys.exit(1)
print('ok')
