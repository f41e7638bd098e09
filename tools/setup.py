#!/usr/bin/env python3
"""The checks need nothing built in advance; this only verifies that their tools are there."""
import shutil
import sys
missing = [t for t in ('clang++', 'opt', 'llvm-cxxfilt') if not shutil.which(t)]
if missing:
    print('missing tools: %s' % ' '.join(missing))
    sys.exit(1)
print('ok')
