#!/usr/bin/env python3
"""Checks that what the monitors need is installed. Each check builds its own
harness from /repo's working tree, so there is nothing else to prepare."""
import os
import shutil
import sys

missing = [t for t in ('g++', 'clang++', 'valgrind', 'python3') if not shutil.which(t)]
missing += [p for p in ('/usr/include/gmpxx.h',
                         '/usr/include/valgrind/memcheck.h', '/repo/include/walnut')
            if not os.path.exists(p)]
if missing:
    print('missing:', ', '.join(missing))
    sys.exit(1)
print('ok')
