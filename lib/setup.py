#!/usr/bin/python3
"""Checks that the toolchain that the checks need is there.

Every check builds what it needs from the working tree, so there is nothing to
prepare."""
import shutil
import sys
for tool in ['clang++-20', 'protoc', 'ar', 'timeout']:
    if shutil.which(tool) is None:
        sys.exit(f'{tool} is missing')
print('ready')
