#!/bin/bash
# nothing to install: the checks need clang++-18, opt and python3, all preinstalled
set -e
test -x /usr/bin/clang++-18 -o -x /usr/lib/llvm-18/bin/clang++
python3 -c 'import sys; assert sys.version_info >= (3, 8)'
