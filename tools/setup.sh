#!/bin/sh
# nothing to build: check that what the analysis needs is here
set -e
clang --version | head -1
python3 -c 'import sys; assert sys.version_info >= (3, 10)'
python3 -m compileall -q "$(dirname "$0")/../sa" >/dev/null
