#!/bin/bash
# Nothing to install: every check builds its own harness from /repo's working tree.
# This only verifies that the tools a check needs are there.
set -e
command -v mpicxx.openmpi g++ python3 >/dev/null
test -e /usr/include/hdf5/openmpi/hdf5.h
python3 -c 'import sys; sys.path.insert(0, "."); import checks, run'
