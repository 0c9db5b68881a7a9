#!/bin/sh
# Nothing to install: the verifier is Python run from source.  Check that the tools it needs are there.
set -e
command -v python3-vt clang++-18 >/dev/null
ls /usr/lib/llvm-18/bin/opt >/dev/null
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
