#!/bin/bash
# nothing to build ahead of time: every check compiles /repo's current tree itself. Verifies the tools it needs.
set -e
test -x /usr/bin/clang++-16
test -x /usr/lib/llvm-16/bin/opt
test -x /usr/lib/llvm-16/bin/llvm-link
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
cvc5 --version | head -1
# the verification-condition generator's own tests: claims that hold are accepted, claims that do not are refused
LVC_REPO=/repo python3-vt "$(dirname "$0")/lvc/selftest/run.py"
