#!/bin/bash
# nothing to build ahead of time: every check compiles its harness from /repo's current tree. Check the tools exist.
set -e
command -v clang++-18 g++ z3 z3-new cvc5 c++filt >/dev/null
/opt/veriftools/pyvenv/bin/python3 -c 'import z3'
mkdir -p "$(dirname "$0")/evidence"
echo setup ok
