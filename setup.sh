#!/bin/bash
# Nothing to install: the checks compile everything they need. This only verifies that the tools are present.
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
/usr/bin/clang++-18 --version | head -1
cvc5 --version | head -1
mkdir -p evidence
