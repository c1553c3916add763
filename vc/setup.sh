#!/bin/bash
# nothing to build ahead of time: every check compiles /repo's current sources itself.  Verify the tools are present.
set -e
cd "$(dirname "$0")/.."
for t in clang++ opt g++ c++filt cvc5; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p .work evidence
