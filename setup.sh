#!/bin/bash
# Nothing is compiled: the machinery is Python, run by the pre-installed python3-vt. This checks that the tools are there.
set -e
cd "$(dirname "$0")"
for t in z3-new z3 cvc5 g++; do command -v $t >/dev/null || { echo "missing tool: $t" >&2; exit 1; }; done
/opt/veriftools/pyvenv/bin/python -c 'import z3; print("z3 python", z3.get_version_string())'
mkdir -p evidence
