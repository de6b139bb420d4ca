#!/bin/bash
# nothing to build: the verifier is Python (python3-vt) and reads /repo's source on every run
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -x /opt/pypyenv/bin/python
/opt/veriftools/pyvenv/bin/python -B -c 'import z3, cvc5, sympy'
