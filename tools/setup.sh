#!/bin/sh
# nothing to build: check that the interpreter and the solvers are there
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -B -c "import sys; sys.path[:0]=['.','/repo']; import symx.core, pysnobal"
printf '(check-sat)\n' | z3-new -in
printf '(set-logic QF_NRA)\n(check-sat)\n' | cvc5 --lang smt2
