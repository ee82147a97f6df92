#!/bin/sh
# Nothing to build: the checks run from the committed files.  Makes sure that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python3 -c "import z3, sys; sys.path.insert(0, '.'); import pyded.proof"
test -x /usr/bin/jython
