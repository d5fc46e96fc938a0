#!/bin/sh
# Nothing to build: the framework is interpreted.  Fail early if a required tool is missing.
set -e
python3-vt -c 'import z3, numpy' 
test -x /opt/venv/bin/python
