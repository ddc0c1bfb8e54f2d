#!/bin/sh
# Nothing is compiled: check that the interpreter, the libraries and the code under test load.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -B -c '
import sys; sys.path.insert(0, ".")
from dst import seams
seams.install()
from dst import core, ref
from dst.loader import Incarnation
Incarnation()
import dst.props
print("ready")'
