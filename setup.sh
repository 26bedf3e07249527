#!/bin/bash
# Nothing is compiled: checks that the interpreter, the library under test and the simulator import, offline.
cd "$(dirname "$(readlink -f "$0")")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:${DST_REPO:-/repo}" PYTHONWARNINGS=ignore OPENMDAO_REPORTS=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c "import numpy, scipy, openmdao, openaerostruct, openconcept, dst.core, dst.catalog; print('ok', len(dst.catalog.discover()), 'classes')"
