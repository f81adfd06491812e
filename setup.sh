#!/bin/bash
# nothing to build: the verifier is Python; make sure the pieces are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
python3-vt -c "import z3, sys; sys.path.insert(0,'.'); import pyvc.driver; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import numpy, numba, riptide_cpp; print('riptide_cpp', riptide_cpp.__version__ if hasattr(riptide_cpp,'__version__') else 'ok')"
