#!/bin/bash
# Nothing to compile: make sure the interpreter and the code under test load.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True; from vmon import env; print('welleng', env.we.__version__ if hasattr(env.we, '__version__') else '', 'from', env.we.__file__)"
