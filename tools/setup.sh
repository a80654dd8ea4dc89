#!/bin/bash
# Nothing is built ahead of time: every check compiles /repo's working tree afresh in its own scratch folder.
# This only confirms that the interpreter and the libraries the checks use are there.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, numba, scipy, matplotlib, sys; print('python', sys.version.split()[0], 'numba', numba.__version__)"
