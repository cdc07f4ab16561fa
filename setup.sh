#!/bin/bash
# Nothing to build: the checks import /repo/src (numba compiles at run time).
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence" "$here/replays"
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '$here')
from pbt import bootstrap; bootstrap.setup()
import hypothesis, numpy, numba, scipy
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'numba', numba.__version__)
"
