#!/bin/bash
# Nothing to build: checks that everything the checks need is there.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore - <<'P' || exit 1
import sys
sys.path.insert(0, '.')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, autograd, matplotlib, hypothesis
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'hypothesis', hypothesis.__version__)
P
