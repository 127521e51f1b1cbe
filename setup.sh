#!/bin/bash
# nothing to build: pure Python against /repo's working tree; verify the interpreter and its packages
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -c "import numpy, scipy, h5py, matplotlib; print('ok')"
