#!/bin/bash
# Nothing to compile: check that the interpreter and the library import.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
[ -d /opt/vp/mplconfig ] && export MPLCONFIGDIR=/opt/vp/mplconfig
mkdir -p "$here/evidence" "$here/replays"
cd "$here" && /opt/venv/bin/python -c "import sys; sys.path.insert(0,'/repo'); import legume, numpy, scipy; print('ok', legume.__file__)"
