#!/bin/bash
# run.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE] [--jobs N]
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export LANG="${LANG:-C.UTF-8}"
[ -d /opt/vp/mplconfig ] && export MPLCONFIGDIR=/opt/vp/mplconfig
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
lower="$(echo "$id" | tr 'A-Z' 'a-z')"
cd "$here" && exec "$PY" -c "import sys; sys.path.insert(0,'$here'); from vk.core import main; sys.exit(main('checks.$lower'))" "$@"
