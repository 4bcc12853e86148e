#!/bin/bash
# run.sh Cxx quick|thorough : one check, from the repository's working tree
# run.sh setup              : is everything the monitors need here?
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
if [ "$1" = setup ]; then
  mkdir -p evidence
  exec $PY -B -c "import numpy, scipy, pandas, matplotlib; print('monitors ready, numpy', numpy.__version__)"
fi
exec $PY -B check.py --property "$1" --tier "${2:-quick}"
