#!/bin/bash
# run a python snippet in worker env
export CC=/verif/vp/cc.sh PYTHONPATH=/verif:/tmp/hyp MPLBACKEND=Agg OMP_NUM_THREADS=1 PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$@"
