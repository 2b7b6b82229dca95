#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$D/demo.py"
