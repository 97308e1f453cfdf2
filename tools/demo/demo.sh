#!/bin/bash
# Exit 0: the property holds.
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
