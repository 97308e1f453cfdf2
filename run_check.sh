#!/bin/bash
# run_check.sh <property id> [args]: runs one check against /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1; shift
exec "$PY" "checks/$id.py" "$@"
