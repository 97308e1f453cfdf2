#!/bin/bash
# Warms the native build cache; every check rebuilds what has changed.
cd "$(dirname "$0")" || exit 1
. ./env.sh
"$PY" -c 'import nativebuild; nativebuild.build_ext()' >/dev/null || true
exit 0
