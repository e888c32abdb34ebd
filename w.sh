#!/bin/bash
# developer helper: w.sh PROPERTY SEEDS [worker options]  (one worker)
cd "$(dirname "$0")" || exit 2
. ./env.sh
export PYTHONHASHSEED=0
p="$1"; n="$2"; shift 2
exec "$PY" -m dst.worker --prop "$p" --seeds "$n" --keep_going "$@"
