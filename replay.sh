#!/bin/bash
# usage: replay.sh REPLAY.json [--trace]   (exit 1 if the violation reproduces)
f="$(realpath "$1")"; shift
cd "$(dirname "$0")" || exit 2
. ./env.sh
export PYTHONHASHSEED=0
prop="$("$PY" -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f")"
exec "$PY" -m dst.worker --prop "$prop" --replay "$f" "$@"
