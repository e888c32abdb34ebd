#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [options of dst.main]
cd "$(dirname "$0")" || exit 2
. ./env.sh
export PYTHONHASHSEED=0
exec "$PY" -m dst.main "$@"
