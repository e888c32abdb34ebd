#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Sanity-checks the
# interpreter, so that a broken sandbox is noticed before the first check.
cd "$(dirname "$0")" || exit 1
. ./env.sh
"$PY" -c 'import jax, flax, tensorflow, orbax.checkpoint, clu, numpy' >/dev/null 2>&1 || {
  echo "the python environment of /opt/venv is broken" >&2; exit 1; }
mkdir -p evidence replays
exit 0
