#!/bin/bash
# Runs the same seeds in two different worker processes (other neighbours, other
# PYTHONHASHSEED) and compares the executions: determinism.sh [SEEDS] [PROPS...]
cd "$(dirname "$0")" || exit 2
. ./env.sh
n="${1:-8}"; shift
props="${*:-$("$PY" -c 'import json; print(*json.load(open("specs.json")))' )}"
d="$(mktemp -d)"
one() {
  PYTHONHASHSEED=0 "$PY" -m dst.worker --prop "$1" --seeds "$2" --hashes --keep_going --time_cap 800 --out "$3/$1.a" >/dev/null 2>"$3/$1.a.err"
  PYTHONHASHSEED=7 "$PY" -m dst.worker --prop "$1" --seeds "$2" --hashes --keep_going --time_cap 800 --workers 2 --worker 1 --out "$3/$1.b" >/dev/null 2>"$3/$1.b.err"
  "$PY" - "$1" "$3" <<'P'
import json, sys
a, b = (json.load(open(f'{sys.argv[2]}/{sys.argv[1]}.{x}')).get('seed_hashes', {}) for x in 'ab')
both = sorted(set(a) & set(b))
print(sys.argv[1], 'same' if both and all(a[k] == b[k] for k in both) else
      'DIFFERENT', len(both), [k for k in both if a[k] != b[k]])
P
}
export -f one
export PY
printf '%s\n' $props | xargs -P 7 -I{} bash -c 'one "$@"' _ {} "$n" "$d"
find "$d" -delete
