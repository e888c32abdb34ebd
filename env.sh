# Environment of every check: the interpreter and settings of /opt/vp plus the
# simulator (/verif) and the stand-in vit_jax package (/verif/stubs).
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/support/env.sh
export PYTHONPATH="/repo:$VERIF_DIR:$VERIF_DIR/stubs:/opt/vp/support"
export XLA_FLAGS="--xla_force_host_platform_device_count=8 --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export TF_NUM_INTEROP_THREADS=1 TF_NUM_INTRAOP_THREADS=1 OMP_NUM_THREADS=1
export PY=/opt/venv/bin/python
