#!/bin/bash
# bash check.sh <property> : decides one property of /repo's current tree (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec python3-vt -m agv.run "$@"
