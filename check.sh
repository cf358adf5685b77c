#!/bin/bash
# ./check.sh C01 [options of pyvc.run]: one property against /repo's current tree
cd "$(dirname "$(readlink -f "$0")")" || exit 2
HERE=$PWD
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=${LANG:-C.UTF-8} PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
REPO=${VERIF_REPO:-/repo}
if [ -z "$VERIF_NOBUILD" ]; then
    # the Cython extensions (git-ignored) must match the sources; build_ext does nothing when they do
    ( . "$HERE/build_ext.sh"; build_ext "$REPO" ) || { echo "the extensions of $REPO do not build"; exit 2; }
fi
cd "$HERE" || exit 2
exec /opt/venv/bin/python -W ignore -m pyvc.run "$@"
