#!/bin/bash
# once per sandbox: the Cython extensions, and the machinery's self-test
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
( . ./build_ext.sh; build_ext "${VERIF_REPO:-/repo}" ) || exit 2
exec /opt/venv/bin/python -W ignore -m pyvc.selftest
