#!/bin/bash
# run.sh CXX [--quick|--thorough] [--family NAME] [--replay FILE]
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
tmp="$(mktemp -d /tmp/verif_env.XXXXXX)"
trap 'rm -rf -- "$tmp"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$tmp/pyc" MPLCONFIGDIR="$tmp/mpl" MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export HOME="$tmp" TMPDIR="$tmp" PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export REPO="${REPO:-/repo}"
export PYTHONPATH="$here:$REPO"
mkdir -p "$tmp/mpl"
pid="$1"; shift
/opt/venv/bin/python -W ignore -c "import sys; from vlib import engine; sys.exit(engine.main('$pid'))" "$@"
exit $?
