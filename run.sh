#!/bin/bash
# Usage: run.sh <PROPERTY> [quick|thorough]      run one check
#        run.sh <PROPERTY> --replay FILE         replay a saved case, without the generator library
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_HOME="$HERE" REPO="${REPO:-/repo}"
export PYTHONHASHSEED=0 TZ=UTC MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export VERIF_SEED="${VERIF_SEED:-1}"
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/verif-run.XXXXXX")" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
export VERIF_SCRATCH="$SCRATCH" TMPDIR="$SCRATCH"
export MPLCONFIGDIR="$SCRATCH/mpl"; mkdir -p "$MPLCONFIGDIR"
export PYTHONPATH="$REPO:$HERE:$HERE/vendor"
PY=/opt/venv/bin/python
cd "$HERE" || exit 2
"$PY" -W ignore -m harness.main "$@"
exit $?
