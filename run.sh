#!/bin/bash
# usage: run.sh <property-id> [quick|thorough] [--replay FILE]
# Runs one property check against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?usage: run.sh PROPERTY [quick|thorough] [--replay FILE]}
shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin HOME=/root LANG=C.UTF-8
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export HF_HUB_OFFLINE=1 HF_DATASETS_OFFLINE=1 TRANSFORMERS_OFFLINE=1 PIP_NO_INDEX=1
export CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
work=$(mktemp -d "${TMPDIR:-/tmp}/vf-$prop.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
# every default cache location of the code under test lies in the scratch folder
export VF_WORK="$work" XDG_CACHE_HOME="$work/xdg" MPLCONFIGDIR="$work/mpl"
export MODSSC_CACHE_ROOT="$work/modssc" MODSSC_CACHE_DIR="$work/modssc" TORCH_HOME="$work/torch" HF_HOME="$work/hf"
export TMPDIR="$work/tmp"; mkdir -p "$TMPDIR"
# never reuse bytecode of the code under test (see vf/site)

export PYTHONPATH="$here/vf/site:$here:/repo/src:/repo"
cd "$work" || exit 3
/opt/venv/bin/python -X faulthandler -m vf.main "$prop" "$@"
rc=$?
exit $rc
