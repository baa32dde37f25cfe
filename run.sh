#!/bin/bash
# usage: run.sh <property id> [--replay FILE] [--tier quick|thorough] [--sub NAME] [--examples N]
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH="$here:/repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TQDM_DISABLE=1
export HF_HUB_OFFLINE=1 HF_DATASETS_OFFLINE=1 TRANSFORMERS_OFFLINE=1 TOKENIZERS_PARALLELISM=false
export POLARS_MAX_THREADS=2 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -m vf.main "$@"
