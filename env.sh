export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 QT_QPA_PLATFORM=offscreen MPLBACKEND=agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
