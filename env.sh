# environment of every run: sourced by run.sh and the tools
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
bash "$here/setup.sh" || exit 2
export LD_PRELOAD="$here/build/simio.so" PYTHONHASHSEED=${PYTHONHASHSEED:-0} MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 VTK_SMP_BACKEND_IN_USE=Sequential
export HDF5_USE_FILE_LOCKING=TRUE TZ=UTC LC_ALL=C.UTF-8 PYTHONPATH="$here" PYTHONUNBUFFERED=1
export MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp}"
PY=/opt/venv/bin/python
