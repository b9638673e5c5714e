#!/bin/bash
# Start the simulator: fresh scratch directory, fresh JIT and bytecode caches
# (so /repo's current working tree is what runs), clock and I/O shim preloaded.
HERE=$(cd "$(dirname "$0")" && pwd)
SCRATCH=$(mktemp -d /tmp/msdst.XXXXXX) || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
trap 'exit 2' INT TERM
gcc -O2 -shared -fPIC -o "$SCRATCH/shim.so" "$HERE/shim.c" -ldl || exit 2
export DST_SCRATCH="$SCRATCH" DST_SHIM="$SCRATCH/shim.so"
export MULTISIM_DST=1 PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" NUMBA_CACHE_DIR="${DST_NUMBA_CACHE:-$SCRATCH/numba}"
export MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl" TZ=UTC LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export BLOSC_NTHREADS=1 NUMEXPR_MAX_THREADS=1
mkdir -p "$SCRATCH/mpl" "$SCRATCH/home"
cd "$SCRATCH/home" || exit 2
LD_PRELOAD="$DST_SHIM" /opt/venv/bin/python -W ignore "$HERE/main.py" "$@"
exit $?
