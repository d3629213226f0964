#!/bin/bash
# Usage: run.sh PROPERTY [--replay FILE | --tier T | --runs N | --seed N | --workers N]
# Runs one property check against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXXXX")" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
trap 'exit 2' INT TERM HUP
export VSIM_SCRATCH="$scratch"
export VSIM_REPO="${VSIM_REPO:-/repo}"
export PYTHONPATH="$VSIM_REPO:$here"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
export LC_ALL=C.UTF-8 LANG=C.UTF-8
unset LD_PRELOAD PYTHONSTARTUP PYTHONWARNINGS
# Pure Python linker: no C compilation, no dependence on a compilation cache.
export THEANO_FLAGS="device=cpu,floatX=float64,mode=FAST_COMPILE,cxx=,compiledir=$scratch/theano,blas.ldflags="
export HOME="$scratch/home"; mkdir -p "$HOME" "$scratch/theano"
cd "$scratch" || exit 2
/opt/venv/bin/python -W ignore "$@"
exit $?
