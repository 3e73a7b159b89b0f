#!/bin/bash
# Run with cwd = the repository, after its build. Exit 0: the property holds on this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
export OMPI_CC=gcc OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_ess_singleton_isolated=1
export OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_orte_tmpdir_base=/tmp
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
petsc=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real
mpicxx -std=gnu++14 -O1 -w -include "$here/petsc_compat.h" \
    -I"$repo/cafes" -I"$repo/external_packages/qhull" -I$petsc/include -I/usr/include/hdf5/openmpi \
    -o "$scratch/demo" "$here/demo.cpp" -L$petsc/lib -Wl,-rpath,$petsc/lib -lpetsc_real \
    -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 || exit 2
cd "$scratch" || exit 2
run() { # number of processes, options
    np=$1; shift
    if [ "$np" = 1 ]; then timeout 120 ./demo "$@"; else timeout 120 mpirun -np "$np" ./demo "$@"; fi
}
