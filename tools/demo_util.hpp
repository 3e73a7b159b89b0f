#pragma once
#include <cafes.hpp>
#include <petsc.h>
#include <cmath>
#include <cstdio>
#include <vector>
inline void zero(const PetscReal *, PetscScalar *u) { *u = 0.; }
inline auto no_slip() { return cafes::make_bc<2>({{{zero, zero}}, {{zero, zero}}, {{zero, zero}}, {{zero, zero}}}); }
inline auto no_force() { return cafes::make_rhs<2>({{zero, zero}}); }
// some fixed number in (-1, 1) for each index
inline double noise(long i) { return std::sin(1. + 12.9898 * i + 0.37 * i * i); }
int demo(); // 0: the property holds
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, 0, 0);
    int bad = demo();
    MPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_MAX, PETSC_COMM_WORLD);
    PetscFinalize();
    return bad;
}
