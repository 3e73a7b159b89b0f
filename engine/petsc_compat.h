// Force-included (-include) when cafes is compiled against PETSc 3.19 (Ubuntu).
// Up to PETSc 3.17 these block macros were written "ierr = Macro(...);" by their
// callers: they began with the value "0;". Since 3.18 they are bare statements,
// so cafes, which uses the old form, does not parse. The old leading "0;" is put
// back; what the macros do is PETSc 3.19's own definition, unchanged. Both
// "ierr = Macro(...);" and "Macro(...);" compile.
#pragma once
#include <petsc.h>

static_assert(PETSC_VERSION_MAJOR == 3 && PETSC_VERSION_MINOR == 19,
              "petsc_compat.h is written for PETSc 3.19");

#undef PetscOptionsBegin
#define PetscOptionsBegin(comm, prefix, mess, sec) \
    0; do { \
      PetscOptionItems  PetscOptionsObjectBase; \
      PetscOptionItems *PetscOptionsObject = &PetscOptionsObjectBase; \
      PetscCall(PetscMemzero(PetscOptionsObject, sizeof(*PetscOptionsObject))); \
      for (PetscOptionsObject->count = (PetscOptionsPublish ? -1 : 1); PetscOptionsObject->count < 2; PetscOptionsObject->count++) { \
        PetscCall(PetscOptionsBegin_Private(PetscOptionsObject, comm, prefix, mess, sec))

#undef PetscOptionsEnd
#define PetscOptionsEnd() \
    0; PetscCall(PetscOptionsEnd_Private(PetscOptionsObject)); \
    } \
    } \
    while (0)

#undef MatPreallocateInitialize
#define MatPreallocateInitialize(...) 0; MatPreallocateBegin(__VA_ARGS__)

#undef MatPreallocateFinalize
#define MatPreallocateFinalize(...) 0; MatPreallocateEnd(__VA_ARGS__)

// Up to PETSc 3.18 this was NULL, which g++ converts to an integer (with a
// warning): cafes passes it for a PetscInt in posttraitement/interpolation.hpp.
#undef PETSC_NULL
#define PETSC_NULL NULL
