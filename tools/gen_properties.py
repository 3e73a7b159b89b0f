#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one entry per property, written out one per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=hook)))

SMOKE = ("The existing tests are smoke programs: each runs one hard-coded square problem and only fails when a "
         "linear solver does not converge; ")

prop("P01", "Matrix-free operators equal the finite-element bilinear forms",
     "Applying the matrix-free Laplacian, strain-rate, mass, divergence or pressure-gradient operator to any discrete field gives, at every degree of freedom, the exact value of the corresponding integral against the matching Q1 (velocity) or Q1-on-doubled-mesh (pressure) basis function. "
     "This holds in two and three dimensions, for every grid size, mesh spacing and combination of periodic directions, and for any number of processes.",
     ["inputs", "configurations"],
     "all nodal fields, all grid shapes, anisotropic spacings, periodicity flags, 2D and 3D, 1..6 processes",
     SMOKE + "a wrong coefficient, a swapped direction or a mishandled periodic wrap still gives a convergent solve.",
     ["cafes/problem/matMult.hpp", "cafes/fem/operator.hpp", "cafes/fem/matElem.hpp", "cafes/fem/quadrature.hpp"],
     [("element loop over a process's cells and gather/scatter of local vectors", "cafes/fem/operator.hpp laplacian_mult, mass_mult, strain_tensor_mult, B_and_BT_mult"),
      ("element matrices", "cafes/fem/matElem.hpp"), ("reference-element integrals and index maps", "cafes/fem/quadrature.hpp")],
     ["result vector of each operator application"])

prop("P02", "Assembled matrices act exactly like the matrix-free operators (2D)",
     "For every two-dimensional problem, the assembled Stokes matrix and preconditioning matrix, including their Dirichlet rows, multiply any vector to the same result as the matrix-free operators do. "
     "The choice between assembling and matrix-free is a performance option only, whatever the grid, spacing, periodicity, boundary conditions and process count.",
     ["inputs", "configurations"],
     "all nodal fields x grids x spacings x periodicity x which sides carry Dirichlet data x Laplacian or strain form x 1..6 processes",
     SMOKE + "the two paths are never compared, and natural or periodic boundaries are never assembled.",
     ["cafes/fem/assembling.hpp", "cafes/fem/matElem.hpp", "cafes/fem/bc.hpp", "cafes/problem/stokes.hpp"],
     [("assembled element matrices", "cafes/fem/matElem.hpp getMatElem*A"), ("insertion into the global matrix", "cafes/fem/assembling.hpp"),
      ("Dirichlet rows of an assembled matrix", "cafes/fem/bc.hpp SetDirichletOnMat")],
     ["MatMult of the assembled matrix vs of the shell matrix"])

prop("P03", "Exposed operator diagonals are the true diagonals",
     "The diagonal that the matrix-free Laplacian and mass operators report (the one that Jacobi preconditioning and multigrid smoothing use) equals, at every entry that no boundary condition fixes, what applying the operator to the unit vector of that entry gives there. "
     "This holds for every grid, spacing and periodicity, in two and three dimensions, and in parallel.",
     ["inputs", "configurations"],
     "all grids, spacings, periodicities, dimensions, process counts",
     SMOKE + "a wrong diagonal only slows the iterative solver down.",
     ["cafes/fem/operator.hpp", "cafes/fem/matrixFree.hpp", "cafes/problem/matMult.hpp"],
     [("diagonal accumulation per element", "cafes/fem/operator.hpp diag_laplacian_mult, diag_mass_mult, diag_strain"), ("MatGetDiagonal callback", "cafes/fem/matrixFree.hpp")],
     ["MatGetDiagonal on the shell matrices"])

prop("P04", "Dirichlet data is imposed exactly on the boundary and nowhere else",
     "Imposing Dirichlet conditions writes, at each boundary node of each side that has data, the prescribed function evaluated at that node's physical coordinates, and changes no other entry; the homogeneous variant writes zero at the same places. "
     "The constrained operators are the identity on those entries, in two and three dimensions, for any subset of sides and components, any periodic direction, and any number of processes.",
     ["inputs", "configurations"],
     "all grids, spacings, boundary functions, subsets of sides and components, periodicity, dimensions, process counts",
     SMOKE + "tests use one configuration of constant or symmetric data on all four sides.",
     ["cafes/fem/bc.hpp", "cafes/problem/context.hpp", "cafes/fem/matrixFree.hpp"],
     [("side enumeration and nodal coordinates", "cafes/fem/bc.hpp set_dirichlet_*"), ("identity rows in the shell operators", "cafes/fem/matrixFree.hpp")],
     ["vector contents after imposition", "operator applied to a field"])

prop("P05", "Body forces load the right-hand side with the consistent mass integral",
     "The load vector built from a body-force function adds to the previous content, at each velocity degree of freedom, the consistent mass matrix applied to the function's nodal samples at physical coordinates, component by component. "
     "This holds for every grid, spacing, periodicity, dimension and number of processes.",
     ["inputs", "configurations"],
     "all force functions, grids, spacings, periodicity, previous vector contents, process counts",
     SMOKE + "body forces are zero or analytic on one unit square with no comparison.",
     ["cafes/fem/rhs.hpp", "cafes/fem/matElem.hpp"],
     [("nodal sampling and element mass accumulation", "cafes/fem/rhs.hpp set_rhs")],
     ["right-hand side vector"])

prop("P06", "Results do not depend on how the domain is split between processes",
     "For the same options, building and solving the fluid problem gives the same right-hand side, operators and solution (to solver accuracy) on any number of processes as on one. "
     "This includes process counts that leave unequal or very small sub-domains and periodic directions that wrap across processes, in two and three dimensions.",
     ["configurations", "schedules"],
     "process counts 1..6 with every decomposition PETSc picks for the grid, all grids and periodicities",
     "Only two of the 23 stable tests run on more than one process and neither compares its result with a serial one.",
     ["cafes/fem/mesh.hpp", "cafes/petsc/vec.hpp", "cafes/fem/operator.hpp", "cafes/fem/bc.hpp", "cafes/problem/stokes.hpp"],
     [("ghost exchange around each operator", "cafes/petsc/vec.hpp"), ("sub-domain bounds", "cafes/fem/mesh.hpp get_DM_bounds")],
     ["solution vector in natural ordering"])

prop("P07", "Velocity and pressure meshes nest and are split consistently",
     "For any requested pressure grid the velocity grid has exactly twice as many cells in each direction, the same periodicity and sub-domains that coincide geometrically with the pressure sub-domains on each process. "
     "The cells enumerated by the processes cover every element of the domain exactly once, wrapping in periodic directions.",
     ["configurations"],
     "all grid sizes in 2D and 3D, all periodicity combinations, 1..6 processes",
     SMOKE + "they use one square grid.",
     ["cafes/fem/mesh.hpp"],
     [("mesh creation and ownership ranges", "cafes/fem/mesh.hpp createMesh, set_lxu, createLaplacianMesh"), ("cell ranges", "cafes/fem/mesh.hpp get_DM_bounds")],
     ["ownership ranges, sizes and cell ranges reported to callers"])

prop("P08", "Discrete operators keep the structure of the Stokes equations",
     "The velocity operators are symmetric and positive semi-definite with exactly the expected kernel (constants for the Laplacian; translations and rotations for the strain form), and the divergence and pressure-gradient operators are negative transposes of one another. "
     "Matrix-free and assembled versions both satisfy this on every grid, spacing, periodicity and process count.",
     ["inputs", "configurations"],
     "all pairs of nodal fields, grids, spacings, periodicity, dimensions, process counts",
     SMOKE + "structure is never checked.",
     ["cafes/fem/operator.hpp", "cafes/fem/assembling.hpp", "cafes/fem/matElem.hpp"],
     [("element matrices", "cafes/fem/matElem.hpp"), ("element loops", "cafes/fem/operator.hpp")],
     ["bilinear values y.A x computed from operator applications"])

prop("P09", "Element interpolation weights reproduce (multi)linear fields",
     "For any point of any cell, the interpolation weights given by the element helpers are a partition of unity that reproduces every multilinear function, their gradient counterparts are the derivatives of those weights (the integrated variant: times the cell's measure), and the node lists they pair with enumerate the cell's corners (or the four/eight sub-cells' nodes) in the matching order. "
     "This holds in two and three dimensions, also when cells are reached across a periodic boundary.",
     ["inputs"],
     "all points, cells, spacings, dimensions",
     SMOKE + "element helpers are never tested in isolation.",
     ["cafes/fem/quadrature.hpp"],
     [("shape functions and index lists", "cafes/fem/quadrature.hpp P1_integration, P1_integration_grad, get_element, get_element_4Q1, get_indices")],
     ["returned weights and node lists"])

prop("P10", "Distributed field accessors read and write the addressed node",
     "Accessing a distributed field by local or global grid coordinates touches exactly that node's components; ghost values read after a refresh equal the owner's values (across periodic wraps too), pushing local contributions back sums each of them exactly once, and filling sets every component. "
     "This holds for every sequence of reads, writes, refreshes and push-backs on any process count.",
     ["histories", "configurations"],
     "all operation sequences on fields over all grids, dimensions, dof counts and process counts",
     "No test exercises the accessor on its own.",
     ["cafes/petsc/vec.hpp"],
     [("index computation and ghost exchange", "cafes/petsc/vec.hpp")],
     ["vector contents in natural ordering"])

prop("P11", "A Stokes solve returns the discrete solution of the posed problem",
     "After set-up and solve, the returned velocity and pressure satisfy the discrete momentum equations, the discrete incompressibility constraint and the Dirichlet data, to the requested tolerance; a discrete solution used to manufacture the data is recovered, the pressure up to a constant when the boundary leaves it free. "
     "Sides and components of sides without Dirichlet data are natural boundaries of the posed problem. "
     "Direct assembled, Krylov (with no, Jacobi or exact block preconditioner) and multigrid options all do this, for every grid shape, spacing, periodicity and process count, and one problem object does it for each right-hand side of a sequence, whatever it solved before. The same holds in three dimensions for the matrix-free options.",
     ["inputs", "configurations", "histories"],
     "boundary data on all or some of the sides and components, body forces, grids, aspect ratios, solver options, process counts",
     SMOKE + "solutions are never compared with anything by the test runner.",
     ["cafes/problem/stokes.hpp", "cafes/fem/matrixFree.hpp", "cafes/problem/options.hpp"],
     [("right-hand side, solver and preconditioner set-up", "cafes/problem/stokes.hpp")],
     ["solution vector"])

prop("P12", "Multigrid-preconditioned solves terminate for any grid shape",
     "With the multigrid option every admissible grid (square or not, even or odd aspect ratio, periodic or not, one or several processes) is set up and solved in finite time, and the answer agrees with the plain Krylov or direct answer to the requested tolerance. "
     "Set-up never fails or loops for a grid whose cell counts the mesh hierarchy divides. This holds in two and three dimensions.",
     ["configurations"],
     "grid shapes whose cell counts admit a mesh hierarchy, levels, periodicity, process counts",
     SMOKE + "multigrid is only run on two square power-of-two grids.",
     ["cafes/problem/stokes.hpp", "cafes/fem/matrixFree.hpp"],
     [("level matrices and transfer operators", "cafes/fem/matrixFree.hpp createLevelMatrices; cafes/problem/stokes.hpp setPMMSolver")],
     ["termination, convergence reason, solution vector"])

prop("P13", "Polynomial flows are solved exactly and smooth flows converge",
     "A linear divergence-free velocity with constant pressure gradient-free data is reproduced to solver accuracy on any grid and domain size; smooth manufactured flows with body force converge towards the exact solution under refinement at the expected rate. "
     "Rectangular domains with different spacings in each direction behave like square ones, and three-dimensional boxes likewise for linear flows.",
     ["inputs", "configurations"],
     "random linear flows, families of trigonometric and polynomial flows, domain sizes, grids",
     "stokes_analytic_2d prints an error for one solution on one grid but nothing checks it.",
     ["cafes/problem/stokes.hpp", "cafes/fem/rhs.hpp", "cafes/fem/bc.hpp"],
     [("discretisation", "cafes/fem/*.hpp"), ("problem set-up", "cafes/problem/stokes.hpp")],
     ["error against the exact solution"])

prop("P14", "Solutions respect linearity, mirror, transposition and scaling symmetries",
     "Superposing or scaling boundary data and body forces superposes or scales the solution; mirroring or transposing the whole problem (domain, grid, data) mirrors or transposes the solution; and rescaling all lengths rescales pressure as Stokes flow requires. "
     "This holds for every admissible problem and both strain and Laplacian forms, in two and three dimensions.",
     ["inputs", "configurations"],
     "random data, grids, domain sizes, transformations",
     SMOKE + "no two runs are ever related.",
     ["cafes/problem/stokes.hpp", "cafes/fem/bc.hpp", "cafes/fem/matElem.hpp"],
     [("direction-dependent index handling", "cafes/fem/bc.hpp, cafes/fem/assembling.hpp, cafes/fem/matElem.hpp")],
     ["solution vectors of related problems"])

prop("P15", "Refined output interpolates the coarse solution linearly",
     "Interpolating a solution onto a refined mesh returns, at each fine node, the multilinear interpolation of the coarse velocity or pressure at that node's position, and leaves the coarse solution untouched. "
     "This holds for any refinement factors, equal or not in each direction, any grid and any process count.",
     ["inputs", "configurations"],
     "coarse fields, grids, refinement factors per direction, process counts",
     SMOKE + "test_interp runs it with equal factors and checks nothing.",
     ["cafes/posttraitement/interpolation.hpp"],
     [("fine mesh creation and per-cell interpolation", "cafes/posttraitement/interpolation.hpp linear_interpolation")],
     ["refined solution vector"])

prop("P16", "Saved HDF5 fields read back identically and their XDMF describes them",
     "Saving a solution writes velocity and pressure values that read back bit-for-bit in natural grid order for any process count, together with an XDMF description whose declared dimensions, origin and spacing match the stored arrays and the physical mesh. "
     "A later save to another name does not disturb an earlier one.",
     ["inputs", "configurations"],
     "fields, grids, spacings, process counts, sequences of saves",
     SMOKE + "files are written but never read back.",
     ["cafes/io/hdf5.hpp"],
     [("HDF5 writer and XDMF template", "cafes/io/hdf5.hpp save_hdf5, create_xdmf")],
     ["datasets in the .h5 file, attributes in the .xdmf file"])

prop("P17", "Box algebra is set algebra on half-open integer or real boxes",
     "Overlap, union and containment of boxes agree with the same operations on the sets of points of the half-open boxes (an intersection test also counts boxes that only touch); the union is the smallest enclosing box, corner lists enumerate each corner once and lengths are per-direction extents. "
     "This holds in two and three dimensions, for integer and real coordinates, touching, nested, disjoint and empty boxes.",
     ["inputs"],
     "all pairs of boxes and points (touching, nested, crossing, empty, negative coordinates)",
     "tests/box.cpp no longer compiles; no stable test covers boxes.",
     ["cafes/particle/geometry/box.hpp"],
     [("interval comparisons", "cafes/particle/geometry/box.hpp")],
     ["return values"])

prop("P18", "Box iteration visits every cell exactly once and sampling grids are even",
     "Iterating over a box calls the visitor once for every integer point inside it and for no other, in two and three dimensions, including empty boxes; evenly spaced sampling returns the requested number of points with the two end points and a constant step.",
     ["inputs"],
     "all boxes (including degenerate), all sample counts and end points",
     "Not tested at all.",
     ["cafes/algorithm/iterate.hpp", "cafes/particle/geometry/linspace.hpp"],
     [("nested loops", "cafes/algorithm/iterate.hpp"), ("linspace", "cafes/particle/geometry/linspace.hpp")],
     ["visited points"])

prop("P19", "Points, vectors, velocities and forces obey vector-space algebra",
     "Sums, differences, scalings, negations and compound assignments of positions, vectors, velocities and forces act component-wise with their usual meaning, in every permitted mixture of the types, and cross products and distances agree with their textbook definitions. "
     "Compound forms agree with the corresponding binary forms for every value.",
     ["inputs"],
     "all operand types and values in 2D and 3D",
     "tests/force.cpp and tests/velocity.cpp use a handful of constants; mixed-type operators are not called.",
     ["cafes/particle/geometry/position.hpp", "cafes/particle/geometry/vector.hpp", "cafes/particle/geometry/cross_product.hpp", "cafes/particle/physics/velocity.hpp", "cafes/particle/physics/force.hpp"],
     [("operator overloads", "cafes/particle/geometry/*.hpp, cafes/particle/physics/*.hpp")],
     ["operator results"])

prop("P20", "Quaternion rotations are rotations by the stated angle and axis",
     "A quaternion built from an angle and a unit axis rotates points of the plane or of space like the corresponding rotation matrix and is undone by its conjugate, rotating twice rotates by twice the angle; normalising any non-zero quaternion yields the unit quaternion of the same direction.",
     ["inputs"],
     "all angles, axes (not only unit ones where accepted), points, compositions, 2D and 3D",
     "tests/quaternion.cpp does not compile and only prints.",
     ["cafes/particle/geometry/quaternion.hpp"],
     [("quaternion product, conjugation, normalisation", "cafes/particle/geometry/quaternion.hpp")],
     ["rotated points"])

prop("P21", "Shape membership, surface points and bounding boxes agree",
     "A point is inside a circle, sphere or (rotated) super-ellipsoid exactly when it is inside the mathematical shape with that centre, radii, exponents and orientation; every sampled surface point lies on the shape's boundary; and every point of the shape lies in its bounding box.",
     ["inputs"],
     "centres, radii, exponents, rotations, query points (in, out, near the surface), sampling distances",
     "Existing tests use unrotated circles and never query a shape directly.",
     ["cafes/particle/geometry/circle.hpp", "cafes/particle/geometry/sphere.hpp", "cafes/particle/geometry/super_ellipsoid.hpp", "cafes/particle/geometry/quaternion.hpp"],
     [("implicit function, parametrisation, bounding box", "cafes/particle/geometry/{circle,sphere,super_ellipsoid}.hpp")],
     ["contains(), surface(), bounding_box()"])

prop("P22", "Particle measures are those of the shape",
     "The reported perimeter or area, volume and surface and volume inertia coefficients of a disc or sphere particle equal the geometric quantities of its shape, whatever its size, and do not depend on its position, orientation, force or motion.",
     ["inputs"],
     "radii and exponents of every provided shape, positions, rotations",
     "Never tested.",
     ["cafes/particle/geometry/circle.hpp", "cafes/particle/geometry/sphere.hpp", "cafes/particle/geometry/super_ellipsoid.hpp", "cafes/particle/particle.hpp"],
     [("closed formulas", "cafes/particle/geometry/{circle,sphere,super_ellipsoid}.hpp volume, surface_area")],
     ["returned measures"])

prop("P23", "Surface sampling is complete, even and as fine as asked",
     "Sampling a particle's surface with a given spacing (relative to its radii) returns distinct points, mirror-symmetric about the shape's axes, that leave no gap noticeably larger than twice the spacing anywhere on the surface and are no more numerous than it asks for. On a disc consecutive points are exactly the spacing apart except across the diagonals of the quadrants, and equally spaced when the spacing divides the eighth of a turn.",
     ["inputs"],
     "shapes, sizes, exponents, spacings",
     "Never tested; only one spacing is used.",
     ["cafes/particle/geometry/uniform_sampling.hpp", "cafes/particle/geometry/circle.hpp", "cafes/particle/geometry/sphere.hpp", "cafes/particle/geometry/super_ellipsoid.hpp"],
     [("uniform parameter sampling", "cafes/particle/geometry/uniform_sampling.hpp")],
     ["list of surface points"])

prop("P24", "The grid nodes found inside a particle are exactly those inside it",
     "The nodes reported as covered by a particle within a sub-domain are exactly the sub-domain's nodes whose physical position lies in the particle, each reported once, whatever the particle's position (also partly outside the domain), the spacing and the sub-domain. Over all processes each covered node is reported exactly once (the last nodes of a non-periodic direction, on the boundary, belong to no sub-domain).",
     ["inputs", "configurations"],
     "particles, spacings, sub-domain boxes and decompositions",
     SMOKE + "particles always lie well inside one square domain.",
     ["cafes/particle/particle.hpp", "cafes/particle/geometry/box.hpp"],
     [("bounding box clipped to the sub-domain, membership test", "cafes/particle/particle.hpp find_fluid_points_insides")],
     ["returned node list"])

prop("P25", "Surface points are located in the right cell with the right offset",
     "Each surface sample lying in a sub-domain is reported with the grid cell that contains it and its offset within that cell, so that cell corner plus offset gives back the physical point, and matching radial directions point from the particle's centre to the point; over all processes every sample inside the domain is reported exactly once.",
     ["inputs", "configurations"],
     "particles, spacings, sub-domain boxes and decompositions, points near cell faces",
     SMOKE + "localisation is never compared.",
     ["cafes/particle/particle.hpp"],
     [("floor division of coordinates by the spacing", "cafes/particle/particle.hpp find_surf_points_insides, find_radial_surf_points_insides, set_materials")],
     ["returned cells and offsets"])

prop("P26", "Particle velocities are transferred from fluid to surface by exact interpolation",
     "Collecting the fluid velocity at surface points returns the multilinear interpolation of the velocity field at each of them minus the particle's own rigid motion there (when requested), for any field, particle set, grid and number of processes. "
     "A fluid moving exactly with the particle therefore gives zero at every surface point.",
     ["inputs", "configurations"],
     "velocity fields, particle sets, rigid motions, grids, process counts",
     SMOKE + "transferred values are never inspected.",
     ["cafes/problem/particle_operator.hpp"],
     [("per-point element interpolation", "cafes/problem/particle_operator.hpp interp_fluid_to_surf"), ("rigid motion subtraction", "cafes/problem/particle_operator.hpp")],
     ["surface vectors"])

prop("P27", "Spreading surface forces to the fluid conserves force and is the adjoint",
     "Spreading surface densities onto the fluid right-hand side puts exactly the weighted total of the densities into the fluid, weights each sample by the particle's perimeter or area divided by its number of samples, and is the transpose of interpolation at the same points, away from Dirichlet boundaries. "
     "Process count and how samples are shared between processes do not change it.",
     ["inputs", "configurations"],
     "surface densities, particle sets, grids, process counts",
     SMOKE + "totals are never computed.",
     ["cafes/problem/particle_operator.hpp"],
     [("per-point element spreading", "cafes/problem/particle_operator.hpp SL_to_Rhs")],
     ["fluid right-hand side"])

prop("P28", "Rigid-body modes are extracted and removed exactly",
     "The surface averages of a density and of its moment are those of the density (zero for a balanced one), and the projection that removes a particle's mean force and torque leaves zero mean and zero moment, is idempotent, leaves balanced densities unchanged, and acts on each particle separately for any number of particles and processes.",
     ["inputs", "configurations"],
     "surface densities, particle sets, process counts",
     SMOKE + "projections are never inspected.",
     ["cafes/problem/particle_operator.hpp"],
     [("mean and cross-moment reductions", "cafes/problem/particle_operator.hpp compute_y, projection")],
     ["projected densities"])

prop("P29", "Particle forces enter the fluid problem as consistent volume loads",
     "Imposing particle forces (density times force) and interior control densities adds to the fluid's right-hand side the consistent mass integral of their sum sampled at the grid nodes each particle covers, one control value per covered node and component in a fixed order, for any number of particles and processes; nodes out of reach keep their load, and the total force and torque recovered from a control density are its volume integrals.",
     ["inputs", "configurations"],
     "particle sets, forces, control densities, grids, process counts",
     SMOKE + "loads are never inspected.",
     ["cafes/problem/particle_operator.hpp", "cafes/particle/particle.hpp"],
     [("nodal loads at covered nodes then mass product", "cafes/problem/particle_operator.hpp set_rhs_problem; cafes/problem/sem.hpp setup_RHS"), ],
     ["fluid right-hand side"])

prop("P30", "The smooth-extension method solves the particle-in-fluid problem",
     "Solving for force-driven particles gives the flow of the fluid under its data, the particle forces and a control inside the particles, where the control makes the flow rigid on each particle surface to the requested tolerance; the reported particle velocities are the mean surface velocities of that flow, and the reported control forces are its volume integrals. The result does not depend on solver options and process counts beyond their tolerances, scales with the forces, follows translations of periodic domains, does positive work and is reciprocal. The method is the same for discs in the plane and spheres in space.",
     ["inputs", "configurations"],
     "particle sets, forces, grids, solver options, process counts",
     SMOKE + "nothing about the computed motion is checked.",
     ["cafes/problem/sem.hpp", "cafes/problem/particle_operator.hpp"],
     [("outer Krylov solve over interior controls", "cafes/problem/sem.hpp")],
     ["fluid solution, reported particle velocities"])

prop("P31", "The Dirichlet-to-Neumann method enforces prescribed particle motion",
     "Solving for particles with prescribed translation and rotation gives the flow of the fluid under its data and a control inside the particles, where the control makes the fluid velocity equal the prescribed rigid motion at the particle surfaces to the requested tolerance; linearly in the prescribed motion, following translations of periodic domains, for any particle set, grid, solver options and process count; particles at rest in a fluid at rest give zero flow. The method is the same for discs in the plane and spheres in space.",
     ["inputs", "configurations"],
     "particle sets, prescribed translations and rotations, grids, process counts",
     SMOKE + "two_part does not compare the surface velocity with the prescribed one.",
     ["cafes/problem/dton.hpp", "cafes/problem/particle_operator.hpp"],
     [("outer Krylov solve over surface densities", "cafes/problem/dton.hpp")],
     ["fluid velocity at surface points"])

prop("P32", "Options given on the command line take effect, defaults otherwise",
     "Grid size, domain lengths, periodicity flags and solver choices given as options are the ones the problem is built with, per direction and independently of each other; anything not given keeps its documented default, and the resulting spacing is the length divided by the number of cells (periodic or not).",
     ["configurations"],
     "all subsets of options and values in 2D and 3D",
     "Tests set mx and my equal and nothing else.",
     ["cafes/problem/options.hpp", "cafes/problem/stokes.hpp"],
     [("option parsing", "cafes/problem/options.hpp"), ("mesh and spacing set-up", "cafes/problem/stokes.hpp")],
     ["mesh sizes, spacing and solver types of the built problem"])

prop("P33", "The lubrication frame is orthonormal, centred in the gap and reversible",
     "For two discs or spheres closer than one length unit the near-contact frame is orthonormal (right-handed), has its axis along the line of centres towards the second particle (first axis in 2D, last in 3D) and its origin on the surface of the first particle; it reports the gap between the surfaces, half the sum of the curvatures, the components of the velocity of particle 2 relative to particle 1 (in 3D the first axis is along the tangential motion), and the cut-off distance max(sqrt(2) h, min(radii, 4 sqrt(gap/K))); mapping a point to the frame and back returns it, the reported box contains every cell of the gap region, and the correction is inactive for larger gaps.",
     ["inputs"],
     "pairs of discs or spheres: radii, centres, gaps, orientations, relative velocities",
     "No stable test enables the lubrication correction.",
     ["cafes/particle/singularity/singularity.hpp"],
     [("frame construction and coordinate maps", "cafes/particle/singularity/singularity.hpp")],
     ["frame axes, origin, gap, mapped points"])

prop("P34", "Lubrication fields are divergence-free and their derivatives consistent",
     "Wherever the explicit near-contact velocity fields are evaluated (normal and tangential approach, two and three dimensions, Cartesian and cylindrical forms), their stated gradient is the derivative of the stated velocity, they are divergence-free, their pressure gradient balances the viscous stress across the gap where the truncation is constant, they move the two walls on the axis by plus and minus half the relative velocity and they vanish beyond the cut-off; for a pair of particles the field opens the gap at the normal velocity of particle 2 relative to particle 1, is linear in it, transforms to the global frame as a vector (velocity), tensor (gradient) and scalar (pressure), and turns with the configuration.",
     ["inputs"],
     "points in the gap region, radii, gaps, velocities, truncation lengths",
     "No stable test evaluates these fields; about 2,400 lines of closed formulas.",
     ["cafes/particle/singularity/UandPNormal.hpp", "cafes/particle/singularity/UandPTang.hpp", "cafes/particle/singularity/singularity.hpp"],
     [("closed formulas", "cafes/particle/singularity/UandP*.hpp")],
     ["velocity, gradient, pressure values"])

prop("P35", "Truncation functions are smooth cut-offs with consistent derivatives",
     "The truncation functions used to localise the near-contact fields equal one inside, zero outside, decrease monotonically in between (functions of the squared distance to the axis, with a given position and half width of the transition), are continuous with their stated derivatives across the junctions, and each stated derivative with respect to the squared distance is the derivative of the previous one; the transition polynomial is odd and reaches one with zero derivatives.",
     ["inputs"],
     "all evaluation points (inside, transition, outside, negative), cut-off lengths and widths",
     "Never tested.",
     ["cafes/particle/singularity/truncation.hpp"],
     [("piecewise polynomials", "cafes/particle/singularity/truncation.hpp")],
     ["function and derivative values"])

prop("P36", "The lubrication correction loads the fluid with the field's weak stress",
     "Adding the near-contact correction to the right-hand side adds, at each fluid node, minus the weak-form integral of the near-contact stress (velocity gradient and pressure) sampled on the regular sub-grid of every cell over the points of the gap that lie outside both particles, between them and within the cut-off, summed over all near pairs; in two dimensions adding it to a solution adds the nodal (hat-weighted) means of the near-contact velocity on the same points; pressure entries and all other nodes keep their values, nothing is added without a near pair, and results are the same for any number of processes and periodic directions.",
     ["inputs", "configurations"],
     "particle pairs, grids, relative velocities, process counts",
     "No stable test enables the lubrication correction.",
     ["cafes/particle/singularity/add_singularity.hpp"],
     [("sub-grid quadrature over fluid cells", "cafes/particle/singularity/add_singularity.hpp")],
     ["right-hand side and solution differences"])

prop("P37", "Triangulations are valid and cover the input points",
     "Triangulating a set of points in general position returns triangles whose vertices are valid point indices and which form a Delaunay triangulation of their convex hull in the plane, or the boundary of the convex hull in space, each triangle once.",
     ["inputs"],
     "random, clustered, gridded and co-circular point sets",
     "No test calls it.",
     ["cafes/particle/geometry/triangulation.hpp", "external_packages/qhull"],
     [("qhull call and facet extraction", "cafes/particle/geometry/triangulation.hpp")],
     ["returned triangles"])

prop("P38", "No admissible input makes the library touch memory it does not own",
     "For every admissible configuration (grid, partition, boundary data, particle set, sampling, solver option, file output) set-up, operator application, solve and post-processing read and write only valid, initialised memory and perform no undefined arithmetic.",
     ["inputs", "configurations", "histories"],
     "all admissible configurations and call sequences of the other properties",
     "Tests run without sanitizers on a handful of configurations.",
     ["cafes/petsc/vec.hpp", "cafes/problem/particle_operator.hpp", "cafes/fem/assembling.hpp", "cafes/particle/particle.hpp"],
     [("index arithmetic on raw PETSc arrays", "cafes/petsc/vec.hpp, cafes/fem/*.hpp")],
     ["sanitizer reports"])

prop("P39", "Near-contact forces are the surface integrals of the near-contact stress",
     "For every pair of particles in near contact the reported near-contact force on each particle is minus the integral of the near-contact stress (viscous and pressure) times the outward normal over its cap within the cut-off, in the global frame; forces of several pairs accumulate, particles without near neighbour get none, and the same forces are what is added to the totals of a control density when the correction is requested.",
     ["inputs", "configurations"],
     "pairs and triples of discs and spheres: radii, gaps, orientations, velocities, grids",
     "No stable test enables the lubrication correction.",
     ["cafes/particle/singularity/add_singularity.hpp", "cafes/problem/particle_operator.hpp"],
     [("cap quadratures", "cafes/particle/singularity/add_singularity.hpp compute_singular_forces"), ("totals", "cafes/problem/particle_operator.hpp forces_torques_with_control")],
     ["forces of the particles"])

prop("P40", "Saved VTK files describe the solution and the particles",
     "Saving a solution in VTK form writes one piece per process and mesh, whose points are the physical positions of the velocity or pressure nodes of its extent and whose values are those of the solution at these nodes (the periodic image across a periodic boundary); the index files declare exactly these pieces with their extents, types and attributes, the pieces lie in the declared whole extent and cover every node and cell of it. "
     "Saving particles writes one point per particle, its centre, with its radius and, when given, force and torque. This holds in two and three dimensions and on any number of processes; earlier files keep their content and the solution is not modified.",
     ["inputs", "configurations"],
     "fields x grids x spacings x periodicity x 1..6 processes; particle sets",
     "Nothing in the repository compiles this output: it needs VTK.",
     ["cafes/io/vtk.hpp"],
     [("data sets, pieces and index files", "cafes/io/vtk.hpp save_VTK"), ("particles", "cafes/io/vtk.hpp saveParticles")],
     ["files written"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
