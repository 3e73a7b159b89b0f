"""Which harness properties decide which property, with how many cases per tier."""

import os

VTK = os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine", "vtk")
QHULL = ["libqhull_r/%s_r.c" % f for f in
         "global stat geom2 poly2 merge libqhull geom poly qset mem random usermem io user".split()] + \
        ["libqhullcpp/%s.cpp" % f for f in
         "Coordinates PointCoordinates Qhull QhullFacet QhullFacetList QhullFacetSet QhullHyperplane QhullPoint QhullPointSet QhullPoints "
         "QhullQh QhullRidge QhullSet QhullStat QhullVertex QhullVertexSet RoadError RoadLogEvent".split()]

HARNESSES = {
    "fem": {},
    "assemble": {},
    "solve": {},
    "field": {},
    "geom": {},
    "tri": {"qhull": QHULL},
    "particle": {},
    "motion": {},
    "solve3": {},
    "motion3": {},
    "sing": {},
    "vtk": {"flags": ["-I" + VTK]},
    "post": {"link": ["-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5"]},
}


def mpi(harness, prop, quick, thorough=None, np=6, **k):
    return dict(harness=harness, prop=prop, quick=quick, thorough=thorough or quick * 10, np=np, split=1, **k)


def mpi8(*a, **k):
    """three-dimensional splits in all directions at once need eight processes"""
    return mpi(*a, np=8, **k)


def ser(harness, prop, quick, thorough=None, **k):
    return dict(harness=harness, prop=prop, quick=quick, thorough=thorough or quick * 10, np=1, **k)


JOBS = {
    "P01": dict(
        rule="grid size, spacing, periodicity, process count 1..6, operator and nodal field (dense random or unit vector) are drawn; "
             "every case compares a full operator application and is non-trivial",
        jobs=[mpi("fem", "P01.block2", 2500), mpi8("fem", "P01.block3", 1500), mpi("fem", "P01.stokes2", 1500),
              mpi8("fem", "P01.stokes3", 1000), mpi("fem", "P01.mass2", 1000), mpi8("fem", "P01.mass3", 600)]),
    "P02": dict(
        rule="grid, spacing, periodicity, process count, strain or Laplacian form and fields are drawn; every case compares full matrix "
             "products of assembled and matrix-free (or reference) operators",
        jobs=[mpi("assemble", "P02.raw", 1500), mpi("assemble", "P02.problem", 1500)]),
    "P03": dict(
        rule="grid, spacing, periodicity, process count, operator and mesh are drawn; every case compares a full diagonal",
        jobs=[mpi("fem", "P03.2d", 2500), mpi8("fem", "P03.3d", 1500), mpi("fem", "P03.pair2", 1000), mpi8("fem", "P03.pair3", 600)]),
    "P04": dict(
        rule="grid, process count, sides and components with data, boundary functions, field and mode are drawn; non-trivial when at "
             "least one node is constrained",
        jobs=[mpi("fem", "P04.2d", 8000), mpi8("fem", "P04.3d", 6000)]),
    "P05": dict(
        rule="grid, process count, force functions per component and previous contents are drawn; non-trivial when a component has a force",
        jobs=[mpi("fem", "P05.2d", 8000), mpi8("fem", "P05.3d", 5000)]),
    "P07": dict(
        rule="grid sizes up to 40 (2D) and 9 (3D), periodicity and process count are drawn; every case is non-trivial",
        jobs=[mpi("fem", "P07.2d", 8000), mpi8("fem", "P07.3d", 6000)]),
    "P08": dict(
        rule="grid, operator and a seed for the fields are drawn; every case is non-trivial",
        jobs=[mpi("fem", "P08.2d", 2000), mpi8("fem", "P08.3d", 1000), mpi("assemble", "P08.assembled", 1500)]),
    "P06": dict(
        rule="problem data, grid, periodicity, solver and process count are drawn; non-trivial when more than one process is used",
        jobs=[mpi("solve", "P06", 900), mpi8("solve3", "P06.3d", 40), mpi("assemble", "P06.problem2", 2000),
              mpi8("assemble", "P06.problem3", 1000)]),
    "P09": dict(
        rule="cells, offsets in the cell (corners and faces included), spacings and periodicity are drawn; every case evaluates all weights",
        jobs=[ser("field", "P09.weights2", 20000), ser("field", "P09.weights3", 20000), ser("field", "P09.lists", 20000),
              mpi("field", "P09.indices", 2500)]),
    "P10": dict(
        rule="grid, periodicity, process count, field and a history of reads, writes, refreshes, push-backs and fills are drawn; every "
             "case compares the whole field with a model",
        jobs=[mpi("field", "P10.2d", 6000), mpi8("field", "P10.3d", 4000)]),
    "P11": dict(
        rule="grid, spacing, periodicity, boundary data, body force, solver, tolerance and process count are drawn; non-trivial when the "
             "data is not zero; histories of 2..4 right-hand sides on one problem object with the preconditioners it provides",
        jobs=[mpi("solve", "P11.posed", 2500), mpi("solve", "P11.manufactured", 2000), mpi("solve", "P11.again", 700, np=4),
              mpi8("solve3", "P11.posed3", 200), mpi("solve3", "P11.manufactured3", 120)]),
    "P12": dict(
        rule="grids that admit the mesh hierarchy (square and rectangular, periodic or not), data, tolerance and 1..4 processes are drawn; "
             "non-trivial with two levels or more",
        jobs=[mpi("solve", "P12", 800, np=4), mpi("solve3", "P12.3d", 120)]),
    "P13": dict(
        rule="domain, grid, flow, solver and process count are drawn; every case compares with an exact solution",
        jobs=[mpi("solve", "P13.linear", 1500, np=4), ser("solve", "P13.smooth", 600), mpi("solve3", "P13.linear3", 60)]),
    "P14": dict(
        rule="a problem and one of five transformations are drawn; every case compares two or three related solves",
        jobs=[mpi("solve", "P14", 2000), mpi("solve3", "P14.3d", 40)]),
    "P15": dict(
        rule="grid, spacing, periodicity, refinement factors 1..4 per direction, fields and process count are drawn; non-trivial when "
             "some direction is refined",
        jobs=[mpi("post", "P15", 3000)]),
    "P16": dict(
        rule="grid, spacing, periodicity, fields, file names and process count are drawn; every case reads the files back",
        jobs=[mpi("post", "P16", 500)]),
    "P17": dict(
        rule="pairs of boxes with positive or zero lengths on a small lattice (so that touching, nested and disjoint pairs are common), compared "
             "on every lattice point; non-trivial when both boxes have a positive volume",
        jobs=[ser("geom", "P17.int2", 30000), ser("geom", "P17.real2", 30000), ser("geom", "P17.int3", 8000), ser("geom", "P17.real3", 8000)]),
    "P18": dict(
        rule="boxes (empty, inverted and ordinary) and sampling requests are drawn; non-trivial when there is a point to visit, or two samples "
             "of a positive length",
        jobs=[ser("geom", "P18.int2", 20000), ser("geom", "P18.int3", 20000), ser("geom", "P18.size2", 10000), ser("geom", "P18.size3", 10000),
              ser("geom", "P18.linspace", 20000)]),
    "P19": dict(
        rule="component values (zero included) and scalars are drawn; every case evaluates all operators of all types",
        jobs=[ser("geom", "P19.2d", 20000), ser("geom", "P19.3d", 20000)]),
    "P20": dict(
        rule="angle (multiples of an eighth of a turn included), unit axis (coordinate axes included), point and quaternion to normalise are "
             "drawn; non-trivial when the angle is not zero",
        jobs=[ser("geom", "P20", 60000)]),
    "P21": dict(
        rule="centre, radii, exponents, rotation, query points (many just inside or outside the surface) and parameters are drawn; non-trivial "
             "when some query point is inside",
        jobs=[ser("geom", "P21.2d", 12000), ser("geom", "P21.3d", 6000)]),
    "P22": dict(
        rule="disc and sphere particles with drawn radius, position, rotation and motion; every case compares with quadratures of the shape",
        jobs=[ser("geom", "P22", 6000)]),
    "P23": dict(
        rule="shape, rotation and spacing (also spacings that divide the circle) are drawn; non-trivial when more than 8 (2D) or 20 (3D) points "
             "are returned",
        jobs=[ser("geom", "P23.2d", 30000), ser("geom", "P23.3d", 2000)]),
    "P24": dict(
        rule="spacings, particle (also partly or wholly outside, centred on a node), sub-domain, grid, periodicity and process count are "
             "drawn; non-trivial when a node is reported",
        jobs=[ser("particle", "P24.box2", 8000), ser("particle", "P24.box3", 4000), mpi("particle", "P24.2d", 3000), mpi8("particle", "P24.3d", 1500)]),
    "P25": dict(
        rule="spacings, particle, rotation, sampling, sub-domain, grid, periodicity and process count are drawn; non-trivial when a sample "
             "is in the sub-domain",
        jobs=[ser("particle", "P25.box2", 8000), ser("particle", "P25.box3", 5000), mpi("particle", "P25.2d", 3000), mpi8("particle", "P25.3d", 1500)]),
    "P26": dict(
        rule="grid, periodicity, process count, 1..9 particles and their motion, sampling and field (dense, unit vector, or the rigid motion "
             "of a particle) are drawn; non-trivial when a sample is in the domain",
        jobs=[mpi("particle", "P26.2d", 4000), mpi8("particle", "P26.3d", 2000)]),
    "P27": dict(
        rule="grid, periodicity, process count, 1..9 particles, sampling, densities and field are drawn; non-trivial when a sample is in the "
             "domain; cases with a sample within rounding of the edge of the domain are skipped",
        jobs=[mpi("particle", "P27.2d", 8000), mpi8("particle", "P27.3d", 4000)]),
    "P28": dict(
        rule="grid, periodicity, process count, 1..9 particles, sampling, densities and fields (general, rigid, mixed) are drawn; non-trivial "
             "when a sample or integration point is in the domain; undecidable positions are skipped",
        jobs=[mpi("particle", "P28.surface2", 5000), mpi8("particle", "P28.surface3", 3000), mpi("particle", "P28.volume2", 4000),
              mpi8("particle", "P28.volume3", 1600)]),
    "P29": dict(
        rule="grid, periodicity, process count, 1..9 disjoint particles, forces, control, previous load and problem data are drawn; "
             "non-trivial when a node is covered; nodes within rounding of a surface skip the case",
        jobs=[mpi("particle", "P29.2d", 8000), mpi8("particle", "P29.3d", 4000)]),
    "P30": dict(
        rule="grid, periodicity, boundary data, body force, particles, forces, sampling, solver options and process count are drawn; non-trivial "
             "unless nothing is driven; undecidable node positions are skipped",
        jobs=[mpi("motion", "P30.whole", 110), mpi("motion", "P30.surface", 50), mpi("motion3", "P30.whole3", 20)]),
    "P31": dict(
        rule="grid, periodicity, boundary data, body force, particles, prescribed motions, sampling, solver options and process count are drawn; "
             "non-trivial unless nothing moves; undecidable node positions are skipped",
        jobs=[mpi("motion", "P31.whole", 110), mpi("motion", "P31.surface", 40), mpi("motion3", "P31.whole3", 20)]),
    "P33": dict(
        rule="radii, orientation (axes and diagonals included), gap (also just below and above the threshold), spacing and velocities (axial, "
             "nearly axial, equal, general) are drawn; non-trivial when the pair is in near contact",
        jobs=[ser("sing", "P33.2d", 30000), ser("sing", "P33.3d", 30000)]),
    "P34": dict(
        rule="curvatures, gap, velocity, truncation and points of the gap (also on the axis and the coordinate planes) are drawn, and pairs of "
             "particles with their motion; non-trivial when the relative velocity is not zero",
        jobs=[ser("sing", "P34.2d", 20000), ser("sing", "P34.3d", 10000), ser("sing", "P34.pair2", 15000), ser("sing", "P34.pair3", 10000)]),
    "P35": dict(
        rule="position and width of the transition and evaluation points (inside, in the transition, next to the junctions, outside) are drawn; "
             "every case evaluates all functions",
        jobs=[ser("sing", "P35", 20000)]),
    "P36": dict(
        rule="grid, periodicity, process count, a pair of particles in near contact (or none) and possibly a third particle (also near one or both), their motion and the "
             "previous vector are drawn; non-trivial when the correction is not zero; points within rounding of a surface skip the case",
        jobs=[mpi("sing", "P36.rhs2", 3000), mpi("sing", "P36.rhs3", 45, 900), mpi("sing", "P36.sol2", 3000)]),
    "P39": dict(
        rule="as P36; compared with an independent quadrature of the stress; non-trivial when some force is not zero",
        jobs=[mpi("sing", "P39.2d", 2500), mpi("sing", "P39.3d", 120, 1200)]),
    "P38": dict(
        rule="the generated cases of the other properties, run with AddressSanitizer and UndefinedBehaviorSanitizer and with stack and heap "
             "filled with a pattern; only what the sanitizers report counts; non-trivial as in those properties",
        technique="property-based testing: generated cases, sanitizers as the oracle",
        jobs=[mpi("fem+asan", p, n) for p, n in (("P01.stokes2", 60), ("P01.stokes3", 25), ("P03.2d", 60), ("P03.3d", 25), ("P04.3d", 50),
                                                 ("P05.3d", 40), ("P07.3d", 60))] +
             [mpi("assemble+asan", "P02.problem", 60), mpi("field+asan", "P09.indices", 60), mpi("field+asan", "P10.2d", 60),
              mpi("field+asan", "P10.3d", 40), mpi("post+asan", "P15", 60), mpi("post+asan", "P16", 20),
              mpi("vtk+asan", "P40.2d", 40), mpi("vtk+asan", "P40.3d", 30), mpi("vtk+asan", "P40.particles3", 40)] +
             [ser("geom+asan", p, n) for p, n in (("P17.int3", 300), ("P18.int3", 300), ("P18.linspace", 300), ("P19.2d", 300),
                                               ("P19.3d", 300), ("P20", 300), ("P21.2d", 300), ("P21.3d", 150), ("P22", 200), ("P23.2d", 200), ("P23.3d", 60))] +
             [ser("tri+asan", "P37.2d", 300), ser("tri+asan", "P37.3d", 150)] +
             [mpi("particle+asan", p, n) for p, n in (("P26.2d", 60), ("P26.3d", 30), ("P27.3d", 30), ("P28.volume2", 30), ("P29.2d", 60),
                                                      ("P29.3d", 30))] +
             [mpi("sing+asan", "P36.rhs2", 60), mpi("sing+asan", "P36.sol2", 60), mpi("sing+asan", "P39.2d", 40),
              ser("sing+asan", "P34.pair3", 300), mpi("solve+asan", "P11.posed", 20), mpi("solve+asan", "P12", 10, np=4),
              ser("solve+asan", "P32.parse3", 60), mpi("motion+asan", "P30.whole", 8), mpi("motion+asan", "P31.whole", 8),
              mpi("solve3+asan", "P11.posed3", 6), mpi("solve3+asan", "P12.3d", 4), mpi("motion3+asan", "P31.whole3", 2)]),
    "P37": dict(
        rule="point sets in the plane (general or co-circular) and in space (clouds, sphere, ellipsoid) are drawn; non-trivial with more points "
             "than one simplex has; sets within 1e-7 (plane) or 1e-9 (space) of a degenerate position are skipped",
        jobs=[ser("tri", "P37.2d", 20000), ser("tri", "P37.3d", 4000)]),
    "P40": dict(
        rule="grid, periodicity, process count, fields, one or two saves; particle sets with or without loads; every case compares every point and "
             "value of the files written",
        jobs=[mpi("vtk", "P40.2d", 1500), mpi8("vtk", "P40.3d", 800), mpi("vtk", "P40.particles2", 1500), mpi8("vtk", "P40.particles3", 1500)]),
    "P32": dict(
        rule="any subset of the options with drawn values; non-trivial when at least one option is given",
        jobs=[ser("solve", "P32.parse2", 3000), ser("solve", "P32.parse3", 3000), mpi("solve", "P32.problem", 1500), mpi("solve3", "P32.problem3", 400)]),
}

NOT_APPLICABLE = {}
