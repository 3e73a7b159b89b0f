"""Rewrites known_findings.json: the genuine defects found, repaired ("fixed", suppresses nothing) or listed ("findings")."""
import json, os
FIXED = [
 ("P07","c7a5943","3D and scalar meshes were created without being set up: every later use failed"),
 ("P01","2b9273b","apply_mass_matrix applied the velocity spacing on the pressure mesh"),
 ("P02","45c151c","the assembled strain tensor coupled u and v through the transposed block"),
 ("P02","47f99ff","assembled matrices put Dirichlet rows on periodic directions on one process"),
 ("P12","55da7c0","the multigrid set-up looped forever on rectangular grids"),
 ("P12","9320a4b","the coarsest multigrid level was solved with CG although the Stokes operator is indefinite"),
 ("P15","42d5c0a","linear_interpolation gave wrong values on rectangular refinements, periodic meshes and split meshes"),
 ("P16","71d66f6","XDMF files declared dimensions that are not those of the arrays they describe"),
 ("P20","c07f86a","quaternion::normalize divided by the square of the norm"),
 ("P18","2bada4a","linspace of one point returned NaN"),
 ("P17","7efe086","check_box_inside tested the first direction only"),
 ("P21","e880b56","parametric points and 3D membership ignored the orientation of the shape"),
 ("P21","70e81a3","3D surface sampling left the shape, used invalidated iterators and returned points twice"),
 ("P37","3a08fec","the 2D triangulation returned facets of the upper hull and missed Delaunay triangles"),
 ("P23","4beab7c","surface samples on the diagonal of a quadrant were returned twice"),
 ("P31","eb323b8","the Dirichlet-to-Neumann residual added the prescribed translational velocity instead of subtracting it"),
 ("P25","c7eca37","surface points left of or below the domain were put in its first cells"),
 ("P29","430279a","the total force and torque of a control density were not its volume integrals"),
 ("P35","4b8093e","the truncation was not one on its plateau, its derivatives did not vanish there, the fourth derivative was wrong"),
 ("P34","ba1ad32","the 2D normal near-contact velocity was not the one its gradient describes"),
 ("P34","1c097db","the gradients of the 3D near-contact fields were NaN or wrong on the axis"),
 ("P34","5474904","the 3D near-contact field closed the gap when the particles separate"),
 ("P33","00f7c15","the 3D near-contact frame was not orthonormal without tangential motion"),
 ("P36","efaeab6","adding the near-contact field to a solution lost the contributions to nodes of other processes"),
 ("P39","de37639","near-contact forces had wrong signs, normals and quadrature weights"),
 ("P38","28098a1","near-contact loops ran out of bounds without particles"),
 ("P36","98fbce2","near-contact stresses were sampled behind the particles"),
 ("P30","9083190","the last solve of the smooth extension added the surface load of the last operator application to its right-hand side"),
 ("P11","bcc479e","three-dimensional Stokes problems did not compile"),
 ("P31","e216a0e","the Dirichlet-to-Neumann problem of spheres did not compile"),
 ("P12","6dbf182","multigrid smoothers used CG on operators that are not symmetric and could break down"),
 ("P02","a42dae9","Dirichlet rows of the assembled matrices ignored which sides and components have data"),
 ("P11","e6e26aa","the pressure null space was attached to assembled problems with an open side: Krylov solvers returned a wrong flow"),
 ("P40","ecc95ed","the 2D VTK output declared the velocity as vectors but stored it as scalars"),
 ("P40","a99b3d9","VTK index files of periodic meshes declared a whole extent smaller than their pieces"),
 ("P40","96b4d1c","saving spheres in VTK form without their loads dropped the third coordinate"),
 ("P19","84b607c","vector += velocity subtracted, velocity - vector returned vector - velocity"),
]
FINDINGS = []
here = os.path.dirname(os.path.abspath(__file__))
json.dump({"fixed": ["fixed: property=%s %s %s" % f for f in FIXED], "findings": FINDINGS},
          open(os.path.join(here, "..", "known_findings.json"), "w"), indent=1)
