From c7a594315fa6a823b0b62098e8af1ca203b6aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 01/37] fix: set up the 3D and scalar meshes when they are
 created

Only the 2D velocity-pressure mesh called DMSetUp; the others failed with
'You should call DMSetUp() first' or crashed.
---
 cafes/fem/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index e812f06..8b8539a 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -252,6 +252,7 @@ namespace cafes
         ierr = DMDACreate2d(PETSC_COMM_WORLD, b_type[0], b_type[1], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
@@ -275,6 +276,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mpres[0], mpres[1], mpres[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &DAPressure);CHKERRQ(ierr);
+        ierr = DMSetUp(DAPressure);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAPressure, 0, "p");CHKERRQ(ierr);
 
         ierr = DMDAGetInfo(DAPressure, NULL, NULL, NULL, NULL, &npx, &npy, &npz, NULL, NULL, NULL, NULL, NULL, NULL);CHKERRQ(ierr);
@@ -290,6 +292,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], npx, npy, npz,
                             3, 1, lxu, lyu, lzu, &DAVelocity);CHKERRQ(ierr);
+        ierr = DMSetUp(DAVelocity);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 0, "u");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 1, "v");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 2, "w");CHKERRQ(ierr);
@@ -319,6 +322,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From 2b9273ba70502d765f81e7dcbc0aa679880908bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 02/37] fix: apply_mass_matrix uses the doubled spacing on the
 pressure mesh

The spacing was doubled on a copy of each element, so the pressure mass
matrix was integrated with the velocity spacing.
---
 cafes/fem/matrixFree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matrixFree.hpp b/cafes/fem/matrixFree.hpp
index 96f3c6e..2e4dc72 100644
--- a/cafes/fem/matrixFree.hpp
+++ b/cafes/fem/matrixFree.hpp
@@ -279,7 +279,7 @@ namespace cafes
             PetscFunctionBeginUser;
 
             auto hp = h;
-            std::for_each(hp.begin(), hp.end(), [](auto x) { x *= 2; });
+            std::for_each(hp.begin(), hp.end(), [](auto &x) { x *= 2; });
 
             using ctx = problem::context<Dimensions, 2>;
             ctx s{dm, {{h, hp}}, mass_mult};
-- 
2.43.0


From 45c151c794180838f9ace0b5d2841e24a85b56c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 03/37] fix: assembled strain tensor couples u and v with the
 right transpose

Both off-diagonal blocks of the assembled element matrix used the same
table, so the matrix was not symmetric and differed from the matrix-free
operator wherever the contributions do not cancel (natural boundaries).
---
 cafes/fem/matElem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matElem.hpp b/cafes/fem/matElem.hpp
index 00f1609..c8afc3b 100644
--- a/cafes/fem/matElem.hpp
+++ b/cafes/fem/matElem.hpp
@@ -392,7 +392,7 @@ auto getMatElemStrainTensorA(std::array<double, 2> const &h)
         {
             MatElem[i + j * 8] =
                 2 * hyx * matElem2d_dxudxu[i][j] + hxy * matElem2d_dyudyu[i][j];
-            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[i][j];
+            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[j][i];
 
             MatElem[i + (j + 4) * 8] = matElem2d_dxudyu[i][j];
             MatElem[i + 4 + (j + 4) * 8] =
-- 
2.43.0


From 47f99ff97b444c78404f61fa20239e49d2ec8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 04/37] fix: Dirichlet rows of assembled matrices on one
 process with a periodic direction

set_dirichlet_on_mat_impl took the local size from the owned range in a
periodic direction and from the ghosted one otherwise; the row numbers it
gives to MatZeroRowsLocal are always those of the ghosted numbering.
---
 cafes/fem/bc.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index a946d5d..7aebd9a 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -185,7 +185,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      PetscInt       i, j, d, ind, nx, ny, size;
+      PetscInt       i, j, d, ind, nx, ny;
       PetscInt       local_id, nbcs;
       PetscInt       *bc_id1, *bc_id2;
       DMDALocalInfo  info;
@@ -203,9 +203,8 @@ namespace cafes
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gym, &bc_id1);CHKERRQ(ierr);
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gxm, &bc_id2);CHKERRQ(ierr);
 
-      MPI_Comm_size(PETSC_COMM_WORLD, &size);
-      nx = (size == 1)? info.mx: info.gxm;
-      ny = (size == 1)? info.my: info.gym;
+      nx = info.gxm;
+      ny = info.gym;
 
       //left border
       nbcs = 0;
@@ -227,7 +226,7 @@ namespace cafes
 
       // right border
       nbcs = 0;
-      i = (size == 1) ? info.mx-1: info.gxm-1;
+      i = info.gxm-1;
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
@@ -243,8 +242,6 @@ namespace cafes
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
 
-      nx = (size == 1) ? info.mx: info.gxm;
-
       // bottom border
       nbcs = 0;
       j = 0;
@@ -265,7 +262,7 @@ namespace cafes
 
       // top border
       nbcs = 0;
-      j = (size == 1) ? info.my-1:  info.gym-1;
+      j = info.gym-1;
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-- 
2.43.0


From 55da7c0c4f29d33e1872cfb0e181955b6c8159c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 05/37] fix: multigrid set-up does not loop forever on
 rectangular grids

createLevelMatrices looked for the level by comparing square roots of the
number of unknowns; for a grid that is not square these never match.
---
 cafes/problem/stokes.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 5e2ac76..599f06e 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -60,17 +60,19 @@ namespace cafes
             ierr = KSPGetDM(ksp, &dm);CHKERRQ(ierr);
 
             int localsize, totalsize;
-            int localsize_0, totalsize_0;
             ierr = fem::get_DM_sizes(dm, localsize, totalsize);CHKERRQ(ierr);
-            ierr = fem::get_DM_sizes(ctx_->dm, localsize_0, totalsize_0);CHKERRQ(ierr);
 
-            int nx_0 = sqrt(totalsize_0/2), nx = sqrt(totalsize/2);
+            DMDALocalInfo info_0, info;
+            ierr = DMDAGetLocalInfo(ctx_->dm, &info_0);CHKERRQ(ierr);
+            ierr = DMDAGetLocalInfo(dm, &info);CHKERRQ(ierr);
+
+            int nx_0 = info_0.mx;
             int level = 0;
             // find the level in MG
-            while(nx_0 != nx)
+            while(nx_0 > info.mx)
             {
                 level++;
-                nx_0 = (nx_0+1)/Dim;
+                nx_0 = (nx_0+1)/2;
             }
 
             auto mg_h = ctx_->h;
-- 
2.43.0


From 9320a4ba27b01afb25143c6eec72dea01466a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 06/37] fix: solve the coarsest multigrid level with GMRES
 instead of CG

The level operators keep the boundary columns in the interior rows, so they
are not symmetric: on anisotropic or periodic grids CG ran its 10000
iterations without converging in every cycle (a minute instead of
milliseconds).
---
 cafes/problem/stokes.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 599f06e..e50e314 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -152,7 +152,8 @@ namespace cafes
                 KSP smoother;
                 PC pcsmoother;
                 ierr = PCMGGetSmoother(pc_i, i, &smoother);CHKERRQ(ierr);
-                ierr = KSPSetType(smoother, KSPCG);CHKERRQ(ierr);
+                // the operators of the levels are not symmetric (Dirichlet rows only)
+                ierr = KSPSetType(smoother, i == 0 ? KSPGMRES : KSPCG);CHKERRQ(ierr);
                 ierr = KSPGetPC(smoother, &pcsmoother);CHKERRQ(ierr);
                 ierr = PCSetType(pcsmoother, PCJACOBI);CHKERRQ(ierr);
             }
-- 
2.43.0


From 42d5c0a42bf85497066dba9a2367bb39724965c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 07/37] fix: linear_interpolation on rectangular refinements,
 periodic and split meshes

The two refinement factors were swapped, the pressure was written with two
components per node (over the next node and past the end of the array), and
nodes were computed from the coarse cells of a process although the refined
mesh is not split at the same places (out of bounds) and an insertion of
ghost values is not possible in periodic directions. Each process now
computes the refined nodes it owns.
---
 cafes/posttraitement/interpolation.hpp | 59 +++++++++++++-------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index ae8eb18..9fd89e4 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -97,49 +97,48 @@ namespace cafes
     	ierr = solv.global_to_local(INSERT_VALUES);CHKERRQ(ierr);
       ierr = solp.global_to_local(INSERT_VALUES);CHKERRQ(ierr);
 
-      // INTERPOLATION KERNEL
-      auto const kernel = [](const auto& solv, auto& solv_ref, const auto& refine, const auto& h)
+      // INTERPOLATION KERNEL: every process computes the refined nodes it owns
+      auto const interpolate = [](const auto& solv, auto& solv_ref, const auto& refine, const auto& h)
       {
-        auto const kernel_pos = [&](auto const &pos)
+        PetscErrorCode ierr;
+        PetscFunctionBeginUser;
+        DMDALocalInfo info, info_ref;
+        ierr = DMDAGetLocalInfo(solv.dm_, &info);CHKERRQ(ierr);
+        ierr = DMDAGetLocalInfo(solv_ref.dm_, &info_ref);CHKERRQ(ierr);
+
+        // last cell known in each direction (the node on its right is still a local one)
+        const std::array<int, 2> last{info.gxs + info.gxm - 2, info.gys + info.gym - 2};
+
+        for(int j=info_ref.ys; j<info_ref.ys+info_ref.ym; j++)
         {
-          auto ielem = fem::get_element(pos);
-          for(std::size_t j=0; j<refine[0]+1; j++)
+          for(int i=info_ref.xs; i<info_ref.xs+info_ref.xm; i++)
           {
-            for(std::size_t i =0; i<refine[1]+1; i++)
+            auto pos = geometry::position<int, Dimensions>{std::min(i/refine[0], last[0]), std::min(j/refine[1], last[1])};
+            auto ielem = fem::get_element(pos);
+            auto bfunc = fem::P1_integration(geometry::position<double, Dimensions>{(i-pos[0]*refine[0])*h[0]/refine[0], (j-pos[1]*refine[1])*h[1]/refine[1]}, h);
+            auto uref = solv_ref.at_g(geometry::position<int, Dimensions>{i, j});
+            for (int d=0; d<solv_ref.dof_; d++)
             {
-              auto refcoord = pos*h + geometry::position<double, Dimensions>{i*h[0]/refine[0], j*h[1]/refine[1]};
-              auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
-              auto refpos = geometry::position<int, Dimensions>{i+pos[0]*refine[0],j+pos[1]*refine[1]};
-              auto uref = solv_ref.at(refpos);
-              for (std::size_t d=0; d<Dimensions; d++)
-              {
-                uref[d] = 0;
-              }
-              for (std::size_t k=0; k<bfunc.size(); k++)
+              uref[d] = 0;
+            }
+            for (std::size_t k=0; k<bfunc.size(); k++)
+            {
+              auto u = solv.at(ielem[k]);
+              for (int d=0; d<solv_ref.dof_; d++)
               {
-                auto u = solv.at(ielem[k]);
-                for (std::size_t d=0; d<Dimensions; d++)
-                {
-                  uref[d] += u[d]*bfunc[k];
-                }
+                uref[d] += u[d]*bfunc[k];
               }
             }
           }
-        };
-        return kernel_pos;
+        }
+        PetscFunctionReturn(0);
       };
 
       // VELOCITY INTERPOLATION
-      auto box = fem::get_DM_bounds<Dimensions>(dav);
-      algorithm::iterate(box, kernel(solv, solv_ref, refine, h));
+      ierr = interpolate(solv, solv_ref, refine, h);CHKERRQ(ierr);
 
       // PRESSURE INTERPOLATION
-      auto boxp = fem::get_DM_bounds<Dimensions>(dap);
-      algorithm::iterate(boxp, kernel(solp, solp_ref, refine, h));
-
-      // LOCAL TO GLOBAL
-      ierr = solv_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-      ierr = solp_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
+      ierr = interpolate(solp, solp_ref, refine, h);CHKERRQ(ierr);
 
       PetscFunctionReturn(0);
     }
-- 
2.43.0


From 71d66f63a6c3523aff1b0dd09a2ff8bb96f6207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 08/37] fix: XDMF files declare the dimensions of the arrays
 they describe

Dimensions are slowest first like those of the HDF5 datasets, and those of
the pressure mesh are its own (n-1 instead of n was declared).
---
 cafes/io/hdf5.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index f042650..e0fd7c9 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -42,6 +42,7 @@ namespace cafes
     {
         void create_xdmf(const char *path, const char *filename,
                          DMDALocalInfo const &info,
+                         DMDALocalInfo const &infop,
                          std::array<double, 2> const &h)
         {
             std::stringstream output;
@@ -61,7 +62,7 @@ namespace cafes
                 << "    <Grid Name=\"pressure_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx / 2 + 1 << " " << info.my / 2 + 1 << "\"/>\n";
+                   << infop.my << " " << infop.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
@@ -73,7 +74,7 @@ namespace cafes
                       "AttributeType=\"Scalar\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx / 2 << " " << info.my / 2 << "\">\n";
+                   << infop.my << " " << infop.mx << "\">\n";
             myfile << "          " << output_h5.str() << ":/pressure\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -82,7 +83,7 @@ namespace cafes
                 << "    <Grid Name=\"velocity_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx << " " << info.my << "\"/>\n";
+                   << info.my << " " << info.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
@@ -94,7 +95,7 @@ namespace cafes
                       "AttributeType=\"Vector\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx << " " << info.my << " 2\">\n";
+                   << info.my << " " << info.mx << " 2\">\n";
             myfile << "          " << output_h5.str() << ":/velocity\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -155,7 +156,7 @@ namespace cafes
             MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
             if (rank == 0)
             {
-                create_xdmf(path, filename, infou, h);
+                create_xdmf(path, filename, infou, infop, h);
             }
 
             PetscFunctionReturn(0);
-- 
2.43.0


From c07f86a16e30f5c8c384880d5c6a86edf6ba9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 09/37] fix: quaternion::normalize divides by the norm, not by
 its square

---
 cafes/particle/geometry/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/quaternion.hpp b/cafes/particle/geometry/quaternion.hpp
index 7d2e35a..7abad25 100644
--- a/cafes/particle/geometry/quaternion.hpp
+++ b/cafes/particle/geometry/quaternion.hpp
@@ -90,7 +90,7 @@ namespace cafes
       void normalize()
       {
         auto norm = std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.);
-        components_ /= norm;
+        components_ /= std::sqrt(norm);
       }
 
       quaternion conj() const
-- 
2.43.0


From 2bada4a514eeec524e28498dbe9259526becd8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 10/37] fix: linspace of a single point is the first point, not
 NaN

---
 cafes/particle/geometry/linspace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/linspace.hpp b/cafes/particle/geometry/linspace.hpp
index b41c7a1..a03872a 100644
--- a/cafes/particle/geometry/linspace.hpp
+++ b/cafes/particle/geometry/linspace.hpp
@@ -44,7 +44,7 @@ namespace cafes
         std::vector<double> that;
         that.reserve(num);
         int ns = (include_end)? num - 1: num;
-        double step = (end - beg)/ns;
+        double step = (ns > 0)? (end - beg)/ns: 0.;
 
         for(size_t i=0; i<num; ++i)
             that.push_back(beg + i*step);
-- 
2.43.0


From 7efe086e9b98113168a2e8817d74531f4e989e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 11/37] fix: check_box_inside tests every direction

---
 cafes/particle/geometry/box.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cafes/particle/geometry/box.hpp b/cafes/particle/geometry/box.hpp
index ac19c58..e2d5946 100644
--- a/cafes/particle/geometry/box.hpp
+++ b/cafes/particle/geometry/box.hpp
@@ -232,14 +232,8 @@ namespace cafes
     bool check_box_inside(box<T, Dimensions> const& b1, box<T, Dimensions> const& b2)
     // check if a part of box b2 is inside the box b1
     {
-      int count = 0;
-      for(std::size_t i=0; i<Dimensions; ++i){
-        if (b2.bottom_left[i] >= b1.bottom_left[i] && b2.bottom_left[i] <= b1.upper_right[i])
-          count++;
-        if (b2.upper_right[i] >= b1.bottom_left[i] && b2.upper_right[i] <= b1.upper_right[i])
-          count++;
-      }
-      return (count>0)?true:false;
+      // the boxes must meet in every direction
+      return intersect(b1, b2);
     }
 
   }
-- 
2.43.0


From e880b56539878c8910578b0855f6d263df3111ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 12/37] fix: parametric points and 3D membership follow the
 orientation of the shape

---
 cafes/particle/geometry/super_ellipsoid.hpp | 40 ++++++++++++---------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index e9adf10..da0068d 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -268,37 +268,34 @@ namespace cafes
         position_type at(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) + center_[0]
-                  , shape_factors_[1] * s(u,n_) + center_[1]
-                  };
+          position_type that{radial(u)};
+          return that += center_;
         }
 
         position_type radial(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) 
-                  , shape_factors_[1] * s(u,n_) 
-                  };
+          return oriented({ shape_factors_[0] * c(u,n_) 
+                          , shape_factors_[1] * s(u,n_) 
+                          });
         }
 
         position_type at(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_) + center_[0]
-                  , shape_factors_[1] * c(v,n_) * s(u,e_) + center_[1]
-                  , shape_factors_[2] * s(v,n_) + center_[2]
-                  };
+          position_type that{radial(u, v)};
+          return that += center_;
         }
 
         position_type radial(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_)
-                  , shape_factors_[1] * c(v,n_) * s(u,e_)
-                  , shape_factors_[2] * s(v,n_) 
-                  };
+          return oriented({ shape_factors_[0] * c(v,n_) * c(u,e_)
+                          , shape_factors_[1] * c(v,n_) * s(u,e_)
+                          , shape_factors_[2] * s(v,n_) 
+                          });
         }
 
         double implicit(position_type const& p) const
@@ -313,6 +310,12 @@ namespace cafes
 
         private:
 
+        // from the frame of the shape to the one of the domain
+        position_type oriented(position_type const& p) const
+        {
+          return q_.is_rotate()? q_.rotate(p): p;
+        }
+
         double implicit(position_type const& p, int_<2> const&) const
         {
            auto r = 2./n_;
@@ -328,13 +331,16 @@ namespace cafes
            auto r1 = 2./n_;
            auto r2 = e_/n_;
            auto r3 = 2./e_;
+           position_type pos = p-center_;
+           if (q_.is_rotate())
+            pos = q_.conj().rotate(pos);
 
-           return std::pow( std::pow( std::abs((p[0]-center_[0])/shape_factors_[0]), r3)
-                          + std::pow( std::abs((p[1]-center_[1])/shape_factors_[1]), r3)
+           return std::pow( std::pow( std::abs(pos[0]/shape_factors_[0]), r3)
+                          + std::pow( std::abs(pos[1]/shape_factors_[1]), r3)
                           , r2
                           )
 
-                + std::pow( std::abs((p[2]-center_[2])/shape_factors_[2]), r1);
+                + std::pow( std::abs(pos[2]/shape_factors_[2]), r1);
         }
 
         static double c(double w, double m)
-- 
2.43.0


From 70e81a39c35d445e34692b3694370ade57265eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 13/37] fix: 3D surface sampling stays on the shape, keeps
 valid iterators and returns each point once

---
 cafes/particle/geometry/super_ellipsoid.hpp  | 14 ++++++++++----
 cafes/particle/geometry/uniform_sampling.hpp | 14 ++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index da0068d..eeec9ae 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -218,8 +218,9 @@ namespace cafes
         {
             std::vector<position_type> that;
             double omega1 = 0., omega2 = 0.;
-            double eps1 = n_;
-            double eps2 = e_;
+            // same exponents as the parametric representation: e_ around the third axis, n_ along it
+            double eps1 = e_;
+            double eps2 = n_;
 
             while (omega1 < M_PI/4){
               auto z1 = shape_factors_[2]*std::pow(std::sin(omega1), eps2);
@@ -240,8 +241,13 @@ namespace cafes
               that.insert(that.end(), temp2.cbegin(), temp2.cend());
 
             }
-            std::for_each(that.begin(), that.end(),[&](auto& p){that.push_back({p[0], p[1], -p[2]});});
-            std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
+            // the other half, without a second copy of the equator
+            auto size = that.size();
+            that.reserve(2*size);
+            for(std::size_t i=0; i<size; ++i)
+              if (that[i][2] != 0)
+                that.push_back({that[i][0], that[i][1], -that[i][2]});
+            std::for_each(that.begin(), that.end(),[&](auto& p){ p = oriented(p); p += center_;});
             return that;
         }
 
diff --git a/cafes/particle/geometry/uniform_sampling.hpp b/cafes/particle/geometry/uniform_sampling.hpp
index 763801a..01773ab 100644
--- a/cafes/particle/geometry/uniform_sampling.hpp
+++ b/cafes/particle/geometry/uniform_sampling.hpp
@@ -107,17 +107,19 @@ namespace cafes
       std::vector<double> save_eta;
       double eta = 0.;
 
+      // the ring is reduced to the pole
+      if (phi == 0){
+        that.push_back({0., 0., z});
+        return that;
+      }
+
       while (eta < M_PI/4){
         save_eta.push_back(eta);
         auto x = r[0]*std::pow(std::cos(eta), eps)*phi;
         auto y = r[1]*std::pow(std::sin(eta), eps)*phi;    
 
-        if (phi == 0)
-          eta = M_PI/4;
-        else{
-          auto update_eta = theta(phi, phi, eta, eps, k, tol);
-          eta += update_eta;
-        }
+        auto update_eta = theta(phi, phi, eta, eps, k, tol);
+        eta += update_eta;
 
         // FIX THIS !!!
         //that.push_back({x, y}, {-x, y}, {x, -y}, {-x, -y});
-- 
2.43.0


From 3a08fecf4d2f100cbd96b1761eb08eeeb27d68a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 14/37] fix: 2D triangulation returns the Delaunay triangles
 only, and all of them

---
 cafes/particle/geometry/triangulation.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cafes/particle/geometry/triangulation.hpp b/cafes/particle/geometry/triangulation.hpp
index 319d2b4..2e7477a 100644
--- a/cafes/particle/geometry/triangulation.hpp
+++ b/cafes/particle/geometry/triangulation.hpp
@@ -56,11 +56,11 @@ namespace cafes
       }
 
       qhull.runQhull("", 2, points.size(), coords.data(), "d Qt Qbb Qz Qc");
-      triangles.resize(qhull.facetCount());
 
-      std::size_t ind = 0;
       for(auto &f: qhull.facetList()){
-        if (f.isTriCoplanar()){
+        // the lower facets are the Delaunay triangles
+        if (!f.isUpperDelaunay()){
+          std::array<int, 3> triangle;
           orgQhull::QhullVertexSet ps= f.vertices();
 
           orgQhull::QhullVertexSetIterator i = ps;
@@ -68,9 +68,9 @@ namespace cafes
           while(i.hasNext()){
               const orgQhull::QhullVertex v= i.next();
               const orgQhull::QhullPoint p= v.point();
-              triangles[ind][ns++] = p.id();
+              triangle[ns++] = p.id();
           }
-          ind++;
+          triangles.push_back(triangle);
         }
       }
       return triangles;
-- 
2.43.0


From 4beab7c8232960f086514f93b75e07ba65a94921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 15/37] fix: surface samples on the diagonal of a quadrant are
 returned once

---
 cafes/particle/geometry/super_ellipsoid.hpp  |  7 ++++++-
 cafes/particle/geometry/uniform_sampling.hpp | 13 +++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index eeec9ae..3b952fb 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -222,7 +222,7 @@ namespace cafes
             double eps1 = e_;
             double eps2 = n_;
 
-            while (omega1 < M_PI/4){
+            while (omega1 < M_PI/4 - on_diagonal){
               auto z1 = shape_factors_[2]*std::pow(std::sin(omega1), eps2);
               auto phi1 = std::pow(std::cos(omega1), eps2);
 
@@ -241,6 +241,11 @@ namespace cafes
               that.insert(that.end(), temp2.cbegin(), temp2.cend());
 
             }
+            if (omega1 <= M_PI/4 + on_diagonal){
+              auto temp = uniform_sampling(shape_factors_, eps1, k[0], shape_factors_[2]*std::pow(std::sin(M_PI/4), eps2),
+                                           std::pow(std::cos(M_PI/4), eps2), tol);
+              that.insert(that.end(), temp.cbegin(), temp.cend());
+            }
             // the other half, without a second copy of the equator
             auto size = that.size();
             that.reserve(2*size);
diff --git a/cafes/particle/geometry/uniform_sampling.hpp b/cafes/particle/geometry/uniform_sampling.hpp
index 01773ab..970b299 100644
--- a/cafes/particle/geometry/uniform_sampling.hpp
+++ b/cafes/particle/geometry/uniform_sampling.hpp
@@ -56,6 +56,9 @@ namespace cafes
     }
 
 
+    // a sample this close to the diagonal of the quadrant is its own mirror image
+    static constexpr double on_diagonal = 1e-10;
+
     template<std::size_t Dimensions>
     std::vector<position<double, Dimensions>> uniform_sampling(std::array<double, Dimensions> r, 
                                                           double const& eps, double const& k, 
@@ -65,7 +68,7 @@ namespace cafes
       std::vector<double> save_eta;
       double eta = 0.;
 
-      while (eta < M_PI/4){
+      while (eta < M_PI/4 - on_diagonal){
         save_eta.push_back(eta);
         auto x = r[0]*std::pow(std::cos(eta), eps);
         auto y = r[1]*std::pow(std::sin(eta), eps);    
@@ -75,6 +78,9 @@ namespace cafes
 
         that.push_back({x, y});
       }
+      if (eta <= M_PI/4 + on_diagonal)
+        that.push_back({r[0]*std::pow(std::cos(M_PI/4), eps), r[1]*std::pow(std::sin(M_PI/4), eps)});
+
       auto func = [&](auto eta){
         auto x = r[0]*std::pow(std::sin(eta), eps);
         auto y = r[1]*std::pow(std::cos(eta), eps);
@@ -113,7 +119,7 @@ namespace cafes
         return that;
       }
 
-      while (eta < M_PI/4){
+      while (eta < M_PI/4 - on_diagonal){
         save_eta.push_back(eta);
         auto x = r[0]*std::pow(std::cos(eta), eps)*phi;
         auto y = r[1]*std::pow(std::sin(eta), eps)*phi;    
@@ -125,6 +131,9 @@ namespace cafes
         //that.push_back({x, y}, {-x, y}, {x, -y}, {-x, -y});
         that.push_back({x, y, z});
       }
+      if (eta <= M_PI/4 + on_diagonal)
+        that.push_back({r[0]*std::pow(std::cos(M_PI/4), eps)*phi, r[1]*std::pow(std::sin(M_PI/4), eps)*phi, z});
+
       auto func = [&](auto eta){
         auto x = r[0]*std::pow(std::sin(eta), eps)*phi;
         auto y = r[1]*std::pow(std::cos(eta), eps)*phi;
-- 
2.43.0


From eb323b86b6c1b3b4d4102f0bbd0fb8a5d2ae07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 16/37] fix: Dirichlet-to-Neumann residual subtracts the rigid
 motion V + w x r

---
 cafes/problem/particle_operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cafes/problem/particle_operator.hpp b/cafes/problem/particle_operator.hpp
index a43f14a..1b06558 100644
--- a/cafes/problem/particle_operator.hpp
+++ b/cafes/problem/particle_operator.hpp
@@ -143,7 +143,8 @@ namespace cafes
       for(auto& rpts: r)
       {
         for(std::size_t i=0; i<rpts.size(); ++i){
-          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
+          g[ipart][i] -= geometry::vector<double, Dimensions>(particles[ipart].velocity_);
+          g[ipart][i] -= geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
         }
         ipart++;
       }
-- 
2.43.0


From 84b607c83cfb279985d19681a13969bcb9503b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 17/37] fix: adding a velocity to a vector adds, velocity minus
 vector keeps its sign

---
 cafes/particle/geometry/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/vector.hpp b/cafes/particle/geometry/vector.hpp
index 34c3d4b..3668f8b 100644
--- a/cafes/particle/geometry/vector.hpp
+++ b/cafes/particle/geometry/vector.hpp
@@ -117,7 +117,7 @@ namespace cafes
 
       vector& operator+=(physics::velocity<Dimensions> const& v)
       {
-          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] -= v[i];
+          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] += v[i];
           return *this;
       }
 
@@ -176,8 +176,8 @@ namespace cafes
                                    , vector<T, Dimensions> const& p
                                   )
     {
-        vector<T, Dimensions> that{p};
-        return that -= v;
+        vector<T, Dimensions> that{v};
+        return that -= p;
     }
 
     template<typename T, std::size_t Dimensions>
-- 
2.43.0


From c7eca37c398cab2e591d0e002f4b37571acefb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 18/37] fix: surface points left of or below the domain are not
 put in its first cells

---
 cafes/particle/particle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index b02681a..9d03372 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -152,7 +152,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = geometry::floor(surf_p[i]/h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(std::make_pair(surf_pi, surf_p[i] - surf_pi*h));
         }
@@ -170,7 +170,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = geometry::floor(surf_p[i]/h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(surf_p[i] - center);
         }
-- 
2.43.0


From 430279ae6bffc659944dc44a2c5f24fbd87fd78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 19/37] fix: total force and torque of a control are its volume
 integrals

---
 cafes/particle/forces_torques.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 7d80856..95e1a56 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -74,6 +74,9 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
+      // number of control points of each particle (all processes)
+      std::vector<int> control_size(particles.size(), 0);
+
       std::size_t icontrol = 0;
       PetscScalar const *pcontrol;
       ierr = VecGetArrayRead(control, &pcontrol);CHKERRQ(ierr);
@@ -87,6 +90,7 @@ namespace cafes
         if (geometry::intersect(box, pbox)){
           auto new_box = geometry::overlap_box(box, pbox);
           auto pts = find_fluid_points_insides(p, new_box, h);
+          control_size[ipart] = pts.size();
           for(auto& ind: pts){
             std::array<double, Dimensions> g;
             for(std::size_t d=0; d<Dimensions; ++d){
@@ -96,13 +100,20 @@ namespace cafes
             set_torques(torques, ipart, p.center_, ind, g, h);
           }       
         }
-        forces[ipart] *= p.volume()/integration_points_size[ipart];
-        torques[ipart] *= p.volume()/integration_points_size[ipart]; 
       }
       ierr = VecRestoreArrayRead(control, &pcontrol);CHKERRQ(ierr);
 
       MPI_Allreduce(MPI_IN_PLACE, forces.data(), forces.size()*Dimensions, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
       MPI_Allreduce(MPI_IN_PLACE, torques.data(), torques.size()*(Dimensions==2?1:3), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
+      MPI_Allreduce(MPI_IN_PLACE, control_size.data(), control_size.size(), MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
+
+      // volume integral of the control: the volume of the particle times the mean over its control points
+      for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
+        if (control_size[ipart] > 0)
+        {
+          forces[ipart] *= particles[ipart].volume()/control_size[ipart];
+          torques[ipart] *= particles[ipart].volume()/control_size[ipart];
+        }
 
       if (compute_singularity)
       {
-- 
2.43.0


From 4b8093ec79078b938ee7d86f38a15af03c3d775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 20/37] fix: truncation function is one on its plateau and its
 derivatives vanish there

The chained comparisons 0<=X2<l-eps compared a bool with l-eps, the plateau
value of the derivatives was 1, and the fourth derivative of alpha missed a
factor X.
---
 cafes/particle/singularity/truncation.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cafes/particle/singularity/truncation.hpp b/cafes/particle/singularity/truncation.hpp
index 67408db..f2623ef 100644
--- a/cafes/particle/singularity/truncation.hpp
+++ b/cafes/particle/singularity/truncation.hpp
@@ -99,7 +99,7 @@ namespace cafes
       X2 = X*X;
       X4 = X2*X2;
 
-      return 15120/128.0*(7*X4-10*X2+3);
+      return 15120/128.0*X*(7*X4-10*X2+3);
     }
 
    PetscScalar chiTrunc(PetscReal X, PetscReal l, PetscReal eps)
@@ -108,7 +108,7 @@ namespace cafes
 
      double X2 = X*X;
 
-     if(0<=X2<l-eps)
+     if(X2<l-eps)
        return 1;
      else 
        if(l-eps<=X2 && X2<l+eps)
@@ -124,8 +124,8 @@ namespace cafes
      double X2 = X*X;
      X = sqrt(X2); //on veut la norme
 
-     if(0<=X2<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -X/eps*dalphaTrunc((X2-l)/eps) ;
        return - dalphaTrunc((X2-l)/eps)/eps/2.;
@@ -140,8 +140,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -2*X2/eps/eps*d2alphaTrunc((X2-l)/eps) - dalphaTrunc((X2-l)/eps)/eps;
        return - d2alphaTrunc((X2-l)/eps)/eps/eps/2.;
@@ -156,8 +156,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d3alphaTrunc((X2-l)/eps)/eps/eps/eps/2.;
@@ -171,8 +171,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d4alphaTrunc((X2-l)/eps)/eps/eps/eps/eps/2.;
-- 
2.43.0


From ba1ad322e2fdb5cc4960bdfdf617a969c4a82546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 21/37] fix: 2D normal near-contact velocity is the one its
 gradient describes

ux differentiated the truncation function with respect to r where dchiTrunc
and d2chiTrunc are derivatives with respect to r*r: the field was not
divergence free and differed from its stated gradient.
---
 cafes/particle/singularity/UandPNormal.hpp | 100 ++-------------------
 1 file changed, 9 insertions(+), 91 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 623c57d..b658aca 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -82,100 +82,18 @@ namespace cafes
     //Attention : r cordonnee radial, donc z en 2D et donc z = x .....
     PetscScalar ux_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
     {
-      double mu = 1;
       double r  = X[1];
       double z  = X[0];
 
-      double t1 = r * r;
-      double t2 = H * t1;
-      double t3 = M * a;
-      double t4 = z * z;
-      double t5 = t3 * t4;
-      double t8 = a * a;
-      double t9 = t8 * M;
-      double t10 = t9 * z;
-      double t13 = t1 * t1;
-      double t14 = H * t13;
-      double t15 = M * M;
-      double t16 = t15 * a;
-      double t17 = t16 * z;
-      double t20 = H * H;
-      double t21 = t20 * t13;
-      double t22 = t3 * z;
-      double t31 = t15 * t1;
-      double t32 = a * t4;
-      double t35 = t13 * t1;
-      double t36 = H * t35;
-      double t37 = t15 * M;
-      double t41 = t20 * t1;
-      double t45 = t20 * H;
-      double t46 = t45 * t13;
-      double t51 = t45 * t35;
-      double t55 = t20 * t35;
-      double t59 = t15 * t15;
-      double t61 = t13 * t13;
-      double t64 = t8 * t45;
-      double t67 = t20 * t20;
-      double t68 = a * t67;
-      double t71 = t8 * a;
-      double t74 = t15 * t61;
-      double t89 = -24 * t51 * M * z - 48 * t55 * t15 * z - 5 * H * t59 * t61 + 96 * t64 * t13 + 8 * t68 * t35 - 32 * t41 * t71 + 4 * t74 * t45 - 4 * t37 * t61 * t20 + 5 * M * t61 * t67 - 32 * t71 * t15 * t1 - 24 * t8 * t37 * t13;
-      double t94 = t4 * z;
-      double t99 = H * a;
-      double t100 = t99 * t94;
-      double t102 = t3 * t94;
-      double t109 = H * t8;
-      double t110 = t109 * t4;
-      double t112 = t9 * t4;
-      double t114 = t8 * t8;
-      double t118 = t67 * H;
-      double t126 = a * t20;
-      double t133 = M * t1;
-      double t136 = t15 * t13;
-      double t139 = t37 * t35;
-      double t147 = t118 * t61 - 16 * M * t114 - t59 * M * t61 + 56 * t3 * t51 + 24 * t126 * t35 * t15 + 48 * t21 * t9 - 64 * H * t71 * t133 - 72 * t109 * t136 - 32 * t99 * t139 + 320 * t2 * M * t94 - 384 * t41 * t32;
-      double t155 = pow((2 * a + t133 + t2), 2);
-      double t156 = t155 * t155;
-      double t158 = 1. / (H + M) / t156;
-      double t159 = chiTrunc(r, l, eps);
-      double t162 = d2chiTrunc(r, l, eps);
-      double t163 = t162 * t13;
-      double t166 = t61 * t1;
-      double t167 = t162 * t166;
-      double t168 = t3 * t45;
-      double t173 = t162 * t35;
-      double t174 = H * M;
-      double t175 = t174 * t94;
-      double t186 = t162 * t61;
-      double t212 = t45 * t61;
-      double t226 = 128 * t163 * t102 - 56 * t167 * t168 + 128 * t163 * t100 + 64 * t173 * t175 - 144 * t173 * t16 * t4 - 36 * t167 * t16 * t20 - 288 * t163 * t112 - 72 * t186 * t9 * t20 + 48 * t173 * t126 * t4 - 96 * t163 * t110 + 24 * t186 * t20 * M * t4 - 24 * t186 * H * t15 * t4 - 192 * t14 * t162 * t71 * z - 24 * H * t166 * t162 * t37 * z - 48 * t212 * t162 * a * z - 192 * t55 * t162 * t8 * z - 24 * t45 * t166 * t162 * M * z;
-      double t232 = dchiTrunc(r, l, eps);
-      double t233 = t232 * t1;
-      double t236 = t232 * t13;
-      double t241 = t232 * t61;
-      double t244 = t232 * t8;
-      double t245 = t244 * t4;
-      double t250 = t232 * t166;
-      double t251 = t67 * M;
-      double t256 = t20 * t94;
-      double t259 = t15 * t94;
-      double t262 = t15 * t45;
-      double t265 = t232 * t4;
-      double t274 = t232 * t71;
-      double t280 = t162 * t61 * t13;
-      double t283 = -48 * t20 * t166 * t162 * t15 * z - 192 * t233 * t100 - 224 * t236 * t175 - 192 * t233 * t102 - 12 * t241 * t168 + 432 * t2 * t245 + 6 * t241 * t68 + 5 * t250 * t251 - 52 * t244 * t51 - 112 * t236 * t256 - 112 * t236 * t259 + 7 * t250 * t262 - 60 * t51 * t265 + 60 * t139 * t265 + 3 * t37 * t166 * t232 * t20 - 120 * t274 * t21 - 20 * t167 * t68 - 10 * t280 * t251;
-      double t285 = t162 * t1;
-      double t323 = H * t61;
-      double t330 = 128 * t285 * t8 * t94 - 56 * t186 * t64 + 32 * t173 * t259 - 14 * t280 * t262 + 32 * t173 * t256 - 192 * t285 * t71 * t4 - 48 * t173 * t71 * t20 - 24 * t186 * t37 * t4 - 6 * t280 * t37 * t20 + 24 * t186 * t45 * t4 + 64 * t244 * t94 - 96 * t274 * t4 + t250 * t118 - 2 * t280 * t118 - 96 * t173 * a * t174 * t4 - 144 * t323 * t162 * t17 - 288 * t36 * t162 * t10;
-      double t331 = t20 * t61;
-      double t339 = t244 * z;
-      double t343 = t232 * a;
-      double t344 = t343 * z;
-      double t350 = t343 * t4;
-      double t353 = t232 * t15;
-      double t357 = t232 * M;
-      double t389 = -192 * t331 * t162 * t22 + 336 * t14 * t232 * t5 - 144 * t14 * M * t339 + 72 * t36 * t15 * t344 + 192 * t55 * t232 * t22 + 120 * t21 * t350 + 60 * t36 * t353 * t4 - 60 * t55 * t357 * t4 + 144 * t133 * t245 - 108 * M * t35 * t244 * t20 + 216 * t136 * t350 - 18 * t74 * t343 * t20 + 36 * t323 * t37 * t232 * z + 96 * t21 * t339 + 120 * t51 * t344 + 72 * t331 * t353 * z + 36 * t212 * t357 * z - 288 * t2 * t274 * z;
-      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + U * (t226 + t283 + t330 + t389) * t158 / 2;
+      // width of the gap (times two) and relative height in it (0 on the first particle, 1/2 on the second one)
+      double r2 = r * r;
+      double D  = 2 * a + M * r2 + H * r2;
+      double q  = (z + .5 * H * r2) / D;
+
+      double A  = -.5 + 12 * q * q - 16 * q * q * q + 24 * r2 * q * (1 - 2 * q) * (H - 2 * (H + M) * q) / D;
+      double B  = 8 * r2 * q * q * (3 - 4 * q);
+
+      return U * (A * chiTrunc(r, l, eps) + B * dchiTrunc(r, l, eps));
     }
 
     PetscScalar dzuz_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 1c097db4c5f8c5439729665a1456fe45d7ea3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 22/37] fix: gradient of the 3D near-contact fields on the axis
 of the gap

On the axis the gradient was reported as zero where it is the limit of the
radial derivatives; the divergence did not vanish there.
---
 cafes/particle/singularity/UandPNormal.hpp | 4 ++--
 cafes/particle/singularity/UandPTang.hpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index b658aca..437dde9 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -657,7 +657,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dyux_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
@@ -704,7 +704,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dzuy_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
diff --git a/cafes/particle/singularity/UandPTang.hpp b/cafes/particle/singularity/UandPTang.hpp
index 08851ea..9477bc9 100644
--- a/cafes/particle/singularity/UandPTang.hpp
+++ b/cafes/particle/singularity/UandPTang.hpp
@@ -1453,7 +1453,7 @@ namespace cafes
         return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[0]/r
           -    dtuz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[1]/r2;
       else
-        return 0;
+        return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param);
     }
 
     PetscScalar dyuz_sing_tangMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal d, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 54749048157f8e95f4a74e6de86fd06693c6cdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 23/37] fix: 3D near-contact field opens the gap at the
 velocity of particle 2 relative to particle 1

The field is +U/2 on the second particle and -U/2 on the first one, as in 2D
where U is v2-v1; in 3D U was v1-v2.
---
 cafes/particle/singularity/singularity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index b3c6929..f470dcb 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -216,7 +216,7 @@ namespace cafes
       {
         base_[2] = position_diff<Shape, Dimensions>(p2, p1)/distance<Shape, Dimensions>(p1, p2);
 
-        auto vel_diff = velocity_diff<Shape, Dimensions>(p1, p2);
+        auto vel_diff = velocity_diff<Shape, Dimensions>(p2, p1);
         vector_space_[2] = std::inner_product(vel_diff.begin(), vel_diff.end(), base_[2].begin(), 0.);
 
         auto vel_norm = std::inner_product(vel_diff.begin(), vel_diff.end(), vel_diff.begin(), 0.);
-- 
2.43.0


From 00f7c1513dd5618d62e49374b12c79efc20d5f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 24/37] fix: 3D near-contact frame is orthonormal

The tangential axis was not the tangential part of the relative velocity, and
the axis used without tangential motion was not orthogonal to the line of
centres.
---
 cafes/particle/singularity/singularity.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index f470dcb..364d83a 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -221,18 +221,19 @@ namespace cafes
 
         auto vel_norm = std::inner_product(vel_diff.begin(), vel_diff.end(), vel_diff.begin(), 0.);
 
-        if (vector_space_[2]*vector_space_[2] == vel_norm)
+        // dU - (dU.n)n
+        for(std::size_t d=0; d<3; ++d)
+          base_[0][d] = vel_diff[d] - vector_space_[2]*base_[2][d];
+
+        auto tang_norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
+
+        // no tangential motion (up to rounding): any direction orthogonal to n
+        if (tang_norm <= 1e-16*vel_norm)
         {
           base_[0][0]    = -sign(base_[2][2])*base_[2][2]
                            -sign(base_[2][1])*base_[2][1];
           base_[0][1]    =  sign(base_[2][1])*base_[2][0];
-          base_[0][2]    =  sign(base_[2][2])*base_[0][0];
-        }
-        else
-        {
-          // Check the formula to have dU - (dU.n)n ?
-          for(std::size_t d=0; d<3; ++d)
-            base_[0][d] = vel_diff[d]*(1 - base_[2][d]);
+          base_[0][2]    =  sign(base_[2][2])*base_[2][0];
         }
 
         auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
-- 
2.43.0


From efaeab62d3099e246db177f3730d4ff5b5ff708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 25/37] fix: adding the near-contact field to a solution keeps
 the contributions to nodes of other processes

---
 cafes/particle/singularity/add_singularity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 4799d7f..76b09e5 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -604,7 +604,7 @@ namespace cafes
             auto sol = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, vsol,
                                                     0, false);
 
-            ierr = sol.global_to_local(INSERT_VALUES);
+            ierr = sol.fill(0.);
             CHKERRQ(ierr);
 
             // Loop on particles couples
@@ -635,7 +635,7 @@ namespace cafes
                 }
             }
 
-            ierr = sol.local_to_global(INSERT_VALUES);
+            ierr = sol.local_to_global(ADD_VALUES);
             CHKERRQ(ierr);
 
             PetscFunctionReturn(0);
-- 
2.43.0


From de3763944cdc194e7fadba776e0f793dfa584a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 26/37] fix: near-contact forces are the surface integrals of
 the near-contact stress

In 2D the loop over the surface never ran, the force was not rotated to the
global frame and the second particle used the surface of the first one; in 3D
partial sums were accumulated again for every point. The singular forces were
added beyond the end of the array for every particle but the first.
---
 cafes/particle/forces_torques.hpp             |  2 +-
 .../particle/singularity/add_singularity.hpp  | 62 ++++++++++++-------
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 95e1a56..8431696 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -125,7 +125,7 @@ namespace cafes
         for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
         {
           for(std::size_t d=0; d<Dimensions; ++d)
-            forces[ipart*Dimensions][d] += sing_forces[ipart][d];
+            forces[ipart][d] += sing_forces[ipart][d];
           // TODO: add singular torques if needed
         }
       }
diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 76b09e5..eef7200 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -652,8 +652,10 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
+            int n = N;
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -663,7 +665,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -672,9 +674,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -690,8 +696,10 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
+            int n = N;
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -701,7 +709,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -710,9 +718,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -725,21 +737,25 @@ namespace cafes
             using position_type = geometry::position<double, 2>;
 
             double mu = 1.;
-            double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
+            double theta = std::asin(sing.cutoff_dist_ * sing.H2_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
+            int n = N;
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
                 std::array<std::array<double, 2>, 2> sigma;
 
-                position_type pos{(cos_t - 1.) / sing.H1_, sin_t / sing.H1_};
-                position_type normal{cos_t, sin_t};
+                position_type pos{sing.contact_length_ +
+                                      (1. - cos_t) / sing.H2_,
+                                  sin_t / sing.H2_};
+                position_type normal{-cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -748,9 +764,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
-                            theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
+                        force_ref[d1] +=
+                            theta / N / sing.H2_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -804,12 +824,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -863,12 +883,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From 28098a161b62bb4892a5fda228f0accc672d44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 27/37] fix: near-contact loops do nothing without particles

---
 cafes/particle/singularity/add_singularity.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index eef7200..c819c9b 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -546,7 +546,7 @@ namespace cafes
             // ctx.problem.rhs, 1, false); ierr = solp.fill(0.);CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -608,7 +608,7 @@ namespace cafes
             CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -906,7 +906,7 @@ namespace cafes
                 ctx.particles[ipart].force_.fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -947,7 +947,7 @@ namespace cafes
                 forces[ipart].fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < particles.size() - 1; ++ipart)
+            for (std::size_t ipart = 0; ipart + 1 < particles.size(); ++ipart)
             {
                 auto p1 = particles[ipart];
                 for (std::size_t jpart = ipart + 1; jpart < particles.size();
@@ -988,7 +988,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -1039,7 +1039,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
-- 
2.43.0


From 98fbce24e1de7da7876487d83bcf942a850e3618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 28/37] fix: near-contact samples stay between the two
 particles

---
 cafes/particle/singularity/add_singularity.hpp | 11 ++++++-----
 cafes/particle/singularity/singularity.hpp     | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index c819c9b..2849b8d 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -93,8 +93,7 @@ namespace cafes
                                 auto pos_ref_part =
                                     sing.get_pos_in_part_ref(pts);
 
-                                if (std::abs(pos_ref_part[1]) <=
-                                    sing.cutoff_dist_)
+                                if (sing.is_in_gap(pos_ref_part))
                                 {
                                     position_type pts_loc = {is * hs[0],
                                                              js * hs[1]};
@@ -234,7 +233,10 @@ namespace cafes
                                                          j * h[1] + js * hs[1],
                                                          k * h[2] + ks * hs[2]};
 
-                                    if (!p1.contains(pts) && !p2.contains(pts))
+                                    if (!p1.contains(pts) &&
+                                        !p2.contains(pts) &&
+                                        sing.is_in_gap(
+                                            sing.get_pos_in_part_ref(pts)))
                                     {
                                         position_type pts_loc = {
                                             is * hs[0], js * hs[1], ks * hs[2]};
@@ -461,8 +463,7 @@ namespace cafes
                                 auto pos_ref_part =
                                     sing.get_pos_in_part_ref(pts);
 
-                                if (std::abs(pos_ref_part[1]) <=
-                                    sing.cutoff_dist_)
+                                if (sing.is_in_gap(pos_ref_part))
                                 {
                                     position_type pts_loc = {is * hs[0],
                                                              js * hs[1]};
diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index 364d83a..1635f42 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -267,6 +267,20 @@ namespace cafes
         return pos_ref_part;
       }
 
+      // between the centers of the two particles and closer to the axis than the cut-off distance
+      bool is_in_gap(position_type const& pos_ref_part) const
+      {
+        const std::size_t axis = 2*Dimensions-4;
+        double r2 = 0.;
+        for(std::size_t d=0; d<Dimensions; ++d)
+          if (d != axis)
+            r2 += pos_ref_part[d]*pos_ref_part[d];
+
+        return pos_ref_part[axis] >= -1./H1_
+            && pos_ref_part[axis] <= contact_length_ + 1./H2_
+            && r2 <= cutoff_dist_*cutoff_dist_;
+      }
+
       auto get_pos_from_part_ref(position_type const& pos_ref)
       {
         position_type pos;
-- 
2.43.0


From 908319093607183dbced32cfcc97d5adf3a8cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 29/37] fix: the last solve of the smooth extension starts from
 an empty load

The surface load of the last operator application was still in the
right-hand side, to which the control and the forces are added.
---
 cafes/problem/sem.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 28cd267..4a42c5f 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -198,6 +198,8 @@ namespace cafes
         ierr = KSPSolve(ksp, rhs, sol);CHKERRQ(ierr);
 
         // solve the problem with the right control
+        ierr = VecSet(ctx->problem.rhs, 0.);CHKERRQ(ierr);
+
         ctx->compute_rhs = true;
         ierr = init_problem<Dimensions, Ctx>(*ctx, sol, true);CHKERRQ(ierr);
         ierr = ctx->problem.solve();CHKERRQ(ierr);
-- 
2.43.0


From bcc479e93d63afe5d1dff71fef80abbb5d3e5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 30/37] fix: three-dimensional Stokes problems did not compile

The matrix-free 3D problem could not be built because the assembling
routines only exist in 2D: give them 3D overloads that report it.
---
 cafes/fem/assembling.hpp | 36 ++++++++++++++++++++++++++++++++++++
 cafes/fem/bc.hpp         |  6 ++++++
 2 files changed, 42 insertions(+)

diff --git a/cafes/fem/assembling.hpp b/cafes/fem/assembling.hpp
index ed63c33..9588e06 100644
--- a/cafes/fem/assembling.hpp
+++ b/cafes/fem/assembling.hpp
@@ -601,5 +601,41 @@ namespace cafes
 
         return ierr;
     }
+
+    // the assembled matrices are only available in 2D
+    inline PetscErrorCode laplacian_assembling(DM &, Mat &,
+                                               const std::array<double, 3> &)
+    {
+        SETERRABORT(PETSC_COMM_WORLD, PETSC_ERR_SUP,
+                    "assembling is only available in 2D");
+    }
+
+    inline PetscErrorCode mass_assembling(DM &, Mat &,
+                                          const std::array<double, 3> &)
+    {
+        SETERRABORT(PETSC_COMM_WORLD, PETSC_ERR_SUP,
+                    "assembling is only available in 2D");
+    }
+
+    inline void strain_tensor_assembling(DM &, Mat &,
+                                         const std::array<double, 3> &)
+    {
+        SETERRABORT(PETSC_COMM_WORLD, PETSC_ERR_SUP,
+                    "assembling is only available in 2D");
+    }
+
+    template<>
+    inline void diagonal_assembling<3>(DM &, Mat &, double)
+    {
+        SETERRABORT(PETSC_COMM_WORLD, PETSC_ERR_SUP,
+                    "assembling is only available in 2D");
+    }
+
+    inline PetscErrorCode B_BT_assembling(DM &, Mat &,
+                                          const std::array<double, 3> &)
+    {
+        SETERRABORT(PETSC_COMM_WORLD, PETSC_ERR_SUP,
+                    "assembling is only available in 2D");
+    }
 } // namespace cafes
 #endif
\ No newline at end of file
diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index 7aebd9a..e9bc0fa 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -284,6 +284,12 @@ namespace cafes
       PetscFunctionReturn(0);
     }
 
+    // the assembled matrices are only available in 2D
+    inline PetscErrorCode set_dirichlet_on_mat_impl(Mat&, dirichlet_conditions<3>)
+    {
+      SETERRABORT(PETSC_COMM_WORLD, PETSC_ERR_SUP, "assembling is only available in 2D");
+    }
+
     #undef __FUNCT__
     #define __FUNCT__ "SetDirichletOnMat"
     template<std::size_t Dimensions>
-- 
2.43.0


From e216a0e56aa12ffb013d1740bbd999b398d5f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 31/37] fix: the Dirichlet-to-Neumann problem of spheres did
 not compile

The correction of the solution with the singular velocities only exists
in 2D: give it a 3D overload that reports it.
---
 cafes/particle/singularity/add_singularity.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 2849b8d..46d18b2 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -422,6 +422,18 @@ namespace cafes
             PetscFunctionReturn(0);
         }
 
+        // the correction of the solution is only available in 2D
+        template<typename Shape>
+        PetscErrorCode
+        addsingularity(singularity<Shape, 3>, particle<Shape> const &,
+                       particle<Shape> const &, petsc::petsc_vec<3> &,
+                       geometry::box<int, 3>, std::array<double, 3> const &)
+        {
+            PetscFunctionBeginUser;
+            SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_SUP,
+                    "singular velocities are only added to 2D solutions");
+        }
+
 #undef __FUNCT__
 #define __FUNCT__ "addsingularity"
         template<typename Shape>
-- 
2.43.0


From 6dbf18247fcd2bbf76546cbb70ff29c284ddf1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:02 +0000
Subject: [PATCH 32/37] fix: multigrid smoothers used CG on non-symmetric
 operators and could break down

---
 cafes/problem/stokes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index e50e314..412598d 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -153,7 +153,7 @@ namespace cafes
                 PC pcsmoother;
                 ierr = PCMGGetSmoother(pc_i, i, &smoother);CHKERRQ(ierr);
                 // the operators of the levels are not symmetric (Dirichlet rows only)
-                ierr = KSPSetType(smoother, i == 0 ? KSPGMRES : KSPCG);CHKERRQ(ierr);
+                ierr = KSPSetType(smoother, KSPGMRES);CHKERRQ(ierr);
                 ierr = KSPGetPC(smoother, &pcsmoother);CHKERRQ(ierr);
                 ierr = PCSetType(pcsmoother, PCJACOBI);CHKERRQ(ierr);
             }
-- 
2.43.0


From a42dae997347d7f33513c1313d10fdfd8561e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:40 +0000
Subject: [PATCH 33/37] fix: Dirichlet rows of the assembled matrices ignored
 which sides and components have data

---
 cafes/fem/bc.hpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index e9bc0fa..fa6ef3a 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -191,7 +191,6 @@ namespace cafes
       DMDALocalInfo  info;
       IS is;
 
-      // warning: we assume that both u and v on a border have a Dirichlet condition
       DM dm, dmcomposite;
       ierr = MatGetDM(A, &dmcomposite);CHKERRQ(ierr);
       ierr = DMCompositeGetEntries(dmcomposite, &dm, PETSC_NULL);CHKERRQ(ierr);
@@ -212,14 +211,14 @@ namespace cafes
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
-        bc_id1[ind] = local_id;
-        bc_id1[ind + 1] = local_id + 1;
-        ind += 2;
+        for(d=0; d<info.dof; d++)
+          if (bc.conditions_[0][d])
+            bc_id1[ind++] = local_id + d;
       }
 
       if (bd_type[0] != DM_BOUNDARY_PERIODIC)
         if(info.xs == 0 && info.bx != DM_BOUNDARY_PERIODIC){
-          nbcs = 2*ny;
+          nbcs = ind;
         }
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
@@ -230,14 +229,14 @@ namespace cafes
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
-        bc_id1[ind] = local_id;
-        bc_id1[ind+1] = local_id + 1;
-        ind += 2;
+        for(d=0; d<info.dof; d++)
+          if (bc.conditions_[1][d])
+            bc_id1[ind++] = local_id + d;
       }
 
       if (bd_type[0] != DM_BOUNDARY_PERIODIC)
         if(info.xs + info.xm == info.mx && info.bx != DM_BOUNDARY_PERIODIC){
-          nbcs = 2*ny;
+          nbcs = ind;
         }
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
@@ -248,14 +247,14 @@ namespace cafes
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-        bc_id2[ind] = local_id;
-        bc_id2[ind+1] = local_id + 1;
-        ind += 2;
+        for(d=0; d<info.dof; d++)
+          if (bc.conditions_[2][d])
+            bc_id2[ind++] = local_id + d;
       }
 
       if (bd_type[1] != DM_BOUNDARY_PERIODIC)
         if(info.ys == 0 && info.by != DM_BOUNDARY_PERIODIC){
-          nbcs =  2*nx;
+          nbcs = ind;
         }
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id2, 1.0, NULL, NULL);CHKERRQ(ierr);
@@ -266,14 +265,14 @@ namespace cafes
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-        bc_id2[ind] = local_id;
-        bc_id2[ind+1] = local_id + 1;
-        ind += 2;
+        for(d=0; d<info.dof; d++)
+          if (bc.conditions_[3][d])
+            bc_id2[ind++] = local_id + d;
       }
 
       if (bd_type[1] != DM_BOUNDARY_PERIODIC)
         if(info.ys + info.ym == info.my && info.by != DM_BOUNDARY_PERIODIC){
-          nbcs = 2*nx;
+          nbcs = ind;
         }
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id2, 1.0, NULL, NULL);CHKERRQ(ierr);
-- 
2.43.0


From e6e26aa538a30b1dffc37511b8178a074e2b5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:40 +0000
Subject: [PATCH 34/37] fix: the pressure null space was attached to problems
 with an open side

---
 cafes/problem/stokes.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 412598d..639be88 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -278,7 +278,14 @@ namespace cafes
                     cafes::fem::SetDirichletOnMat(A, bc);
                     cafes::fem::SetDirichletOnMat(P, bc);
 
-                    CreatePressureNullSpace(mesh);
+                    // the pressure is free if the flow through all sides is given
+                    bool closed = true;
+                    for (std::size_t d = 0; d < Dimensions; ++d)
+                        if (!opt.xperiod[d])
+                            closed = closed && bc.conditions_[2 * d][d]
+                                            && bc.conditions_[2 * d + 1][d];
+                    if (closed)
+                        CreatePressureNullSpace(mesh);
                 }
                 else
                 {
-- 
2.43.0


From ecc95ed6a046afbab7a2f883a8027aead2efc66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:38 +0000
Subject: [PATCH 35/37] fix: the 2D VTK output declared the velocity as vectors
 but stored it as scalars

---
 cafes/io/vtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/io/vtk.hpp b/cafes/io/vtk.hpp
index 9031019..02a4660 100644
--- a/cafes/io/vtk.hpp
+++ b/cafes/io/vtk.hpp
@@ -140,7 +140,7 @@ namespace cafes
       pressureDataSet->GetPointData()->SetScalars(pressure);
 
       velocityDataSet->SetPoints(velocityPoints);
-      velocityDataSet->GetPointData()->SetScalars(velocity);
+      velocityDataSet->GetPointData()->SetVectors(velocity);
       
       vtkXMLStructuredGridWriter* pressureDataWriter = vtkXMLStructuredGridWriter::New();
       vtkXMLStructuredGridWriter* velocityDataWriter = vtkXMLStructuredGridWriter::New();
-- 
2.43.0


From a99b3d919c6d4c97a6bb204fdc0b729779211dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:38 +0000
Subject: [PATCH 36/37] fix: VTK index files of periodic meshes declared a
 whole extent smaller than their pieces

---
 cafes/io/vtk.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cafes/io/vtk.hpp b/cafes/io/vtk.hpp
index 02a4660..884695a 100644
--- a/cafes/io/vtk.hpp
+++ b/cafes/io/vtk.hpp
@@ -69,11 +69,20 @@
 #include <vtkSmartPointer.h>
 
 #include <array>
+#include <string>
 
 namespace cafes
 {
   namespace io
   {
+    // the nodes that the pieces of all the processes cover in one direction:
+    // each piece holds its ghost nodes, which are outside of the domain in a periodic direction
+    inline std::string whole_extent(PetscInt nodes, PetscInt ghosts, DMBoundaryType boundary)
+    {
+      PetscInt out = (boundary == DM_BOUNDARY_PERIODIC)? ghosts: 0;
+      return std::to_string(-out) + " " + std::to_string(nodes-1+out);
+    }
+
     #undef __FUNCT__
     #define __FUNCT__ "save_VTK"
     PetscErrorCode save_VTK(const char* path, const char* filename, Vec sol, DM dm, std::array<double, 2> h)
@@ -188,7 +197,7 @@ namespace cafes
         pvts.open(oall.str().data(), ios::out | ios::trunc);
         pvts << "<?xml version=\"1.0\"?>" << endl;
         pvts << "<VTKFile type=\"PStructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\" compressor=\"vtkZLibDataCompressor\">" << endl;
-        pvts << "<PStructuredGrid WholeExtent=\"0 " << infop.mx-1 << " 0 " << infop.my-1 << " 0 0\" GhostLevel=\"0\">";
+        pvts << "<PStructuredGrid WholeExtent=\"" << whole_extent(infop.mx, infop.sw, infop.bx) << " " << whole_extent(infop.my, infop.sw, infop.by) << " 0 0\" GhostLevel=\"0\">";
         pvts << "<PPoints>" << endl;
         pvts << "<PDataArray type=\"Float32\" Name=\"Points\" NumberOfComponents=\"3\"/>" << endl;
         pvts << "</PPoints>" << endl;
@@ -225,7 +234,7 @@ namespace cafes
         pvts.open(oall.str().data(), ios::out | ios::trunc);
         pvts << "<?xml version=\"1.0\"?>" << endl;
         pvts << "<VTKFile type=\"PStructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\" compressor=\"vtkZLibDataCompressor\">" << endl;
-        pvts << "<PStructuredGrid WholeExtent=\"0 " << infou.mx-1 << " 0 " << infou.my-1 << " 0 0\" GhostLevel=\"0\">";
+        pvts << "<PStructuredGrid WholeExtent=\"" << whole_extent(infou.mx, infou.sw, infou.bx) << " " << whole_extent(infou.my, infou.sw, infou.by) << " 0 0\" GhostLevel=\"0\">";
         pvts << "<PPoints>" << endl;
         pvts << "<PDataArray type=\"Float32\" Name=\"Points\" NumberOfComponents=\"3\"/>" << endl;
         pvts << "</PPoints>" << endl;
@@ -548,7 +557,7 @@ namespace cafes
         pvts.open(oall.str().data(), ios::out | ios::trunc);
         pvts << "<?xml version=\"1.0\"?>" << endl;
         pvts << "<VTKFile type=\"PStructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\" compressor=\"vtkZLibDataCompressor\">" << endl;
-        pvts << "<PStructuredGrid WholeExtent=\"0 " << infop.mx-1 << " 0 " << infop.my-1 << " 0 " << infop.mz-1 << "\" GhostLevel=\"0\">";
+        pvts << "<PStructuredGrid WholeExtent=\"" << whole_extent(infop.mx, infop.sw, infop.bx) << " " << whole_extent(infop.my, infop.sw, infop.by) << " " << whole_extent(infop.mz, infop.sw, infop.bz) << "\" GhostLevel=\"0\">";
         pvts << "<PPoints>" << endl;
         pvts << "<PDataArray type=\"Float32\" Name=\"Points\" NumberOfComponents=\"3\"/>" << endl;
         pvts << "</PPoints>" << endl;
@@ -580,7 +589,7 @@ namespace cafes
         pvts.open(oall.str().data(), ios::out | ios::trunc);
         pvts << "<?xml version=\"1.0\"?>" << endl;
         pvts << "<VTKFile type=\"PStructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\" compressor=\"vtkZLibDataCompressor\">" << endl;
-        pvts << "<PStructuredGrid WholeExtent=\"0 " << infou.mx-1 << " 0 " << infou.my-1 << " 0 " << infou.mz-1 << "\" GhostLevel=\"0\">";
+        pvts << "<PStructuredGrid WholeExtent=\"" << whole_extent(infou.mx, infou.sw, infou.bx) << " " << whole_extent(infou.my, infou.sw, infou.by) << " " << whole_extent(infou.mz, infou.sw, infou.bz) << "\" GhostLevel=\"0\">";
         pvts << "<PPoints>" << endl;
         pvts << "<PDataArray type=\"Float32\" Name=\"Points\" NumberOfComponents=\"3\"/>" << endl;
         pvts << "</PPoints>" << endl;
-- 
2.43.0


From 96b4d1ce616a85d84f290b79ce28d1f1ba3d5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:38 +0000
Subject: [PATCH 37/37] fix: saving spheres in VTK form without their loads
 dropped the third coordinate

---
 cafes/io/vtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/io/vtk.hpp b/cafes/io/vtk.hpp
index 884695a..a210c0b 100644
--- a/cafes/io/vtk.hpp
+++ b/cafes/io/vtk.hpp
@@ -737,7 +737,7 @@ namespace cafes
 
         std::size_t i = 0;
         for(auto& p: particles){
-          spheresPoints->SetPoint(i, p.center_[0], p.center_[1], 0.);
+          spheresPoints->SetPoint(i, p.center_[0], p.center_[1], (particle<Shape>::dimensions == 3)? p.center_[2]: 0.);
           shperesRadius->SetValue(i, p.shape_factors_[0]);
           i++;
         }
-- 
2.43.0

