From a474a0b8ef02841a56c5e2ef5638b75fdbfcb424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:08 +0000
Subject: [PATCH 01/92] fix: 2D inverse-distance land interpolation in SciPy
 mode tested the transposed land mask

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 56448a4..558861f 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -913,7 +913,7 @@ class Field(object):
                                 return 0
                             else:
                                 return self.data[ti, yi+j, xi+i]
-                        elif land[i][j] == 0:
+                        elif land[j][i] == 0:
                             val += self.data[ti, yi+j, xi+i] / distance
                             w_sum += 1 / distance
                 return val / w_sum
-- 
2.43.0


From b6f237c7c4c8a73f4c3dbdd8e0f9cd5dc1c1c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:08 +0000
Subject: [PATCH 02/92] fix: 3D inverse-distance land interpolation in SciPy
 mode swapped x and z at grid nodes

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 558861f..905a247 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -962,7 +962,7 @@ class Field(object):
                                 if land[k][j][i] == 1:  # index search led us directly onto land
                                     return 0
                                 else:
-                                    return self.data[ti, zi+i, yi+j, xi+k]
+                                    return self.data[ti, zi+k, yi+j, xi+i]
                             elif land[k][j][i] == 0:
                                 val += self.data[ti, zi+k, yi+j, xi+i] / distance
                                 w_sum += 1 / distance
-- 
2.43.0


From 392f61391d5eac6c6413d38901fe34559fd17c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 03/92] fix: SciPy curvilinear search treated flat meshes as
 spherical when reconnecting boundary indices

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 905a247..a55d78d 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -847,7 +847,7 @@ class Field(object):
                 yi -= 1
             elif eta > 1+tol:
                 yi += 1
-            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh)
+            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh == 'spherical')
             it += 1
             if it > maxIterSearch:
                 print('Correct cell not found after %d iterations' % maxIterSearch)
-- 
2.43.0


From 89c747d564977e12a43cd04ded68ad3cbc2cd5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 04/92] fix: index reconnection at the northern boundary of
 spherical curvilinear grids left the grid

---
 parcels/field.py               | 2 +-
 parcels/include/index_search.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index a55d78d..4247df8 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -695,7 +695,7 @@ class Field(object):
         if yi > ydim-2:
             yi = ydim-2
             if sphere_mesh:
-                xi = xdim - xi
+                xi = min(xdim - xi, xdim - 2)
         return xi, yi
 
     def search_indices_rectilinear(self, x, y, z, ti=-1, time=-1, particle=None, search2D=False):
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index f06d1bd..8a8dabe 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -158,8 +158,11 @@ static inline void reconnect_bnd_indices(int *xi, int *yi, int xdim, int ydim, i
     }
     if (*yi > ydim-2){
       (*yi) = ydim-2;
-      if (sphere_mesh)
+      if (sphere_mesh){
         (*xi) = xdim - (*xi);
+        if (*xi > xdim-2)
+          (*xi) = xdim-2;
+      }
     }
   }
 }
-- 
2.43.0


From 0cb95abc6d8ff3790f92a6e39ae3ad930dda527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:21 +0000
Subject: [PATCH 05/92] fix: wrong position inside non-rectangular curvilinear
 cells whose first side runs north-south

---
 parcels/field.py               | 2 +-
 parcels/include/index_search.h | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 4247df8..36d36c0 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -832,7 +832,7 @@ class Field(object):
                     det = np.sqrt(det2)
                     eta = (-bb+det)/(2*aa)
             if abs(a[1]+a[3]*eta) < 1e-12:  # this happens when recti cell rotated of 90deg
-                xsi = ((y-py[0])/(py[1]-py[0]) + (y-py[3])/(py[2]-py[3])) * .5
+                xsi = (y-b[0]-b[2]*eta) / (b[1]+b[3]*eta)
             else:
                 xsi = (x-a[0]-a[2]*eta) / (a[1]+a[3]*eta)
             if xsi < 0 and eta < 0 and xi == 0 and yi == 0:
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 8a8dabe..ccd9206 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -341,8 +341,7 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
         *eta = (-bb+det)/(2*aa);
     }
     if ( fabs(a[1]+a[3]*(*eta)) < 1e-12 ) // this happens when recti cell rotated of 90deg
-      *xsi = ( (y-ygrid_loc[0]) / (ygrid_loc[1]-ygrid_loc[0]) +
-               (y-ygrid_loc[3]) / (ygrid_loc[2]-ygrid_loc[3]) ) * .5;
+      *xsi = (y-b[0]-b[2]* (*eta)) / (b[1]+b[3]* (*eta));
     else
       *xsi = (x-a[0]-a[2]* (*eta)) / (a[1]+a[3]* (*eta));
     if ( (*xsi < 0) && (*eta < 0) && (*xi == 0) && (*yi == 0) )
-- 
2.43.0


From 1e0ee72aa4d468964af197f0ed7b94fa3d94d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:19 +0000
Subject: [PATCH 06/92] fix: particles exactly on a grid node could get an
 interpolation error from single-precision rounding

---
 parcels/field.py               | 16 +++++++++-------
 parcels/include/index_search.h | 10 +++++-----
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 36d36c0..bbe6e54 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -700,6 +700,8 @@ class Field(object):
 
     def search_indices_rectilinear(self, x, y, z, ti=-1, time=-1, particle=None, search2D=False):
         grid = self.grid
+        # double precision, so that rounding cannot put a particle on a grid node outside its cell
+        lon, lat = np.float64(grid.lon), np.float64(grid.lat)
 
         if grid.xdim > 1 and (not grid.zonal_periodic):
             if x < grid.lonlat_minmax[0] or x > grid.lonlat_minmax[1]:
@@ -714,15 +716,15 @@ class Field(object):
                     xi = len(grid.lon) - 2
                 else:
                     xi = lon_index.argmin() - 1 if lon_index.any() else 0
-                xsi = (x-grid.lon[xi]) / (grid.lon[xi+1]-grid.lon[xi])
+                xsi = (x-lon[xi]) / (lon[xi+1]-lon[xi])
                 if xsi < 0:
                     xi -= 1
-                    xsi = (x-grid.lon[xi]) / (grid.lon[xi+1]-grid.lon[xi])
+                    xsi = (x-lon[xi]) / (lon[xi+1]-lon[xi])
                 elif xsi > 1:
                     xi += 1
-                    xsi = (x-grid.lon[xi]) / (grid.lon[xi+1]-grid.lon[xi])
+                    xsi = (x-lon[xi]) / (lon[xi+1]-lon[xi])
             else:
-                lon_fixed = grid.lon.copy()
+                lon_fixed = lon.copy()
                 indices = lon_fixed >= lon_fixed[0]
                 if not indices.all():
                     lon_fixed[indices.argmin():] += 360
@@ -751,13 +753,13 @@ class Field(object):
             else:
                 yi = lat_index.argmin() - 1 if lat_index.any() else 0
 
-            eta = (y-grid.lat[yi]) / (grid.lat[yi+1]-grid.lat[yi])
+            eta = (y-lat[yi]) / (lat[yi+1]-lat[yi])
             if eta < 0:
                 yi -= 1
-                eta = (y-grid.lat[yi]) / (grid.lat[yi+1]-grid.lat[yi])
+                eta = (y-lat[yi]) / (lat[yi+1]-lat[yi])
             elif eta > 1:
                 yi += 1
-                eta = (y-grid.lat[yi]) / (grid.lat[yi+1]-grid.lat[yi])
+                eta = (y-lat[yi]) / (lat[yi+1]-lat[yi])
         else:
             yi, eta = -1, 0
 
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index ccd9206..bef838b 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -77,7 +77,7 @@ static inline StatusCode search_indices_vertical_z(type_coord z, int zdim, float
   }
   if (*zi == zdim-1) {--*zi;}
 
-  *zeta = (z - zvals[*zi]) / (zvals[*zi+1] - zvals[*zi]);
+  *zeta = ((double) z - zvals[*zi]) / ((double) zvals[*zi+1] - zvals[*zi]);
   return SUCCESS;
 }
 
@@ -134,7 +134,7 @@ static inline StatusCode search_indices_vertical_s(type_coord z, int xdim, int y
   }
   if (*zi == zdim-1) {--*zi;}
 
-  *zeta = (z - zcol[*zi]) / (zcol[*zi+1] - zcol[*zi]);
+  *zeta = ((double) z - zcol[*zi]) / ((double) zcol[*zi+1] - zcol[*zi]);
   return SUCCESS;
 }
 
@@ -199,7 +199,7 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
   else if (sphere_mesh == 0){
     while (*xi < xdim-1 && x > xvals[*xi+1]) ++(*xi);
     while (*xi > 0 && x < xvals[*xi]) --(*xi);
-    *xsi = (x - xvals[*xi]) / (xvals[*xi+1] - xvals[*xi]);
+    *xsi = ((double) x - xvals[*xi]) / ((double) xvals[*xi+1] - xvals[*xi]);
   }
   else{
 
@@ -231,7 +231,7 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
       }
     }
 
-    *xsi = (x - xvalsi) / (xvalsi1 - xvalsi);
+    *xsi = ((double) x - xvalsi) / ((double) xvalsi1 - xvalsi);
   }
 
   if (ydim == 1){
@@ -241,7 +241,7 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
   else {
     while (*yi < ydim-1 && y > yvals[*yi+1]) ++(*yi);
     while (*yi > 0 && y < yvals[*yi]) --(*yi);
-    *eta = (y - yvals[*yi]) / (yvals[*yi+1] - yvals[*yi]);
+    *eta = ((double) y - yvals[*yi]) / ((double) yvals[*yi+1] - yvals[*yi]);
   }
 
   StatusCode status;
-- 
2.43.0


From e521a099b93dd723154dc307f7e3ccd8bca6c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:06 +0000
Subject: [PATCH 07/92] fix: cancellation in the curvilinear cell search lost
 particles on the edge of nearly-parallelogram cells

---
 parcels/field.py               | 2 +-
 parcels/include/index_search.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index bbe6e54..3b95ef1 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -832,7 +832,7 @@ class Field(object):
                 det2 = bb*bb-4*aa*cc
                 if det2 > 0:  # so, if det is nan we keep the xsi, eta from previous iter
                     det = np.sqrt(det2)
-                    eta = (-bb+det)/(2*aa)
+                    eta = -2*cc / (bb+det) if bb > 0 else (-bb+det) / (2*aa)  # avoiding cancellation for small aa
             if abs(a[1]+a[3]*eta) < 1e-12:  # this happens when recti cell rotated of 90deg
                 xsi = (y-b[0]-b[2]*eta) / (b[1]+b[3]*eta)
             else:
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index bef838b..de54d13 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -338,7 +338,7 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
     else{
       double det = sqrt(bb*bb-4*aa*cc);
       if (det == det)  // so, if det is nan we keep the xsi, eta from previous iter
-        *eta = (-bb+det)/(2*aa);
+        *eta = (bb > 0) ? -2*cc / (bb+det) : (-bb+det) / (2*aa);  // avoiding cancellation for small aa
     }
     if ( fabs(a[1]+a[3]*(*eta)) < 1e-12 ) // this happens when recti cell rotated of 90deg
       *xsi = (y-b[0]-b[2]* (*eta)) / (b[1]+b[3]* (*eta));
-- 
2.43.0


From b69bb6f16eef683f56807b984c9b764079fbd1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:58 +0000
Subject: [PATCH 08/92] fix: SciPy C-grid velocities on time-varying
 terrain-following grids used the first snapshot's depths

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 3b95ef1..8997a4f 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1526,8 +1526,8 @@ class VectorField(object):
         px = np.concatenate((px, px))
         py = np.concatenate((py, py))
         if grid.z4d:
-            pz = np.array([grid.depth[0, zi, yi, xi], grid.depth[0, zi, yi, xi+1], grid.depth[0, zi, yi+1, xi+1], grid.depth[0, zi, yi+1, xi],
-                           grid.depth[0, zi+1, yi, xi], grid.depth[0, zi+1, yi, xi+1], grid.depth[0, zi+1, yi+1, xi+1], grid.depth[0, zi+1, yi+1, xi]])
+            pz = np.array([grid.depth[ti, zi, yi, xi], grid.depth[ti, zi, yi, xi+1], grid.depth[ti, zi, yi+1, xi+1], grid.depth[ti, zi, yi+1, xi],
+                           grid.depth[ti, zi+1, yi, xi], grid.depth[ti, zi+1, yi, xi+1], grid.depth[ti, zi+1, yi+1, xi+1], grid.depth[ti, zi+1, yi+1, xi]])
         else:
             pz = np.array([grid.depth[zi, yi, xi], grid.depth[zi, yi, xi+1], grid.depth[zi, yi+1, xi+1], grid.depth[zi, yi+1, xi],
                            grid.depth[zi+1, yi, xi], grid.depth[zi+1, yi, xi+1], grid.depth[zi+1, yi+1, xi+1], grid.depth[zi+1, yi+1, xi]])
-- 
2.43.0


From 2dbd98a269067ca223c40aa83b8c703295ed4e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:58 +0000
Subject: [PATCH 09/92] fix: JIT C-grid interpolation shifted the corners of
 flat-mesh cells larger than 180 m by 360

---
 parcels/include/parcels.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 8552105..7e732ff 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -628,10 +628,12 @@ static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta,
       ygrid_loc[iN] = ygrid[yi+iN/2][xi+min(1, (iN%3))];
     }
   }
-  int i4;
-  for (i4 = 1; i4 < 4; ++i4){
-    if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
-    if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+  if (grid->sphere_mesh == 1){
+    int i4;
+    for (i4 = 1; i4 < 4; ++i4){
+      if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
+      if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+    }
   }
 
 
@@ -792,10 +794,12 @@ static inline StatusCode spatial_interpolation_UVW_c_grid(double xsi, double eta
       ygrid_loc[iN] = ygrid[yi+iN/2][xi+min(1, (iN%3))];
     }
   }
-  int i4;
-  for (i4 = 1; i4 < 4; ++i4){
-    if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
-    if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+  if (grid->sphere_mesh == 1){
+    int i4;
+    for (i4 = 1; i4 < 4; ++i4){
+      if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
+      if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+    }
   }
 
   float u0 = dataU[0][1][0];
-- 
2.43.0


From 9f58ae2442dd7b6fd9c314661afe975dfbaa2fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:39 +0000
Subject: [PATCH 10/92] fix: JIT C-grid interpolation with MITgcm indexing read
 one row and column before the data

---
 parcels/include/parcels.h | 66 ++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 43 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 7e732ff..d545d39 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -604,7 +604,7 @@ static double dist(double lon1, double lon2, double lat1, double lat2, int spher
 
 /* Linear interpolation routine for 2D C grid */
 static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta, int xi, int yi, CStructuredGrid *grid,
-                                                        GridCode gcode, float dataU[2][2], float dataV[2][2], float *u, float *v)
+                                                        GridCode gcode, float dataU[2][2], float dataV[2][2], float *u, float *v, int gridindexingtype)
 {
   /* Cast data array into data[lat][lon] as per NEMO convention */
   int xdim = grid->xdim;
@@ -637,15 +637,19 @@ static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta,
   }
 
 
+  // position of the cell faces in the data: U in row iU, V in column iV
+  int iU = (gridindexingtype == MITGCM) ? 0 : 1;
+  int iV = (gridindexingtype == MITGCM) ? 0 : 1;
+
   double phi[4];
   phi2D_lin(0., eta, phi);
-  double U0 = dataU[1][0] * dist(xgrid_loc[3], xgrid_loc[0], ygrid_loc[3], ygrid_loc[0], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double U0 = dataU[iU][0] * dist(xgrid_loc[3], xgrid_loc[0], ygrid_loc[3], ygrid_loc[0], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   phi2D_lin(1., eta, phi);
-  double U1 = dataU[1][1] * dist(xgrid_loc[1], xgrid_loc[2], ygrid_loc[1], ygrid_loc[2], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double U1 = dataU[iU][1] * dist(xgrid_loc[1], xgrid_loc[2], ygrid_loc[1], ygrid_loc[2], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   phi2D_lin(xsi, 0., phi);
-  double V0 = dataV[0][1] * dist(xgrid_loc[0], xgrid_loc[1], ygrid_loc[0], ygrid_loc[1], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double V0 = dataV[0][iV] * dist(xgrid_loc[0], xgrid_loc[1], ygrid_loc[0], ygrid_loc[1], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   phi2D_lin(xsi, 1., phi);
-  double V1 = dataV[1][1] * dist(xgrid_loc[2], xgrid_loc[3], ygrid_loc[2], ygrid_loc[3], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double V1 = dataV[1][iV] * dist(xgrid_loc[2], xgrid_loc[3], ygrid_loc[2], ygrid_loc[3], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   double U = (1-xsi) * U0 + xsi * U1;
   double V = (1-eta) * V0 + eta * V1;
 
@@ -708,29 +712,17 @@ static inline StatusCode temporal_interpolationUV_c_grid(type_coord x, type_coor
     status = search_indices(x, y, z, grid, &xi[igrid], &yi[igrid], &zi[igrid], &xsi, &eta, &zeta, gcode, ti[igrid], time, t0, t1, CGRID_VELOCITY, gridindexingtype); CHECKSTATUS(status);
     if (grid->zdim==1){
       float data2D_U[2][2][2], data2D_V[2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 0); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 0); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM) {
-        status = getCell2D(U, xi[igrid], yi[igrid]-1, ti[igrid], data2D_U, 0); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid]-1, yi[igrid], ti[igrid], data2D_V, 0); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], &u0, &v0); CHECKSTATUS(status);
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[1], data2D_V[1], &u1, &v1); CHECKSTATUS(status);
+      status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 0); CHECKSTATUS(status);
+      status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 0); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], &u0, &v0, gridindexingtype); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[1], data2D_V[1], &u1, &v1, gridindexingtype); CHECKSTATUS(status);
 
     } else {
       float data3D_U[2][2][2][2], data3D_V[2][2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 0); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 0); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM) {
-        status = getCell3D(U, xi[igrid], yi[igrid]-1, zi[igrid], ti[igrid], data3D_U, 0); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid]-1, yi[igrid], zi[igrid], ti[igrid], data3D_V, 0); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], &u0, &v0); CHECKSTATUS(status);
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[1][0], data3D_V[1][0], &u1, &v1); CHECKSTATUS(status);
+      status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 0); CHECKSTATUS(status);
+      status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 0); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], &u0, &v0, gridindexingtype); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[1][0], data3D_V[1][0], &u1, &v1, gridindexingtype); CHECKSTATUS(status);
     }
     *u = u0 + (u1 - u0) * (float)((time - t0) / (t1 - t0));
     *v = v0 + (v1 - v0) * (float)((time - t0) / (t1 - t0));
@@ -740,27 +732,15 @@ static inline StatusCode temporal_interpolationUV_c_grid(type_coord x, type_coor
     status = search_indices(x, y, z, grid, &xi[igrid], &yi[igrid], &zi[igrid], &xsi, &eta, &zeta, gcode, ti[igrid], t0, t0, t0+1, CGRID_VELOCITY, gridindexingtype); CHECKSTATUS(status);
     if (grid->zdim==1){
       float data2D_U[2][2][2], data2D_V[2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 1); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 1); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM) {
-        status = getCell2D(U, xi[igrid], yi[igrid]-1, ti[igrid], data2D_U, 1); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid]-1, yi[igrid], ti[igrid], data2D_V, 1); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], u, v); CHECKSTATUS(status);
+      status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 1); CHECKSTATUS(status);
+      status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 1); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], u, v, gridindexingtype); CHECKSTATUS(status);
     }
     else{
       float data3D_U[2][2][2][2], data3D_V[2][2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 1); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 1); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM){
-        status = getCell3D(U, xi[igrid], yi[igrid]-1, zi[igrid], ti[igrid], data3D_U, 1); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid]-1, yi[igrid], zi[igrid], ti[igrid], data3D_V, 1); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], u, v); CHECKSTATUS(status);
+      status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 1); CHECKSTATUS(status);
+      status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 1); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], u, v, gridindexingtype); CHECKSTATUS(status);
     }
     return SUCCESS;
   }
-- 
2.43.0


From d991ccc08066712dbf913364b6b5a6995162c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:39 +0000
Subject: [PATCH 11/92] fix: JIT vertical search read before the depth array
 after a MOM5 particle left the uppermost layer

---
 parcels/include/index_search.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index de54d13..7d37682 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -66,6 +66,7 @@ static inline StatusCode search_indices_vertical_z(type_coord z, int zdim, float
     }
     if (z < zvals[0]) {return ERROR_THROUGH_SURFACE;}
     if (z > zvals[zdim-1]) {return ERROR_OUT_OF_BOUNDS;}
+    if (*zi < 0) {*zi = 0;}  // was above the uppermost MOM5 level before
     while (*zi < zdim-1 && z > zvals[*zi+1]) ++(*zi);
     while (*zi > 0 && z < zvals[*zi]) --(*zi);
   }
-- 
2.43.0


From a7846b80b8d177e372c88fa6585da201c1c8a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:39 +0000
Subject: [PATCH 12/92] fix: MOM5 tracers were read one level too high (SciPy:
 from the bottom level in the uppermost layer)

---
 parcels/field.py          | 2 ++
 parcels/include/parcels.h | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index 8997a4f..8bfe030 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1009,6 +1009,8 @@ class Field(object):
             else:
                 return (1-zeta) * f0 + zeta * f1
         elif self.interp_method in ['cgrid_tracer', 'bgrid_tracer']:
+            if self.gridindexingtype == 'mom5':  # Since MOM5 is indexed at cell bottom
+                zi += 1
             return self.data[ti, zi, yi+1, xi+1]
         else:
             raise RuntimeError(self.interp_method+" is not implemented for 3D grids")
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index d545d39..e7cf2a3 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -573,6 +573,9 @@ static inline StatusCode temporal_interpolation_structured_grid(type_coord x, ty
   } else if ((interp_method == CGRID_TRACER) || (interp_method == BGRID_TRACER)) {
     if ((gridindexingtype == POP) && (zi[igrid] == grid->zdim-2)) {
       INTERP(spatial_interpolation_tracer_bc_grid_2D, spatial_interpolation_tracer_bc_grid_bottom);
+    } else if ((gridindexingtype == MOM5) && (zi[igrid] >= 0)) {
+      // MOM5 is indexed at cell bottom
+      INTERP(spatial_interpolation_tracer_bc_grid_2D, spatial_interpolation_tracer_bc_grid_bottom);
     } else {
       INTERP(spatial_interpolation_tracer_bc_grid_2D, spatial_interpolation_tracer_bc_grid_3D);
     }
-- 
2.43.0


From 0627d8c7582b8152a37b334bcf8e8307d76527b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:55 +0000
Subject: [PATCH 13/92] fix: JIT kernels truncated the division of two integers
 and gave negative remainders

---
 parcels/compilation/codegenerator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index b183d7c..9d2e131 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -670,6 +670,10 @@ class KernelGenerator(ast.NodeVisitor):
                                "Did you intend to use the exponential/power operator? In that case, please use '**'")
         elif node.op.ccode == 'pow':  # catching '**' pow statements
             node.ccode = "pow(%s, %s)" % (node.left.ccode, node.right.ccode)
+        elif isinstance(node.op, ast.Div):  # true division, also for two integers
+            node.ccode = "(%s / (double) %s)" % (node.left.ccode, node.right.ccode)
+        elif isinstance(node.op, ast.Mod):  # result has the sign of the divisor, as in Python
+            node.ccode = "((%s %% %s + %s) %% %s)" % (node.left.ccode, node.right.ccode, node.right.ccode, node.right.ccode)
         else:
             node.ccode = "(%s %s %s)" % (node.left.ccode, node.op.ccode, node.right.ccode)
         node.s_print = True
-- 
2.43.0


From 7117b681d2170cbe95c462313311cf05bd43fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:55 +0000
Subject: [PATCH 14/92] fix: abs() in JIT kernels truncated its argument to an
 integer

---
 parcels/include/parcels.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index e7cf2a3..3ca2ec7 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -15,6 +15,7 @@ extern "C" {
 
 #define min(X, Y) (((X) < (Y)) ? (X) : (Y))
 #define max(X, Y) (((X) > (Y)) ? (X) : (Y))
+#define abs(X) _Generic((X), int: abs, long: labs, long long: llabs, default: fabs)(X)
 #define rtol 1.e-5
 #define atol 1.e-8
 
-- 
2.43.0


From ad5f3e61f317c61012a03a203cb7e5482a40bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:55 +0000
Subject: [PATCH 15/92] fix: nested boolean expressions in JIT kernels lost
 their parentheses

---
 parcels/compilation/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 9d2e131..dbaabaf 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -628,8 +628,8 @@ class KernelGenerator(ast.NodeVisitor):
         self.visit(node.ops[0])
         assert(len(node.comparators) == 1)
         self.visit(node.comparators[0])
-        node.ccode = "%s %s %s" % (node.left.ccode, node.ops[0].ccode,
-                                   node.comparators[0].ccode)
+        node.ccode = "(%s %s %s)" % (node.left.ccode, node.ops[0].ccode,
+                                     node.comparators[0].ccode)
 
     def visit_Index(self, node):
         self.visit(node.value)
@@ -710,7 +710,7 @@ class KernelGenerator(ast.NodeVisitor):
         for v in node.values:
             self.visit(v)
         op_str = " %s " % node.op.ccode
-        node.ccode = op_str.join([v.ccode for v in node.values])
+        node.ccode = "(%s)" % op_str.join([v.ccode for v in node.values])
 
     def visit_Eq(self, node):
         node.ccode = "=="
-- 
2.43.0


From e49924ef5dfd9eb636a31425b7a76a377b0c6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:38 +0000
Subject: [PATCH 16/92] fix: while loops in JIT kernels always executed their
 body at least once

---
 parcels/compilation/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index dbaabaf..c1c20c8 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -746,7 +746,7 @@ class KernelGenerator(ast.NodeVisitor):
         if len(node.orelse) > 0:
             raise RuntimeError("Else clause in while clauses cannot be translated to C")
         body = c.Block([b.ccode for b in node.body])
-        node.ccode = c.DoWhile(node.test.ccode, body)
+        node.ccode = c.While(node.test.ccode, body)
 
     def visit_For(self, node):
         raise RuntimeError("For loops cannot be translated to C")
-- 
2.43.0


From 29e44585918cea077e01dadc0a976d84143f3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:38 +0000
Subject: [PATCH 17/92] fix: field sampling in if, elif, while and return
 statements of JIT kernels was misplaced or lost

---
 parcels/compilation/codegenerator.py | 48 ++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index c1c20c8..da004a6 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -356,6 +356,45 @@ class IntrinsicTransformer(ast.NodeTransformer):
             self.stmt_stack = []
         return stmts
 
+    def pop_stmt_stack(self):
+        """Return the statements to be inserted before the current one"""
+        stmts = self.stmt_stack
+        self.stmt_stack = []
+        return stmts
+
+    def visit_block(self, body):
+        stmts = []
+        for b in body:
+            b = self.visit(b)
+            stmts += b if isinstance(b, list) else [b]
+        return stmts
+
+    def visit_If(self, node):
+        node.test = self.visit(node.test)
+        stmts = self.pop_stmt_stack()  # field sampling in the test is to be done before it
+        node.body = self.visit_block(node.body)
+        node.orelse = self.visit_block(node.orelse)
+        return stmts + [node]
+
+    def visit_While(self, node):
+        node.test = self.visit(node.test)
+        stmts = self.pop_stmt_stack()
+        node.body = self.visit_block(node.body)
+        if len(stmts) > 0:  # field sampling in the test is to be done before each test
+            test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=[ast.Break()], orelse=[])
+            node.body = stmts + [test] + node.body
+            node.test = ast.NameConstant(value=True)
+        return node
+
+    def visit_Return(self, node):
+        if node.value is not None:
+            node.value = self.visit(node.value)
+        return self.pop_stmt_stack() + [node]
+
+    def visit_Expr(self, node):
+        node.value = self.visit(node.value)
+        return self.pop_stmt_stack() + [node]
+
     def visit_Call(self, node):
         node.func = self.visit(node.func)
         node.args = [self.visit(a) for a in node.args]
@@ -613,14 +652,9 @@ class KernelGenerator(ast.NodeVisitor):
             self.visit(b)
         for b in node.orelse:
             self.visit(b)
-        # field evals are replaced by a tmp variable is added to the stack.
-        # Here it means field evals passes from node.test to node.body. We take it out manually
-        fieldInTestCount = node.test.ccode.count('parcels_tmpvar')
-        body0 = c.Block([b.ccode for b in node.body[:fieldInTestCount]])
-        body = c.Block([b.ccode for b in node.body[fieldInTestCount:]])
+        body = c.Block([b.ccode for b in node.body])
         orelse = c.Block([b.ccode for b in node.orelse]) if len(node.orelse) > 0 else None
-        ifcode = c.If(node.test.ccode, body, orelse)
-        node.ccode = c.Block([body0, ifcode])
+        node.ccode = c.If(node.test.ccode, body, orelse)
 
     def visit_Compare(self, node):
         self.visit(node.left)
-- 
2.43.0


From b196827c6ab0d7d08909e9e6cbed48907e87fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:37 +0000
Subject: [PATCH 18/92] fix: sampling a summed field inside an expression of a
 JIT kernel bound only part of the sum

---
 parcels/compilation/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index da004a6..4a12aaa 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -288,7 +288,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
             # Insert placeholder node for field eval ...
             self.stmt_stack += [SummedFieldEvalNode(node.value, node.slice, tmp)]
             # .. and return the name of the temporary that will be populated
-            return ast.Name(id='+'.join(tmp))
+            return ast.Name(id='(%s)' % '+'.join(tmp))
         elif isinstance(node.value, SummedVectorFieldNode):
             tmp = [self.get_tmp() for _ in range(len(node.value.obj))]
             tmp2 = [self.get_tmp() for _ in range(len(node.value.obj))]
@@ -297,9 +297,9 @@ class IntrinsicTransformer(ast.NodeTransformer):
             self.stmt_stack += [SummedVectorFieldEvalNode(node.value, node.slice, tmp, tmp2, tmp3)]
             # .. and return the name of the temporary that will be populated
             if all(tmp3):
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2)), ast.Name(id='+'.join(tmp3))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2)), ast.Name(id='(%s)' % '+'.join(tmp3))], ast.Load())
             else:
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2))], ast.Load())
         elif isinstance(node.value, FieldNode):
             tmp = self.get_tmp()
             # Insert placeholder node for field eval ...
-- 
2.43.0


From 1f4c899e98f06af8d1ef27123b79244f37847812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:00 +0000
Subject: [PATCH 19/92] fix: tuple assignments in JIT kernels overwrote
 variables before they were read

---
 parcels/compilation/codegenerator.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 4a12aaa..9c8f596 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -427,6 +427,15 @@ class TupleSplitter(ast.NodeTransformer):
     """AST transformer that detects and splits Pythonic tuple
     assignments into multiple statements for conversion to C."""
 
+    def __init__(self):
+        self.tmp_vars = []
+
+    @staticmethod
+    def _names(node):
+        """Local and particle variables occurring in an expression"""
+        return set(n.attr if isinstance(n, ParticleAttributeNode) else n.id for n in ast.walk(node)
+                   if isinstance(n, (ParticleAttributeNode, ast.Name)))
+
     def visit_Assign(self, node):
         if isinstance(node.targets[0], ast.Tuple) \
            and isinstance(node.value, ast.Tuple):
@@ -434,10 +443,14 @@ class TupleSplitter(ast.NodeTransformer):
             v_elts = node.value.elts
             if len(t_elts) != len(v_elts):
                 raise AttributeError("Tuple lenghts in assignment do not agree")
-            node = [ast.Assign() for _ in t_elts]
-            for n, t, v in zip(node, t_elts, v_elts):
-                n.targets = [t]
-                n.value = v
+            pairs = list(zip(t_elts, v_elts))
+            if any(self._names(t) & self._names(v) for i, v in enumerate(v_elts) for t in t_elts[:i]):
+                # All values are to be evaluated before the first assignment
+                tmps = ["parcels_tmpvar_tuple%d" % (len(self.tmp_vars) + i) for i in range(len(t_elts))]
+                self.tmp_vars += tmps
+                pairs = [(ast.Name(id=tmp), v) for tmp, v in zip(tmps, v_elts)] + \
+                    [(t, ast.Name(id=tmp)) for t, tmp in zip(t_elts, tmps)]
+            node = [ast.Assign(targets=[t], value=v) for t, v in pairs]
         return node
 
 
@@ -463,7 +476,8 @@ class KernelGenerator(ast.NodeVisitor):
         py_ast = transformer.visit(py_ast)
 
         # Untangle Pythonic tuple-assignment statements
-        py_ast = TupleSplitter().visit(py_ast)
+        splitter = TupleSplitter()
+        py_ast = splitter.visit(py_ast)
 
         # Generate C-code for all nodes in the Python AST
         self.visit(py_ast)
@@ -488,6 +502,8 @@ class KernelGenerator(ast.NodeVisitor):
         self.ccode.body.insert(0, c.Value('StatusCode', 'err'))
         if len(funcvars) > 0:
             self.ccode.body.insert(0, c.Value("type_coord", ", ".join(funcvars)))
+        if len(splitter.tmp_vars) > 0:
+            self.ccode.body.insert(0, c.Value("type_coord", ", ".join(splitter.tmp_vars)))
         if len(transformer.tmp_vars) > 0:
             self.ccode.body.insert(0, c.Value("float", ", ".join(transformer.tmp_vars)))
 
-- 
2.43.0


From f43287ff912f3cf36ab75c75ff71c3863b0792a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:36 +0000
Subject: [PATCH 20/92] fix: array names of one JIT kernel were not declared as
 variables in later kernels

---
 parcels/compilation/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 9c8f596..3a7dd4c 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -461,11 +461,11 @@ class KernelGenerator(ast.NodeVisitor):
 
     # Intrinsic variables that appear as function arguments
     kernel_vars = ['particle', 'fieldset', 'time', 'output_time', 'tol']
-    array_vars = []
 
     def __init__(self, fieldset=None, ptype=JITParticle):
         self.fieldset = fieldset
         self.ptype = ptype
+        self.array_vars = []
         self.field_args = collections.OrderedDict()
         self.vector_field_args = collections.OrderedDict()
         self.const_args = collections.OrderedDict()
-- 
2.43.0


From 71b9135893d0079e8d48daa66a41cfcfe365cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:11 +0000
Subject: [PATCH 21/92] fix: math.gamma in JIT kernels computed the logarithm
 of the gamma function

---
 parcels/compilation/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 3a7dd4c..94a36f8 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -152,7 +152,7 @@ class ConstNode(IntrinsicNode):
 
 
 class MathNode(IntrinsicNode):
-    symbol_map = {'pi': 'M_PI', 'e': 'M_E', 'nan': 'NAN'}
+    symbol_map = {'pi': 'M_PI', 'e': 'M_E', 'nan': 'NAN', 'gamma': 'tgamma'}
 
     def __getattr__(self, attr):
         if hasattr(math, attr):
-- 
2.43.0


From ac3085b92852071fcb9f371fb5e2be7cf34cb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:27 +0000
Subject: [PATCH 22/92] fix: a step shortened to reach an output, release or
 end time shortened all following steps

---
 parcels/compilation/codegenerator.py | 6 ++++++
 parcels/kernel.py                    | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 94a36f8..13141a8 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1071,6 +1071,8 @@ class LoopGenerator(object):
 
         dt_pos = c.Assign("__dt", "fmin(fabs(particles->dt[pnum]), fabs(endtime - particles->time[pnum]))")                   # original
 
+        pdt_full = c.Assign("__pdt_full", "particles->dt[pnum]")
+        reset_pdt = c.Assign("particles->dt[pnum]", "__pdt_full")
         pdt_eq_dt_pos = c.Assign("__pdt_prekernels", "__dt * sign_dt")
         partdt = c.Assign("particles->dt[pnum]", "__pdt_prekernels")
         check_pdt = c.If("(res == SUCCESS) & !is_equal_dbl(__pdt_prekernels, particles->dt[pnum])", c.Assign("res", "REPEAT"))
@@ -1086,6 +1088,7 @@ class LoopGenerator(object):
 
         # ==== main computation body ==== #
         body = [c.Statement("set_particle_backup(&particle_backup, particles, pnum)")]
+        body += [pdt_full]
         body += [pdt_eq_dt_pos]
         body += [partdt]
         body += [c.Value("StatusCode", "state_prev"), c.Assign("state_prev", "particles->state[pnum]")]
@@ -1093,6 +1096,7 @@ class LoopGenerator(object):
         body += [c.If("(res==SUCCESS) && (particles->state[pnum] != state_prev)", c.Assign("res", "particles->state[pnum]"))]
         body += [check_pdt]
         body += [c.If("res == SUCCESS || res == DELETE", c.Block([c.Statement("particles->time[pnum] += particles->dt[pnum]"),
+                                                                  reset_pdt,
                                                                   update_pdt,
                                                                   dt_pos,
                                                                   sign_end_part,
@@ -1103,6 +1107,7 @@ class LoopGenerator(object):
                                                                   dt_0_break
                                                                   ]),
                       c.Block([c.Statement("get_particle_backup(&particle_backup, particles, pnum)"),
+                               c.If("particles->dt[pnum] == __pdt_prekernels", reset_pdt),
                                dt_pos,
                                sign_end_part,
                                c.If("sign_dt != sign_end_part", c.Assign("__dt", "0")),
@@ -1115,6 +1120,7 @@ class LoopGenerator(object):
                           c.Block([sign_end_part, reset_res_state, dt_pos, notstarted_continue, time_loop]))
         fbody = c.Block([c.Value("int", "pnum, sign_dt, sign_end_part"),
                          c.Value("StatusCode", "res"),
+                         c.Value("double", "__pdt_full"),
                          c.Value("double", "__pdt_prekernels"),
                          c.Value("double", "__dt"),  # 1e-8 = built-in tolerance for np.isclose()
                          sign_dt, particle_backup, part_loop])
diff --git a/parcels/kernel.py b/parcels/kernel.py
index d105017..3a4d6a7 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -309,6 +309,7 @@ class Kernel(object):
                 for var in pset.collection.ptype.variables:
                     p_var_back[var.name] = getattr(p, var.name)
                 try:
+                    pdt_full = p.dt
                     pdt_prekernels = sign_dt * dt_pos
                     p.dt = pdt_prekernels
                     state_prev = p.state
@@ -340,6 +341,7 @@ class Kernel(object):
                 if res in [StateCode.Success, OperationCode.Delete]:
                     # Update time and repeat
                     p.time += p.dt
+                    p.dt = pdt_full  # a step shortened to end at endtime does not shorten the following ones
                     p.update_next_dt()
                     if analytical:
                         p.dt = np.inf
@@ -360,6 +362,8 @@ class Kernel(object):
                     for var in pset.collection.ptype.variables:
                         if var.name not in ['dt', 'state']:
                             setattr(p, var.name, p_var_back[var.name])
+                    if p.dt == pdt_prekernels:
+                        p.dt = pdt_full
                     dt_pos = min(abs(p.dt), abs(endtime - p.time))
 
                     sign_end_part = np.sign(endtime - p.time)
-- 
2.43.0


From c25782b61d2138ded84cf0f5808977c14b0ce8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:27 +0000
Subject: [PATCH 23/92] fix: writing output crashed when some but not all
 particles were off the output time

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 90416cf..5a8e349 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -851,7 +851,7 @@ class ParticleCollectionSOA(ParticleCollection):
 
                 pset_errs = ((self._data['state'][indices_to_write] != OperationCode.Delete) & np.greater(np.abs(time - self._data['time'][indices_to_write]), 1e-3, where=np.isfinite(self._data['time'][indices_to_write])))
                 if np.count_nonzero(pset_errs) > 0:
-                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][pset_errs]))
+                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][indices_to_write][pset_errs]))
 
                 # ==== this function should probably move back somewhere into the particle-file instead of the to_dict ==== #
                 if time not in pfile.time_written:
-- 
2.43.0


From d8de59b3ec979b986873186087c5dc278f52c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:02 +0000
Subject: [PATCH 24/92] fix: looking up or removing several particles by their
 ids failed or acted on other particles

---
 parcels/particlesets/collectionsoa.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 5a8e349..d888a2c 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -369,32 +369,24 @@ class ParticleCollectionSOA(ParticleCollection):
         :param high: Upperbound on the indices to search for IDs.
         :param sublist: (Sub)list of IDs to look for.
         """
+        if len(sublist) == 0:
+            return np.empty(0, dtype=np.intp)
+
         median = floor(len(sublist) / 2)
-        index = bisect_left(self._data['id'][low:high], sublist[median])
-        if len(sublist) == 1:
-            # edge case
-            if index == len(self._data['id']) or \
-               self._data['id'][index] != sublist[median]:
-                return np.array([])
-            return np.array([index])
-
-        # The edge-cases have to be handled slightly differently
-        if index == len(self._data['id']):
-            # Continue with the same bounds, but drop the median.
-            return self._recursive_ID_lookup(low, high, np.delete(sublist, median))
-        elif self._data['id'][index] != sublist[median]:
+        index = low + bisect_left(self._data['id'][low:high], sublist[median])
+
+        left = self._recursive_ID_lookup(low, index, sublist[:median])
+        if index == high or self._data['id'][index] != sublist[median]:
             # We can split, because we received the index that the median
             # ID would have been inserted in, but we do not return the
             # index and keep it in our search space.
-            left = self._recursive_ID_lookup(low, index, sublist[:median])
             right = self._recursive_ID_lookup(index, high, sublist[median + 1:])
             return np.concatenate((left, right))
 
         # Otherwise, we located the median, so we include it in our
         # result, and split the search space on it, without including it.
-        left = self._recursive_ID_lookup(low, index, sublist[:median])
         right = self._recursive_ID_lookup(index + 1, high, sublist[median + 1:])
-        return np.concatenate((left, np.array(index), right))
+        return np.concatenate((left, np.array([index], dtype=np.intp), right))
 
     def add_collection(self, pcollection):
         """
-- 
2.43.0


From f9ed5d3f462b2fd684e5d3efa7e0a4e247727202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:52 +0000
Subject: [PATCH 25/92] fix: creating a ParticleSet changed the data types and
 write status of existing ones of the same class

---
 parcels/particle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/particle.py b/parcels/particle.py
index 470a405..2a6c0b7 100644
--- a/parcels/particle.py
+++ b/parcels/particle.py
@@ -1,3 +1,4 @@
+from copy import copy
 from ctypes import c_void_p
 from operator import attrgetter
 
@@ -65,7 +66,7 @@ class ParticleType(object):
         self.name = pclass.__name__
         self.uses_jit = issubclass(pclass, JITParticle)
         # Pick Variable objects out of __dict__.
-        self.variables = [v for v in pclass.__dict__.values() if isinstance(v, Variable)]
+        self.variables = [copy(v) for v in pclass.__dict__.values() if isinstance(v, Variable)]
         for cls in pclass.__bases__:
             if issubclass(cls, ScipyParticle):
                 # Add inherited particle variables
-- 
2.43.0


From 0bde415d6c64dd65544a745cde287a5cb31738d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:19 +0000
Subject: [PATCH 26/92] fix: particle ids were reused after creating an empty
 ParticleSet

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index d888a2c..22e6ba0 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -95,7 +95,7 @@ class ParticleCollectionSOA(ParticleCollection):
             assert lon.size == kwargs[kwvar].size, (
                 '%s and positions (lon, lat, depth) don''t have the same lengths.' % kwvar)
 
-        offset = np.max(pid) if (pid is not None) and len(pid) > 0 else -1
+        offset = np.max(pid) if (pid is not None) and len(pid) > 0 else pclass.lastID - 1
         if MPI:
             mpi_comm = MPI.COMM_WORLD
             mpi_rank = mpi_comm.Get_rank()
-- 
2.43.0


From b2eddcb9c8438c752091a9a48c74c6af92677884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 27/92] fix: removing particles by a list with repeated indices
 corrupted the size of the ParticleSet

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 22e6ba0..647f0a3 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -636,7 +636,7 @@ class ParticleCollectionSOA(ParticleCollection):
         for d in self._data:
             self._data[d] = np.delete(self._data[d], indices, axis=0)
 
-        self._ncount -= len(indices)
+        self._ncount = self._data['lon'].shape[0]
 
     def remove_multi_by_IDs(self, ids):
         """
-- 
2.43.0


From 676c95ee09620896d05d85f06db99f671f0a6efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:05 +0000
Subject: [PATCH 28/92] fix: adding particles to an empty ParticleSet shared
 their data and ignored their order

---
 parcels/particlesets/collectionsoa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 647f0a3..6be3493 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -416,7 +416,8 @@ class ParticleCollectionSOA(ParticleCollection):
             return
 
         if self._ncount == 0:
-            self._data = same_class._data
+            self._data = {d: same_class._data[d].copy() for d in same_class._data}
+            self._sorted = same_class._sorted
             self._ncount = same_class.ncount
             return
 
-- 
2.43.0


From b9a32bc2d4f6469fc19052e6d27139b6c96d0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:33 +0000
Subject: [PATCH 29/92] fix: execute() added entries to the recovery dictionary
 of the user

---
 parcels/kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 3a4d6a7..c0deab2 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -408,6 +408,7 @@ class Kernel(object):
         if recovery is None:
             recovery = {}
         elif ErrorCode.ErrorOutOfBounds in recovery and ErrorCode.ErrorThroughSurface not in recovery:
+            recovery = dict(recovery)
             recovery[ErrorCode.ErrorThroughSurface] = recovery[ErrorCode.ErrorOutOfBounds]
         recovery_map = recovery_base_map.copy()
         recovery_map.update(recovery)
-- 
2.43.0


From f9d08a507727889ed3d2229daaaf829031cb5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:22 +0000
Subject: [PATCH 30/92] fix: with a zero time step, an error of one particle
 executed the kernel again for all others

---
 parcels/compilation/codegenerator.py | 2 +-
 parcels/kernel.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 13141a8..ebb277a 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1115,7 +1115,7 @@ class LoopGenerator(object):
                                c.Statement("break")])
                       )]
 
-        time_loop = c.While("(particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT) || is_zero_dbl(particles->dt[pnum])", c.Block(body))
+        time_loop = c.While("particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT", c.Block(body))
         part_loop = c.For("pnum = 0", "pnum < num_particles", "++pnum",
                           c.Block([sign_end_part, reset_res_state, dt_pos, notstarted_continue, time_loop]))
         fbody = c.Block([c.Value("int", "pnum, sign_dt, sign_end_part"),
diff --git a/parcels/kernel.py b/parcels/kernel.py
index c0deab2..20d465a 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -304,7 +304,7 @@ class Kernel(object):
                     p.set_state(StateCode.Success)
                 continue
 
-            while p.state in [StateCode.Evaluate, OperationCode.Repeat] or np.isclose(dt, 0):
+            while p.state in [StateCode.Evaluate, OperationCode.Repeat]:
 
                 for var in pset.collection.ptype.variables:
                     p_var_back[var.name] = getattr(p, var.name)
-- 
2.43.0


From 965c3694e28eaeb362802a722b62f1738071055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:38 +0000
Subject: [PATCH 31/92] fix: in JIT mode a next time step requested in a
 failing step was given to another particle

---
 parcels/compilation/codegenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index ebb277a..16851de 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1107,6 +1107,7 @@ class LoopGenerator(object):
                                                                   dt_0_break
                                                                   ]),
                       c.Block([c.Statement("get_particle_backup(&particle_backup, particles, pnum)"),
+                               c.Assign("_next_dt_set", "0"),
                                c.If("particles->dt[pnum] == __pdt_prekernels", reset_pdt),
                                dt_pos,
                                sign_end_part,
-- 
2.43.0


From b2ef3ad8fe2da52fb8212707c52e4d705674505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:01 +0000
Subject: [PATCH 32/92] fix: an earlier exception of a particle was reported
 for a later error of another kind

---
 parcels/kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 20d465a..306bd48 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -312,6 +312,7 @@ class Kernel(object):
                     pdt_full = p.dt
                     pdt_prekernels = sign_dt * dt_pos
                     p.dt = pdt_prekernels
+                    p.exception = None
                     state_prev = p.state
                     res = self.pyfunc(p, pset.fieldset, p.time)
                     if res is None:
-- 
2.43.0


From e5873b0497da5313812ce57d2294fbaaa2721de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:30 +0000
Subject: [PATCH 33/92] fix: only one observation per particle was exported
 when the output path contained the word once

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 47e0120..2552af1 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -270,7 +270,7 @@ class ParticleFile(object):
                                    'a NetCDF file yourself.\nTo avoid this error, make sure you '
                                    'close() your ParticleFile at the end of your script.' % self.tempwritedir)
             id_ind = np.array(data_dict["id"], dtype=np.int64)
-            t_ind = time_index[id_ind] if 'once' not in file_list[0] else 0
+            t_ind = time_index[id_ind] if not file_list[0].endswith('_once.npy') else 0
             t_ind_used[t_ind] = 1
             data[id_ind, t_ind] = data_dict[var]
             time_index[id_ind] = time_index[id_ind] + 1
-- 
2.43.0


From 47f123bbf22a4cf66883496832e536ea8b3da123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:53 +0000
Subject: [PATCH 34/92] fix: writing to a ParticleFile failed after it had been
 exported once

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 2552af1..bd95064 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -309,7 +309,7 @@ class ParticleFile(object):
                 if len(self.var_names_once) > 0:
                     global_file_list_once += pset_info_local['file_list_once']
         self.maxid_written = global_maxid_written
-        self.time_written = np.unique(global_time_written)
+        self.time_written = list(np.unique(global_time_written))
 
         for var in self.var_names:
             data = self.read_from_npy(global_file_list, len(self.time_written), var)
-- 
2.43.0


From eda2e57f5d8899383794ce8e8132e87d45fd38d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 35/92] fix: write-once variables of particles deleted before
 their first output time made the export fail

---
 parcels/particlesets/collectionsoa.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 6be3493..8028b2b 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -43,15 +43,6 @@ def _to_write_particles(pd, time):
             & (np.isfinite(pd['time'])))
 
 
-def _is_particle_started_yet(pd, time):
-    """We don't want to write a particle that is not started yet.
-    Particle will be written if:
-      * particle.time is equal to time argument of pfile.write()
-      * particle.time is before time (in case particle was deleted between previous export and current one)
-    """
-    return np.less_equal(pd['dt']*pd['time'], pd['dt']*time) | np.isclose(pd['time'], time)
-
-
 def _convert_to_flat_array(var):
     """Convert lists and single integers/floats to one-dimensional numpy arrays
 
@@ -851,7 +842,9 @@ class ParticleCollectionSOA(ParticleCollection):
                     pfile.time_written.append(time)
 
                 if len(pfile.var_names_once) > 0:
-                    first_write = (_to_write_particles(self._data, time) & _is_particle_started_yet(self._data, time) & np.isin(self._data['id'], pfile.written_once, invert=True))
+                    first_write = np.zeros(self._ncount, dtype=bool)
+                    first_write[indices_to_write] = True
+                    first_write &= np.isin(self._data['id'], pfile.written_once, invert=True)
                     if np.any(first_write):
                         data_dict_once['id'] = np.array(self._data['id'][first_write]).astype(dtype=np.int64)
                         for var in pfile.var_names_once:
-- 
2.43.0


From a46b067274aa785ea11ad62c1f9929fe95a52035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:17 +0000
Subject: [PATCH 36/92] fix: particles added at an already written output time
 were not written at that time

---
 parcels/particlefile.py               | 1 +
 parcels/particlesets/collectionsoa.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index bd95064..7493771 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -58,6 +58,7 @@ class ParticleFile(object):
         self.convert_at_end = convert_at_end
         self.outputdt = outputdt
         self.lasttime_written = None  # variable to check if time has been written already
+        self.lastids_written = []  # ids of the particles in the ParticleSet at that time
 
         self.dataset = None
         self.metadata = {}
diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 8028b2b..c1b4976 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -815,7 +815,7 @@ class ParticleCollectionSOA(ParticleCollection):
         time = time.total_seconds() if isinstance(time, delta) else time
 
         indices_to_write = []
-        if pfile.lasttime_written != time and \
+        if (pfile.lasttime_written != time or deleted_only is False) and \
            (pfile.write_ondelete is False or deleted_only is not False):
             if self._data['id'].size == 0:
                 logger.warning("ParticleSet is empty on writing as array at time %g" % time)
@@ -828,6 +828,8 @@ class ParticleCollectionSOA(ParticleCollection):
                         indices_to_write = deleted_only
                 else:
                     indices_to_write = _to_write_particles(self._data, time)
+                    if pfile.lasttime_written == time:  # only particles added since the last write
+                        indices_to_write &= np.isin(self._data['id'], pfile.lastids_written, invert=True)
                 if np.any(indices_to_write) > 0:
                     for var in pfile.var_names:
                         data_dict[var] = self._data[var][indices_to_write]
@@ -853,6 +855,7 @@ class ParticleCollectionSOA(ParticleCollection):
 
             if deleted_only is False:
                 pfile.lasttime_written = time
+                pfile.lastids_written = self._data['id'].copy()
 
         return data_dict, data_dict_once
 
-- 
2.43.0


From 4fbed60616e059b6f54b5f50295db6102828d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 37/92] fix: the snapshot that closes the period of a
 time_periodic Field was not used by in-memory fields

---
 parcels/field.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 8bfe030..79ce4bf 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -170,8 +170,11 @@ class Field(object):
             if self.vmax is not None:
                 self.data[self.data > self.vmax] = 0.
 
-            if self.grid._add_last_periodic_data_timestep:
+            if self.grid._add_last_periodic_data_timestep and self.data.shape[0] == self.grid.time.size - 1:
                 self.data = lib.concatenate((self.data, self.data[:1, :]), axis=0)
+                self.grid.tdim = self.grid.time.size
+                if self.grid.z4d == 1 and self.grid.depth.shape[0] == self.grid.tdim - 1:
+                    self.grid.depth = np.concatenate((self.grid.depth, self.grid.depth[:1, :]), axis=0)
 
         self._scaling_factor = None
 
@@ -392,7 +395,7 @@ class Field(object):
         if 'full_load' in kwargs:  # for backward compatibility with Parcels < v2.0.0
             deferred_load = not kwargs['full_load']
 
-        if grid.time.size <= 2 or deferred_load is False:
+        if grid.time.size - grid._add_last_periodic_data_timestep <= 2 or deferred_load is False:
             deferred_load = False
 
         if chunksize not in [False, None]:
@@ -517,10 +520,13 @@ class Field(object):
         if self.grid.zdim == 1:
             if len(data.shape) == 4:
                 data = data.reshape(sum(((data.shape[0],), data.shape[2:]), ()))
+        tdims = [self.grid.tdim]
+        if self.grid._add_last_periodic_data_timestep:  # grid shared with a Field whose last snapshot is already appended
+            tdims.append(self.grid.time.size - 1)
         if len(data.shape) == 4:
             errormessage = ('Field %s expecting a data shape of [tdim, zdim, ydim, xdim]. '
                             'Flag transpose=True could help to reorder the data.' % self.name)
-            assert data.shape[0] == self.grid.tdim, errormessage
+            assert data.shape[0] in tdims, errormessage
             assert data.shape[2] == self.grid.ydim - 2 * self.grid.meridional_halo, errormessage
             assert data.shape[3] == self.grid.xdim - 2 * self.grid.zonal_halo, errormessage
             if self.gridindexingtype == 'pop':
@@ -528,9 +534,9 @@ class Field(object):
             else:
                 assert data.shape[1] == self.grid.zdim, errormessage
         else:
-            assert (data.shape == (self.grid.tdim,
-                                   self.grid.ydim - 2 * self.grid.meridional_halo,
-                                   self.grid.xdim - 2 * self.grid.zonal_halo)), \
+            assert (data.shape[0] in tdims
+                    and data.shape[1:] == (self.grid.ydim - 2 * self.grid.meridional_halo,
+                                           self.grid.xdim - 2 * self.grid.zonal_halo)), \
                 ('Field %s expecting a data shape of [tdim, ydim, xdim]. '
                  'Flag transpose=True could help to reorder the data.' % self.name)
         if self.grid.meridional_halo > 0 or self.grid.zonal_halo > 0:
-- 
2.43.0


From 6ab69310733e47f8019d2e4786fb2b87be66176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 38/92] fix: deferred time_periodic fields ended the period
 with the last snapshot of the first file

---
 parcels/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index 79ce4bf..8b8e2a3 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1374,6 +1374,8 @@ class Field(object):
         time_data = filebuffer.time
         time_data = g.time_origin.reltime(time_data)
         filebuffer.ti = (time_data <= g.time[tindex]).argmin() - 1
+        if g._add_last_periodic_data_timestep and g.ti + tindex == len(g.time_full) - 1:
+            filebuffer.ti = 0  # the first snapshot is repeated at the end of the period
         if self.netcdf_engine != 'xarray':
             filebuffer.name = filebuffer.parse_name(self.filebuffername)
         buffer_data = filebuffer.data
-- 
2.43.0


From 6fb763c233445a8d11a11e30487801716adc5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:04 +0000
Subject: [PATCH 39/92] fix: sampling time_periodic fields beyond one period
 hung, crashed or used wrong snapshots

---
 parcels/field.py               | 25 +++++++++++++------------
 parcels/grid.py                | 13 +++++++------
 parcels/include/index_search.h | 29 +++++++++++------------------
 3 files changed, 31 insertions(+), 36 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 8b8e2a3..666a3ef 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1063,19 +1063,20 @@ class Field(object):
         """
         if not self.time_periodic and not self.allow_time_extrapolation and (time < self.grid.time[0] or time > self.grid.time[-1]):
             raise TimeExtrapolationError(time, field=self)
+        if self.time_periodic and (time < self.grid.time[0] or time > self.grid.time[-1]):
+            period = self.grid.time_full[-1] - self.grid.time_full[0]
+            tol = 1e-8 * period
+            periods = int(math.floor((time-self.grid.time_full[0]) / period))
+            if time - periods*period < self.grid.time[0] - tol:
+                periods -= 1  # the end of a period, where only the last snapshots are loaded
+            time -= periods*period
+            if time < self.grid.time[0] - tol or time > self.grid.time[-1] + tol:
+                raise TimeExtrapolationError(time, field=self)
+            time_index = self.grid.time <= time
+            if time_index.all():
+                return (len(self.grid.time) - 1, periods)
+            return (time_index.argmin() - 1 if time_index.any() else 0, periods)
         time_index = self.grid.time <= time
-        if self.time_periodic:
-            if time_index.all() or np.logical_not(time_index).all():
-                periods = int(math.floor((time-self.grid.time_full[0])/(self.grid.time_full[-1]-self.grid.time_full[0])))
-                if isinstance(self.grid.periods, c_int):
-                    self.grid.periods.value = periods
-                else:
-                    self.grid.periods = periods
-                time -= periods*(self.grid.time_full[-1]-self.grid.time_full[0])
-                time_index = self.grid.time <= time
-                ti = time_index.argmin() - 1 if time_index.any() else 0
-                return (ti, periods)
-            return (time_index.argmin() - 1 if time_index.any() else 0, 0)
         if time_index.all():
             # If given time > last known field time, use
             # the last field frame without interpolation
diff --git a/parcels/grid.py b/parcels/grid.py
index 00d822d..652baa0 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -1,4 +1,5 @@
 import functools
+import math
 from ctypes import c_double
 from ctypes import c_float
 from ctypes import c_int
@@ -187,7 +188,11 @@ class Grid(object):
 
     def computeTimeChunk(self, f, time, signdt):
         nextTime_loc = np.infty if signdt >= 0 else -np.infty
-        periods = self.periods.value if isinstance(self.periods, c_int) else self.periods
+        periods = 0
+        if f.time_periodic:
+            periods = int(math.floor((time - self.time_full[0])/(self.time_full[-1]-self.time_full[0])))
+            if signdt < 0 and time - periods*(self.time_full[-1]-self.time_full[0]) == self.time_full[0]:
+                periods -= 1
         prev_time_indices = self.time
         if self.update_status == 'not_updated':
             if self.ti >= 0:
@@ -207,11 +212,7 @@ class Grid(object):
                     self.update_status = 'updated'
             if self.ti == -1:
                 self.time = self.time_full
-                self.ti, _ = f.time_index(time)
-                periods = self.periods.value if isinstance(self.periods, c_int) else self.periods
-                if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
-                    self.ti = len(self.time)-1
-                    periods -= 1
+                self.ti, _ = f.time_index(time - periods*(self.time_full[-1]-self.time_full[0]))
                 if signdt == -1 and self.ti > 0:
                     self.ti -= 1
                 if self.ti >= len(self.time_full) - 1:
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 7d37682..ce2aaea 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -437,24 +437,17 @@ static inline StatusCode search_time_index(double *t, int size, double *tvals, i
 {
   if (*ti < 0)
     *ti = 0;
-  if (time_periodic == 1){
-    if (*t < tvals[0]){
-      *ti = size-1;
-      *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
-      *t -= *periods * (tfull_max-tfull_min);
-      if (*t < tvals[0]){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
-        *periods -= 1;
-        *t -= *periods * (tfull_max-tfull_min);
-      }
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-    else if (*t > tvals[size-1]){
-      *ti = 0;
-      *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
-      *t -= *periods * (tfull_max-tfull_min);
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-  }          
+  if (time_periodic == 1 && (*t < tvals[0] || *t > tvals[size-1])){
+    double period = tfull_max - tfull_min;
+    double tol = 1e-8 * period;
+    *periods = (int) floor( (*t-tfull_min)/period);
+    if (*t - *periods * period < tvals[0] - tol) // the end of a period, where only the last snapshots are loaded
+      *periods -= 1;
+    *t -= *periods * period;
+    if (*t < tvals[0] - tol || *t > tvals[size-1] + tol)
+      return ERROR_TIME_EXTRAPOLATION;
+    *t = fmin(fmax(*t, tvals[0]), tvals[size-1]);
+  }
   while (*ti < size-1 && *t > tvals[*ti+1]) ++(*ti);
   while (*ti > 0 && *t < tvals[*ti]) --(*ti);
   return SUCCESS;
-- 
2.43.0


From b0beb99f2d3478ae8a44731aa31707b493b10a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:44 +0000
Subject: [PATCH 40/92] fix: time_periodic fields with another time origin than
 the FieldSet used an unshifted period

---
 parcels/fieldset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index a941e88..aea6350 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -231,8 +231,7 @@ class FieldSet(object):
                 continue
             assert isinstance(g.time_origin.time_origin, type(self.time_origin.time_origin)), 'time origins of different grids must be have the same type'
             g.time = g.time + self.time_origin.reltime(g.time_origin)
-            if g.defer_load:
-                g.time_full = g.time_full + self.time_origin.reltime(g.time_origin)
+            g.time_full = g.time_full + self.time_origin.reltime(g.time_origin)
             g.time_origin = self.time_origin
         if not hasattr(self, 'UV'):
             if isinstance(self.U, SummedField):
-- 
2.43.0


From 5dc6968219ab71b98a5d04b20455c58f73b33f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:44 +0000
Subject: [PATCH 41/92] fix: data files with different numbers of snapshots
 could not be combined

---
 parcels/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 666a3ef..9fb2697 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -239,9 +239,8 @@ class Field(object):
                     ftime = filebuffer.time
                     timeslices.append(ftime)
                     dataFiles.append([fname] * len(ftime))
-            timeslices = np.array(timeslices)
             time = np.concatenate(timeslices)
-            dataFiles = np.concatenate(np.array(dataFiles))
+            dataFiles = np.concatenate(dataFiles)
         if time.size == 1 and time[0] is None:
             time[0] = 0
         time_origin = TimeConverter(time[0])
-- 
2.43.0


From 8e4912194c809ca2edbd6eb94bbc8fd270ba7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 42/92] fix: backward runs of deferred fieldsets that start
 between two snapshots failed

---
 parcels/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/grid.py b/parcels/grid.py
index 652baa0..854ea5a 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -213,7 +213,7 @@ class Grid(object):
             if self.ti == -1:
                 self.time = self.time_full
                 self.ti, _ = f.time_index(time - periods*(self.time_full[-1]-self.time_full[0]))
-                if signdt == -1 and self.ti > 0:
+                if signdt == -1 and self.ti > 0 and time - periods*(self.time_full[-1]-self.time_full[0]) == self.time[self.ti]:
                     self.ti -= 1
                 if self.ti >= len(self.time_full) - 1:
                     self.ti = len(self.time_full) - 2
-- 
2.43.0


From 89a4676c4e34bc66f441386e081ac850b94b6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:33 +0000
Subject: [PATCH 43/92] fix: analytical advection backward in time aimed at the
 wrong cell face

---
 parcels/kernels/advection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index 456e9c0..4722c1c 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -201,7 +201,7 @@ def AdvectionAnalytical(particle, fieldset, time):
 
     def compute_ds(F0, F1, r, direction, tol):
         up = F0 * (1-r) + F1 * r
-        r_target = 1. if direction * up >= 0. else 0.
+        r_target = 1. if up >= 0. else 0.  # F0 and F1 already include the direction
         B = F0 - F1
         delta = - F0
         B = 0 if abs(B) < tol else B
-- 
2.43.0


From 10e0cad237a30e3f25cf886fb789e44ebd5f72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:33 +0000
Subject: [PATCH 44/92] fix: analytical advection compared a longitude with the
 latitude at the dateline

---
 parcels/kernels/advection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index 4722c1c..45eb762 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -160,7 +160,7 @@ def AdvectionAnalytical(particle, fieldset, time):
         py = np.array([grid.lat[yi, xi], grid.lat[yi, xi + 1], grid.lat[yi + 1, xi + 1], grid.lat[yi + 1, xi]])
     if grid.mesh == 'spherical':
         px[0] = px[0]+360 if px[0] < particle.lon-225 else px[0]
-        px[0] = px[0]-360 if px[0] > particle.lat+225 else px[0]
+        px[0] = px[0]-360 if px[0] > particle.lon+225 else px[0]
         px[1:] = np.where(px[1:] - px[0] > 180, px[1:]-360, px[1:])
         px[1:] = np.where(-px[1:] + px[0] > 180, px[1:]+360, px[1:])
     if withW:
-- 
2.43.0


From 786b21e0089b34e6c15510f80533407a0f9d3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:33 +0000
Subject: [PATCH 45/92] fix: analytical advection in time-varying flows
 overstepped its intermediate times and failed backward in time

---
 parcels/kernels/advection.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index 45eb762..3b4ae7f 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -117,12 +117,22 @@ def AdvectionAnalytical(particle, fieldset, time):
     direction = 1. if particle.dt > 0 else -1.
     withW = True if 'W' in [f.name for f in fieldset.get_fields()] else False
     withTime = True if len(fieldset.U.grid.time_full) > 1 else False
-    ti = fieldset.U.time_index(time)[0]
+    ti, periods = fieldset.U.time_index(time)
     ds_t = particle.dt
     if withTime:
-        tau = (time - fieldset.U.grid.time[ti]) / (fieldset.U.grid.time[ti+1] - fieldset.U.grid.time[ti])
-        time_i = np.linspace(0, fieldset.U.grid.time[ti+1] - fieldset.U.grid.time[ti], I_s)
-        ds_t = min(ds_t, time_i[np.where(time - fieldset.U.grid.time[ti] < time_i)[0][0]])
+        grid_time = fieldset.U.grid.time
+        time = time - periods * (fieldset.U.grid.time_full[-1] - fieldset.U.grid.time_full[0])
+        ti = min(ti, len(grid_time) - 2)
+        # start at a snapshot: use the interval the particle moves into
+        if direction > 0 and ti < len(grid_time) - 2 and grid_time[ti+1] - time < 1e-6 * (grid_time[ti+1] - grid_time[ti]):
+            ti += 1
+        elif direction < 0 and ti > 0 and time - grid_time[ti] < 1e-6 * (grid_time[ti] - grid_time[ti-1]):
+            ti -= 1
+        tau = min(max((time - grid_time[ti]) / (grid_time[ti+1] - grid_time[ti]), 0.), 1.)
+        time_i = direction * (np.linspace(grid_time[ti], grid_time[ti+1], I_s) - time)
+        time_i = time_i[time_i > 1e-6 * (grid_time[ti+1] - grid_time[ti])]
+        if len(time_i) > 0:
+            ds_t = direction * min(abs(ds_t), time_i.min())
 
     xsi, eta, zeta, xi, yi, zi = fieldset.U.search_indices(particle.lon, particle.lat, particle.depth,
                                                            particle=particle)
-- 
2.43.0


From f5065bbe7d3c3e3a8e422971b329279ed0cecd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 46/92] fix: analytical advection took horizontal velocities
 from the layer below

---
 parcels/kernels/advection.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index 3b4ae7f..a608b70 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -138,11 +138,11 @@ def AdvectionAnalytical(particle, fieldset, time):
                                                            particle=particle)
     if withW:
         if abs(xsi - 1) < tol:
-            if fieldset.U.data[0, zi+1, yi+1, xi+1] > 0:
+            if fieldset.U.data[0, zi, yi+1, xi+1] > 0:
                 xi += 1
                 xsi = 0
         if abs(eta - 1) < tol:
-            if fieldset.V.data[0, zi+1, yi+1, xi+1] > 0:
+            if fieldset.V.data[0, zi, yi+1, xi+1] > 0:
                 yi += 1
                 eta = 0
         if abs(zeta - 1) < tol:
@@ -189,15 +189,15 @@ def AdvectionAnalytical(particle, fieldset, time):
     dxdy = fieldset.UV.jacobian(xsi, eta, px, py) * meshJac
 
     if withW:
-        U0 = direction * fieldset.U.data[ti, zi+1, yi+1, xi] * c4 * dz
-        U1 = direction * fieldset.U.data[ti, zi+1, yi+1, xi+1] * c2 * dz
-        V0 = direction * fieldset.V.data[ti, zi+1, yi, xi+1] * c1 * dz
-        V1 = direction * fieldset.V.data[ti, zi+1, yi+1, xi+1] * c3 * dz
+        U0 = direction * fieldset.U.data[ti, zi, yi+1, xi] * c4 * dz
+        U1 = direction * fieldset.U.data[ti, zi, yi+1, xi+1] * c2 * dz
+        V0 = direction * fieldset.V.data[ti, zi, yi, xi+1] * c1 * dz
+        V1 = direction * fieldset.V.data[ti, zi, yi+1, xi+1] * c3 * dz
         if withTime:
-            U0 = U0 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi+1, yi+1, xi] * c4 * dz
-            U1 = U1 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi+1, yi+1, xi+1] * c2 * dz
-            V0 = V0 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi+1, yi, xi+1] * c1 * dz
-            V1 = V1 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi+1, yi+1, xi+1] * c3 * dz
+            U0 = U0 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi, yi+1, xi] * c4 * dz
+            U1 = U1 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi, yi+1, xi+1] * c2 * dz
+            V0 = V0 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi, yi, xi+1] * c1 * dz
+            V1 = V1 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi, yi+1, xi+1] * c3 * dz
     else:
         U0 = direction * fieldset.U.data[ti, yi+1, xi] * c4 * dz
         U1 = direction * fieldset.U.data[ti, yi+1, xi+1] * c2 * dz
-- 
2.43.0


From e87e6d1fa7f44cbdb5d8e44c7ca51ec5a789ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:56 +0000
Subject: [PATCH 47/92] fix: analytical advection left cells through their
 western, southern or upper face, and the domain, unnoticed

---
 parcels/kernels/advection.py | 82 +++++++++++++++---------------------
 1 file changed, 35 insertions(+), 47 deletions(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index a608b70..c2bfd62 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -111,6 +111,7 @@ def AdvectionAnalytical(particle, fieldset, time):
     (default 10 per model timestep) and not yet with the full analytical time integration"""
     import numpy as np
     import parcels.tools.interpolation_utils as i_u
+    from parcels.tools.statuscodes import FieldOutOfBoundError, FieldOutOfBoundSurfaceError
 
     tol = 1e-10
     I_s = 10  # number of intermediate time steps
@@ -136,28 +137,34 @@ def AdvectionAnalytical(particle, fieldset, time):
 
     xsi, eta, zeta, xi, yi, zi = fieldset.U.search_indices(particle.lon, particle.lat, particle.depth,
                                                            particle=particle)
+    def face(field, zi, yi, xi):
+        # velocity through a cell face in the direction of integration
+        def at(ti):
+            return field.data[ti, zi, yi, xi] if field.grid.zdim > 1 else field.data[ti, yi, xi]
+        return direction * (at(ti) * (1 - tau) + tau * at(ti+1) if withTime else at(ti))
+
+    # a particle on a cell face belongs to the cell it is moving into
+    if abs(xsi - 1) < tol and face(fieldset.U, zi, yi+1, xi+1) > 0:
+        xi, xsi = xi + 1, 0
+    elif abs(xsi) < tol and face(fieldset.U, zi, yi+1, xi) < 0:
+        xi, xsi = xi - 1, 1
+    if xi < 0 or xi > fieldset.U.grid.xdim - 2:
+        raise FieldOutOfBoundError(particle.lon, particle.lat, particle.depth, field=fieldset.U)
+    if abs(eta - 1) < tol and face(fieldset.V, zi, yi+1, xi+1) > 0:
+        yi, eta = yi + 1, 0
+    elif abs(eta) < tol and face(fieldset.V, zi, yi, xi+1) < 0:
+        yi, eta = yi - 1, 1
+    if yi < 0 or yi > fieldset.U.grid.ydim - 2:
+        raise FieldOutOfBoundError(particle.lon, particle.lat, particle.depth, field=fieldset.U)
     if withW:
-        if abs(xsi - 1) < tol:
-            if fieldset.U.data[0, zi, yi+1, xi+1] > 0:
-                xi += 1
-                xsi = 0
-        if abs(eta - 1) < tol:
-            if fieldset.V.data[0, zi, yi+1, xi+1] > 0:
-                yi += 1
-                eta = 0
-        if abs(zeta - 1) < tol:
-            if fieldset.W.data[0, zi+1, yi+1, xi+1] > 0:
-                zi += 1
-                zeta = 0
-    else:
-        if abs(xsi - 1) < tol:
-            if fieldset.U.data[0, yi+1, xi+1] > 0:
-                xi += 1
-                xsi = 0
-        if abs(eta - 1) < tol:
-            if fieldset.V.data[0, yi+1, xi+1] > 0:
-                yi += 1
-                eta = 0
+        if abs(zeta - 1) < tol and face(fieldset.W, zi+1, yi+1, xi+1) > 0:
+            zi, zeta = zi + 1, 0
+        elif abs(zeta) < tol and face(fieldset.W, zi, yi+1, xi+1) < 0:
+            zi, zeta = zi - 1, 1
+        if zi < 0:
+            raise FieldOutOfBoundSurfaceError(particle.lon, particle.lat, particle.depth, field=fieldset.W)
+        if zi > fieldset.W.grid.zdim - 2:
+            raise FieldOutOfBoundError(particle.lon, particle.lat, particle.depth, field=fieldset.W)
 
     particle.xi, particle.yi, particle.zi = xi, yi, zi
 
@@ -188,26 +195,10 @@ def AdvectionAnalytical(particle, fieldset, time):
     meshJac = (deg2m * deg2m * math.cos(rad * particle.lat)) if grid.mesh == 'spherical' else 1
     dxdy = fieldset.UV.jacobian(xsi, eta, px, py) * meshJac
 
-    if withW:
-        U0 = direction * fieldset.U.data[ti, zi, yi+1, xi] * c4 * dz
-        U1 = direction * fieldset.U.data[ti, zi, yi+1, xi+1] * c2 * dz
-        V0 = direction * fieldset.V.data[ti, zi, yi, xi+1] * c1 * dz
-        V1 = direction * fieldset.V.data[ti, zi, yi+1, xi+1] * c3 * dz
-        if withTime:
-            U0 = U0 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi, yi+1, xi] * c4 * dz
-            U1 = U1 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi, yi+1, xi+1] * c2 * dz
-            V0 = V0 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi, yi, xi+1] * c1 * dz
-            V1 = V1 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi, yi+1, xi+1] * c3 * dz
-    else:
-        U0 = direction * fieldset.U.data[ti, yi+1, xi] * c4 * dz
-        U1 = direction * fieldset.U.data[ti, yi+1, xi+1] * c2 * dz
-        V0 = direction * fieldset.V.data[ti, yi, xi+1] * c1 * dz
-        V1 = direction * fieldset.V.data[ti, yi+1, xi+1] * c3 * dz
-        if withTime:
-            U0 = U0 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, yi+1, xi] * c4 * dz
-            U1 = U1 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, yi+1, xi+1] * c2 * dz
-            V0 = V0 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, yi, xi+1] * c1 * dz
-            V1 = V1 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, yi+1, xi+1] * c3 * dz
+    U0 = face(fieldset.U, zi, yi+1, xi) * c4 * dz
+    U1 = face(fieldset.U, zi, yi+1, xi+1) * c2 * dz
+    V0 = face(fieldset.V, zi, yi, xi+1) * c1 * dz
+    V1 = face(fieldset.V, zi, yi+1, xi+1) * c3 * dz
 
     def compute_ds(F0, F1, r, direction, tol):
         up = F0 * (1-r) + F1 * r
@@ -231,18 +222,15 @@ def AdvectionAnalytical(particle, fieldset, time):
         else:
             ds = - 1. / B * math.log(F_r1 / F_r0)
 
-        if abs(ds) < tol:
+        if abs(r_target - r) < tol:
             ds = float('inf')
         return ds, B, delta
 
     ds_x, B_x, delta_x = compute_ds(U0, U1, xsi, direction, tol)
     ds_y, B_y, delta_y = compute_ds(V0, V1, eta, direction, tol)
     if withW:
-        W0 = direction * fieldset.W.data[ti, zi, yi+1, xi+1] * dxdy
-        W1 = direction * fieldset.W.data[ti, zi+1, yi+1, xi+1] * dxdy
-        if withTime:
-            W0 = W0 * (1 - tau) + tau * direction * fieldset.W.data[ti+1, zi, yi + 1, xi + 1] * dxdy
-            W1 = W1 * (1 - tau) + tau * direction * fieldset.W.data[ti+1, zi + 1, yi + 1, xi + 1] * dxdy
+        W0 = face(fieldset.W, zi, yi+1, xi+1) * dxdy
+        W1 = face(fieldset.W, zi+1, yi+1, xi+1) * dxdy
         ds_z, B_z, delta_z = compute_ds(W0, W1, zeta, direction, tol)
     else:
         ds_z = float('inf')
-- 
2.43.0


From c9cc7da6437f9257118fe56b27469982d1410056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 48/92] fix: analytical advection through nearly uniform flow
 lost all accuracy on large cells

---
 parcels/kernels/advection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index c2bfd62..b645eb0 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -205,9 +205,9 @@ def AdvectionAnalytical(particle, fieldset, time):
         r_target = 1. if up >= 0. else 0.  # F0 and F1 already include the direction
         B = F0 - F1
         delta = - F0
-        B = 0 if abs(B) < tol else B
+        B = 0 if abs(B) < tol * max(abs(F0), abs(F1)) else B
 
-        if abs(B) > tol:
+        if B != 0:
             F_r1 = r_target + delta / B
             F_r0 = r + delta / B
         else:
@@ -240,7 +240,7 @@ def AdvectionAnalytical(particle, fieldset, time):
 
     # calculate end position in time s_min
     def compute_rs(ds, r, B, delta, s_min):
-        if abs(B) < tol:
+        if B == 0:
             return -delta * s_min + r
         else:
             return (r + delta / B) * math.exp(-B * s_min) - delta / B
-- 
2.43.0


From 07e1457ea5c40166608646fec0f17673061ecfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 49/92] fix: repeated releases started from the moved particles
 instead of the given values

---
 parcels/particlesets/particlesetsoa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index d000511..14c2c94 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -143,11 +143,11 @@ class ParticleSetSOA(BaseParticleSet):
                 if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
                 self.repeat_starttime = self._collection.data['time'][0]
-            self.repeatlon = self._collection.data['lon']
-            self.repeatlat = self._collection.data['lat']
-            self.repeatdepth = self._collection.data['depth']
+            self.repeatlon = self._collection.data['lon'].copy()
+            self.repeatlat = self._collection.data['lat'].copy()
+            self.repeatdepth = self._collection.data['depth'].copy()
             for kwvar in kwargs:
-                self.repeatkwargs[kwvar] = self._collection.data[kwvar]
+                self.repeatkwargs[kwvar] = self._collection.data[kwvar].copy()
 
         if self.repeatdt:
             if MPI and self._collection.pu_indicators is not None:
-- 
2.43.0


From bb95837d306f0992896eb962418d6ebbe227ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:15 +0000
Subject: [PATCH 50/92] fix: release sets with different times or a negative
 repeatdt were accepted or refused with a TypeError

---
 parcels/particlesets/particlesetsoa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 14c2c94..20efda2 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -127,9 +127,9 @@ class ParticleSetSOA(BaseParticleSet):
         self.repeatdt = repeatdt.total_seconds() if isinstance(repeatdt, delta) else repeatdt
         if self.repeatdt:
             if self.repeatdt <= 0:
-                raise('Repeatdt should be > 0')
-            if time[0] and not np.allclose(time, time[0]):
-                raise ('All Particle.time should be the same when repeatdt is not None')
+                raise ValueError('Repeatdt should be > 0')
+            if time[0] is not None and not np.allclose(time, time[0], rtol=0):
+                raise ValueError('All Particle.time should be the same when repeatdt is not None')
             self.repeatpclass = pclass
             self.repeatkwargs = kwargs
 
@@ -140,7 +140,7 @@ class ParticleSetSOA(BaseParticleSet):
             if len(time) > 0 and time[0] is None:
                 self.repeat_starttime = time[0]
             else:
-                if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
+                if not np.allclose(self._collection.data['time'], self._collection.data['time'][0], rtol=0):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
                 self.repeat_starttime = self._collection.data['time'][0]
             self.repeatlon = self._collection.data['lon'].copy()
-- 
2.43.0


From b9940046b4f1fb79fbcd37b0193a3fde3895b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:15 +0000
Subject: [PATCH 51/92] fix: executing a kernel once (dt=0 or runtime=0)
 released a repeated particle set again

---
 parcels/particlesets/baseparticleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 5a0e166..0e92183 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -416,7 +416,7 @@ class BaseParticleSet(NDCluster):
                 interupt_dts.append(self.repeatdt)
             callbackdt = np.min(np.array(interupt_dts))
         time = _starttime
-        if self.repeatdt:
+        if self.repeatdt and dt != 0:
             next_prelease = self.repeat_starttime + (abs(time - self.repeat_starttime) // self.repeatdt + 1) * self.repeatdt * np.sign(dt)
         else:
             next_prelease = np.infty if dt > 0 else - np.infty
-- 
2.43.0


From b26a8f0f7787d2e8612bdc1cc1c0c2ab73cff06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:59 +0000
Subject: [PATCH 52/92] fix: a repeated release at the end of an execution
 could happen twice due to rounding

---
 parcels/particlesets/baseparticleset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 0e92183..f253f83 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -30,6 +30,7 @@ class BaseParticleSet(NDCluster):
     fieldset = None
     time_origin = None
     repeat_starttime = None
+    repeat_lasttime = None
     repeatlon = None
     repeatlat = None
     repeatdepth = None
@@ -39,6 +40,7 @@ class BaseParticleSet(NDCluster):
     def __init__(self, fieldset=None, pclass=None, lon=None, lat=None, depth=None, time=None, repeatdt=None, lonlatdepth_dtype=None, pid_orig=None, **kwargs):
         self._collection = None
         self.repeat_starttime = None
+        self.repeat_lasttime = None
         self.repeatlon = None
         self.repeatlat = None
         self.repeatdepth = None
@@ -418,6 +420,9 @@ class BaseParticleSet(NDCluster):
         time = _starttime
         if self.repeatdt and dt != 0:
             next_prelease = self.repeat_starttime + (abs(time - self.repeat_starttime) // self.repeatdt + 1) * self.repeatdt * np.sign(dt)
+            if self.repeat_lasttime is not None and abs(time - self.repeat_lasttime) <= self.repeatdt * (1 + 1e-9):
+                # continue from the last release, which may only by rounding lie in the previous or this interval
+                next_prelease = self.repeat_lasttime + self.repeatdt * np.sign(dt)
         else:
             next_prelease = np.infty if dt > 0 else - np.infty
         next_output = time + outputdt if dt > 0 else time - outputdt
@@ -456,6 +461,7 @@ class BaseParticleSet(NDCluster):
                 for p in pset_new:
                     p.dt = dt
                 self.add(pset_new)
+                self.repeat_lasttime = next_prelease
                 next_prelease += self.repeatdt * np.sign(dt)
             if abs(time-next_output) < tol:
                 if output_file:
-- 
2.43.0


From 8d242d18833ce85c84bed5e4c4886e5c55a767e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:39 +0000
Subject: [PATCH 53/92] fix: the same output time was written twice when
 reached with different rounding

---
 parcels/particlesets/collectionsoa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index c1b4976..0b0e2ce 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -815,7 +815,9 @@ class ParticleCollectionSOA(ParticleCollection):
         time = time.total_seconds() if isinstance(time, delta) else time
 
         indices_to_write = []
-        if (pfile.lasttime_written != time or deleted_only is False) and \
+        # output times accumulate rounding errors, so that the same moment may be reached with slightly different times
+        same_time = pfile.lasttime_written is not None and np.isclose(time, pfile.lasttime_written, rtol=1e-12, atol=1e-9)
+        if (not same_time or deleted_only is False) and \
            (pfile.write_ondelete is False or deleted_only is not False):
             if self._data['id'].size == 0:
                 logger.warning("ParticleSet is empty on writing as array at time %g" % time)
@@ -828,7 +830,7 @@ class ParticleCollectionSOA(ParticleCollection):
                         indices_to_write = deleted_only
                 else:
                     indices_to_write = _to_write_particles(self._data, time)
-                    if pfile.lasttime_written == time:  # only particles added since the last write
+                    if same_time:  # only particles added since the last write
                         indices_to_write &= np.isin(self._data['id'], pfile.lastids_written, invert=True)
                 if np.any(indices_to_write) > 0:
                     for var in pfile.var_names:
-- 
2.43.0


From ea6217e5263bbc8e5c35a79d88c551c4cee519b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:11 +0000
Subject: [PATCH 54/92] fix: adding to a SummedField changed the added sums,
 and ignored vector fields

---
 parcels/field.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 9fb2697..e9e0133 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1395,8 +1395,7 @@ class Field(object):
             return SummedField('_SummedField', [self, field])
         elif isinstance(field, SummedField):
             assert isinstance(self, type(field[0])), 'Fields in a SummedField should be either all scalars or all vectors'
-            field.insert(0, self)
-            return field
+            return SummedField('_SummedField', [self] + list(field))
 
 
 class VectorField(object):
@@ -1779,14 +1778,13 @@ class SummedField(list):
             return tuple(np.sum(vals, 0)) if isinstance(val, tuple) else np.sum(vals)
 
     def __add__(self, field):
-        if isinstance(field, Field):
+        if isinstance(field, (Field, VectorField)):
             assert isinstance(self[0], type(field)), 'Fields in a SummedField should be either all scalars or all vectors'
-            self.append(field)
+            return SummedField(self.name, list(self) + [field])
         elif isinstance(field, SummedField):
             assert isinstance(self[0], type(field[0])), 'Fields in a SummedField should be either all scalars or all vectors'
-            for fld in field:
-                self.append(fld)
-        return self
+            return SummedField(self.name, list(self) + list(field))
+        return NotImplemented
 
 
 class NestedField(list):
-- 
2.43.0


From f490057e8a316a6ea3668dd9d753d67133702451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 55/92] fix: compiled sampling of summed vector fields ignored
 the errors of all but the last member

---
 parcels/compilation/codegenerator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 16851de..cc28d65 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -904,8 +904,7 @@ class KernelGenerator(ast.NodeVisitor):
             if fld.vector_type == '3D':
                 ccode_conv3 = fld.W.ccode_convert(*args)
                 statements.append(c.Statement("%s *= %s" % (var3, ccode_conv3)))
-            cstat += [c.Assign("err", ccode_eval), c.Block(statements)]
-        cstat += [c.Statement("CHECKSTATUS(err)")]
+            cstat += [c.Assign("err", ccode_eval), c.Block(statements), c.Statement("CHECKSTATUS(err)")]
         node.ccode = c.Block(cstat)
 
     def visit_NestedFieldEvalNode(self, node):
-- 
2.43.0


From 13a7b30c81a26fae37526901a53ac6ffd8bbcedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:15 +0000
Subject: [PATCH 56/92] fix: fields of summed or nested fields could share the
 name of another field in compiled kernels

---
 parcels/fieldset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index aea6350..caf2d42 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -251,9 +251,8 @@ class FieldSet(object):
         ccode_fieldnames = []
         counter = 1
         for fld in self.get_fields():
-            if fld.name not in ccode_fieldnames:
-                fld.ccode_name = fld.name
-            else:
+            fld.ccode_name = fld.name
+            while fld.ccode_name in ccode_fieldnames:
                 fld.ccode_name = fld.name + str(counter)
                 counter += 1
             ccode_fieldnames.append(fld.ccode_name)
-- 
2.43.0


From 6a22bbe9382b38a1c62c2a09ca2729e24b324d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:43 +0000
Subject: [PATCH 57/92] fix: dates as release times were turned into nanosecond
 counts when the fieldset has no dates

---
 parcels/particlesets/particlesetsoa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 20efda2..513c230 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -105,9 +105,10 @@ class ParticleSetSOA(BaseParticleSet):
         if time.size > 0 and type(time[0]) in [datetime, date]:
             time = np.array([np.datetime64(t) for t in time])
         self.time_origin = fieldset.time_origin if self.fieldset is not None else 0
-        if time.size > 0 and isinstance(time[0], np.timedelta64) and not self.time_origin:
+        calendar = self.time_origin.calendar if self.fieldset is not None else None
+        if calendar is None and any(_convert_to_reltime(t) or isinstance(t, np.timedelta64) for t in time):
             raise NotImplementedError('If fieldset.time_origin is not a date, time of a particle must be a double')
-        time = np.array([self.time_origin.reltime(t) if _convert_to_reltime(t) else t for t in time])
+        time = np.array([self.time_origin.reltime(t) if _convert_to_reltime(t) or isinstance(t, np.timedelta64) else t for t in time])
         assert lon.size == time.size, (
             'time and positions (lon, lat, depth) don''t have the same lengths.')
 
-- 
2.43.0


From 6c82f889101924298dd4d4cf4d8bb82f55f52a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:02 +0000
Subject: [PATCH 58/92] fix: dates of model times lost the fraction of a
 second, and failed for lists in other calendars

---
 parcels/tools/converters.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parcels/tools/converters.py b/parcels/tools/converters.py
index 2960301..88993e9 100644
--- a/parcels/tools/converters.py
+++ b/parcels/tools/converters.py
@@ -81,11 +81,16 @@ class TimeConverter(object):
         time = time.time_origin if isinstance(time, TimeConverter) else time
         if self.calendar in ['np_datetime64', 'np_timedelta64']:
             if isinstance(time, (list, np.ndarray)):
-                return [self.time_origin + np.timedelta64(int(t), 's') for t in time]
-            else:
+                return [self.fulltime(t) for t in time]
+            elif time == int(time):
                 return self.time_origin + np.timedelta64(int(time), 's')
+            else:
+                return self.time_origin + np.timedelta64(int(round(time * 1e6)), 'us')
         elif self.calendar in _get_cftime_calendars():
-            return self.time_origin + delta(seconds=time)
+            if isinstance(time, (list, np.ndarray)):
+                return [self.fulltime(t) for t in time]
+            else:
+                return self.time_origin + delta(seconds=time)
         elif self.calendar is None:
             return self.time_origin + time
         else:
-- 
2.43.0


From d1241ef4c4ce8ee41b5806c78784639e4a605ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:40 +0000
Subject: [PATCH 59/92] fix: timestamps with several snapshots per file failed
 when all data are loaded

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index e9e0133..cef0f54 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -229,8 +229,8 @@ class Field(object):
             for findex in range(len(data_filenames)):
                 for f in [data_filenames[findex], ] * len(timestamps[findex]):
                     dataFiles.append(f)
-            timeslices = np.array([stamp for file in timestamps for stamp in file])
-            time = timeslices
+            timeslices = [np.array(file) for file in timestamps]
+            time = np.concatenate(timeslices)
         else:
             timeslices = []
             dataFiles = []
-- 
2.43.0


From c44d08d3ed0b59ea19460b98a7cdc479b1685266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 60/92] fix: output files of fieldsets with a time axis without
 dates had unreadable time units

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 7493771..7cfd0d1 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -136,7 +136,7 @@ class ParticleFile(object):
         self.time = self.dataset.createVariable("time", "f8", coords, fill_value=np.nan)
         self.time.long_name = ""
         self.time.standard_name = "time"
-        if self.time_origin.calendar is None:
+        if self.time_origin.calendar in [None, 'np_timedelta64']:
             self.time.units = "seconds"
         else:
             self.time.units = "seconds since " + str(self.time_origin)
-- 
2.43.0


From 56784970c376d539df84d77fd276deb007adf09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:50 +0000
Subject: [PATCH 61/92] fix: exponential and normal random draws could be
 infinite

---
 parcels/include/random.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parcels/include/random.h b/parcels/include/random.h
index 031e08e..6c138ea 100644
--- a/parcels/include/random.h
+++ b/parcels/include/random.h
@@ -43,7 +43,7 @@ static inline float parcels_normalvariate(float loc, float scale)
     x1 = 2.0 * (float)rand()/(float)(RAND_MAX) - 1.0;
     x2 = 2.0 * (float)rand()/(float)(RAND_MAX) - 1.0;
     w = x1 * x1 + x2 * x2;
-  } while ( w >= 1.0 );
+  } while ( w >= 1.0 || w == 0.0 );
 
   w = sqrt( (-2.0 * log( w ) ) / w );
   y1 = x1 * w;
@@ -53,8 +53,9 @@ static inline float parcels_normalvariate(float loc, float scale)
 static inline float parcels_expovariate(float lamb)
 //Function to create an exponentially distributed random variable 
 {
-  float u;
-  u = (float)rand()/((float)(RAND_MAX) + 1.0);
+  double u;
+  // u is strictly smaller than 1: (float)rand() may be rounded up to RAND_MAX + 1
+  u = rand()/((double)(RAND_MAX) + 1.0);
   return (-log(1.0-u)/lamb);
 }
 
-- 
2.43.0


From e007037ce7f7287945df2010afd610b798569c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:50 +0000
Subject: [PATCH 62/92] fix: Von Mises draws with a large concentration
 parameter could be NaN

---
 parcels/include/random.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parcels/include/random.h b/parcels/include/random.h
index 6c138ea..7cfe799 100644
--- a/parcels/include/random.h
+++ b/parcels/include/random.h
@@ -69,29 +69,30 @@ static inline float parcels_vonmisesvariate(float mu, float kappa)
 /* Based upon an algorithm published in: Fisher, N.I.,                      */
 /* Statistical Analysis of Circular Data", Cambridge University Press, 1993.*/
 {
-  float u1, u2, u3, r, s, z, d, f, q, theta;
+  double u1, u2, u3, r, s, z, d, f, q, theta;
 
   if (kappa <= 1e-6){
     return (2.0 * M_PI * (float)rand()/(float)(RAND_MAX));
   }
 
   s = 0.5 / kappa;
-  if (fabs(s) <= FLT_EPSILON * fabs(s)){
-    return mu;
+  if (s <= DBL_EPSILON){
+    theta = fmod(mu, 2.0*M_PI);
+    return (theta < 0) ? 2.0*M_PI+theta : theta;
   }
   r = s + sqrt(1.0 + s * s);
 
   do {
-    u1 = (float)rand()/(float)(RAND_MAX);
+    u1 = rand()/(double)(RAND_MAX);
     z = cos(M_PI * u1);
 
     d = z / (r + z);
-    u2 = (float)rand()/(float)(RAND_MAX);
+    u2 = rand()/(double)(RAND_MAX);
   }  while ( ( u2 >= (1.0 - d * d) ) && ( u2 > (1.0 - d) * exp(d) ) );
 
   q = 1.0 / r;
-  f = (q + z) / (1.0 + q * z);
-  u3 = (float)rand()/(float)(RAND_MAX);
+  f = fmax(-1.0, fmin(1.0, (q + z) / (1.0 + q * z)));
+  u3 = rand()/(double)(RAND_MAX);
 
   if (u3 > 0.5){
     theta = fmod(mu + acos(f), 2.0*M_PI);
-- 
2.43.0


From c662b38a8baf24b73bedd205cf918108f425da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:40 +0000
Subject: [PATCH 63/92] fix: particle density could not be weighed with a numpy
 array

---
 parcels/particlesets/particlesetsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 513c230..4bf9c20 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -514,7 +514,7 @@ def search_kernel(particle, fieldset, time):
         if isinstance(particle_val, str):
             particle_val = self._collection._data[particle_val]
         else:
-            particle_val = particle_val if particle_val else np.ones(self.size)
+            particle_val = np.ones(self.size) if particle_val is None else particle_val
         density = np.zeros((field.grid.lat.size, field.grid.lon.size), dtype=np.float32)
 
         for i, p in enumerate(self):
-- 
2.43.0


From fc7f1d5095b72424910afa4dba72e4a7f8011822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 64/92] fix: particle density on a curvilinear grid had the
 squared size of the grid

---
 parcels/particlesets/particlesetsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 4bf9c20..509418e 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -515,7 +515,7 @@ def search_kernel(particle, fieldset, time):
             particle_val = self._collection._data[particle_val]
         else:
             particle_val = np.ones(self.size) if particle_val is None else particle_val
-        density = np.zeros((field.grid.lat.size, field.grid.lon.size), dtype=np.float32)
+        density = np.zeros((field.grid.ydim, field.grid.xdim), dtype=np.float32)
 
         for i, p in enumerate(self):
             try:  # breaks if either p.xi, p.yi, p.zi, p.ti do not exist (in scipy) or field not in fieldset
-- 
2.43.0


From c981482c04096cee4eb086a6e938cf376e23bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 65/92] fix: variables initialised from another variable could
 get the value of uninitialised memory

---
 parcels/particlesets/collectionsoa.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 0b0e2ce..1f216c7 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -164,10 +164,14 @@ class ParticleCollectionSOA(ParticleCollection):
                 self._data[kwvar][:] = kwval
                 initialised.add(kwvar)
 
-            # initialise the rest to their default values
-            for v in self.ptype.variables:
-                if v.name in initialised:
-                    continue
+            # initialise the rest to their default values; a variable that refers to another
+            # variable has to wait until that one is initialised
+            pending = [v for v in self.ptype.variables if v.name not in initialised]
+            while pending:
+                names = {v.name for v in pending}
+                v = next((v for v in pending if not (isinstance(v.initial, attrgetter)
+                                                     and names.intersection(v.initial.__reduce__()[1]))), pending[0])
+                pending.remove(v)
 
                 if isinstance(v.initial, Field):
                     for i in range(self.ncount):
-- 
2.43.0


From 726679ff979b50804edd7945e57790e6ebbbe4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:24 +0000
Subject: [PATCH 66/92] fix: the dictionary of chunk sizes given by the user
 was changed while reading

---
 parcels/fieldfilebuffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/fieldfilebuffer.py b/parcels/fieldfilebuffer.py
index f2b34c8..75cc79b 100644
--- a/parcels/fieldfilebuffer.py
+++ b/parcels/fieldfilebuffer.py
@@ -206,6 +206,8 @@ class DaskFileBuffer(NetcdfFileBuffer):
         """
         self.lib = da
         self.chunksize = kwargs.pop('chunksize', 'auto')
+        if isinstance(self.chunksize, dict):
+            self.chunksize = self.chunksize.copy()  # items are removed below, and it may be the dict given by the user
         self.lock_file = kwargs.pop('lock_file', True)
         self.chunk_mapping = None
         self.rechunk_callback_fields = kwargs.pop('rechunk_callback_fields', None)
-- 
2.43.0


From a8f2dd0ea1b97bde33bfa1a2560a7c50197489f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 67/92] fix: compiled sampling of chunked fields with chunks of
 one node used wrong nodes

---
 parcels/include/parcels.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 3ca2ec7..e292221 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -297,13 +297,15 @@ static inline int getBlock2D(int *chunk_info, int yi, int xi, int *block, int *i
     shape[i] = chunk_info[1+i];
     for (j=0; j<shape[i]; j++) {
       chunk_sum += chunk_info[1+ndim+shift+j];
-      if (index[i] < chunk_sum) {
+      if (index[i] < chunk_sum || j == shape[i]-1) {
         chunk_sum -= chunk_info[1+ndim+shift+j];
         break;
       }
     }
     block[i] = j;
     index_local[i] = index[i] - chunk_sum;
+    // the last node stands for nodes beyond it (dimensions of one node, POP fields without a deepest level)
+    if (index_local[i] >= chunk_info[1+ndim+shift+j]) index_local[i] = chunk_info[1+ndim+shift+j] - 1;
   }
 
   int bid =  block[0]*shape[1] +
@@ -332,7 +334,7 @@ static inline StatusCode getCell2D(CField *f, int xi, int yi, int ti, float cell
   int yshift = chunk_info[1];
   int xdim = chunk_info[1+ndim+yshift+block[1]];
 
-  if (((ilocal[0] == ydim-1) && (ydim > 1)) || ((ilocal[1] == xdim-1) && (xdim > 1)))
+  if ((ilocal[0] == ydim-1) || (ilocal[1] == xdim-1))
   {
     // Cell is on multiple chunks
     for (tii=0; tii<2; ++tii){
@@ -362,11 +364,9 @@ static inline StatusCode getCell2D(CField *f, int xi, int yi, int ti, float cell
     float (*data_block)[zdim][ydim][xdim] = (float (*)[zdim][ydim][xdim]) f->data_chunks[blockid];
     for (tii=0; tii<2; ++tii){
       float (*data)[xdim] = (float (*)[xdim]) (data_block[ti+tii]);
-      int xiid = ((xdim==1) ? 0 : 1);
-      int yiid = ((ydim==1) ? 0 : 1);
       for (yii=0; yii<2; yii++)
         for (xii=0; xii<2; xii++)
-          cell_data[tii][yii][xii] = data[ilocal[0]+(yii*yiid)][ilocal[1]+(xii*xiid)];
+          cell_data[tii][yii][xii] = data[ilocal[0]+yii][ilocal[1]+xii];
       if (first_tstep_only == 1)
          break;
     }
@@ -389,13 +389,15 @@ static inline int getBlock3D(int *chunk_info, int zi, int yi, int xi, int *block
     shape[i] = chunk_info[1+i];
     for (j=0; j<shape[i]; j++) {
       chunk_sum += chunk_info[1+ndim+shift+j];
-      if (index[i] < chunk_sum) {
+      if (index[i] < chunk_sum || j == shape[i]-1) {
         chunk_sum -= chunk_info[1+ndim+shift+j];
         break;
       }
     }
     block[i] = j;
     index_local[i] = index[i] - chunk_sum;
+    // the last node stands for nodes beyond it (dimensions of one node, POP fields without a deepest level)
+    if (index_local[i] >= chunk_info[1+ndim+shift+j]) index_local[i] = chunk_info[1+ndim+shift+j] - 1;
   }
 
   int bid =  block[0]*shape[1]*shape[2] +
@@ -426,7 +428,7 @@ static inline StatusCode getCell3D(CField *f, int xi, int yi, int zi, int ti, fl
   int yshift = chunk_info[1+1];
   int xdim = chunk_info[1+ndim+zshift+yshift+block[2]];
 
-  if (((ilocal[0] == zdim-1) && zdim > 1) || ((ilocal[1] == ydim-1) && ydim > 1) || ((ilocal[2] == xdim-1) && xdim >1))
+  if ((ilocal[0] == zdim-1) || (ilocal[1] == ydim-1) || (ilocal[2] == xdim-1))
   {
     // Cell is on multiple chunks\n
     for (tii=0; tii<2; ++tii){
@@ -459,13 +461,10 @@ static inline StatusCode getCell3D(CField *f, int xi, int yi, int zi, int ti, fl
     float (*data_block)[zdim][ydim][xdim] = (float (*)[zdim][ydim][xdim]) f->data_chunks[blockid];
     for (tii=0; tii<2; ++tii){
       float (*data)[ydim][xdim] = (float (*)[ydim][xdim]) (data_block[ti+tii]);
-      int xiid = ((xdim==1) ? 0 : 1);
-      int yiid = ((ydim==1) ? 0 : 1);
-      int ziid = ((zdim==1) ? 0 : 1);
       for (zii=0; zii<2; zii++)
         for (yii=0; yii<2; yii++)
           for (xii=0; xii<2; xii++)
-            cell_data[tii][zii][yii][xii] = data[ilocal[0]+(zii*ziid)][ilocal[1]+(yii*yiid)][ilocal[2]+(xii*xiid)];
+            cell_data[tii][zii][yii][xii] = data[ilocal[0]+zii][ilocal[1]+yii][ilocal[2]+xii];
       if (first_tstep_only == 1)
          break;
     }
-- 
2.43.0


From a7005aecdf4851320ab0abf85b712ca21bb33882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:07 +0000
Subject: [PATCH 68/92] fix: a periodic halo was not added to the members of
 summed and nested fields

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index caf2d42..5bec68a 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -964,7 +964,7 @@ class FieldSet(object):
 
         for grid in self.gridset.grids:
             grid.add_periodic_halo(zonal, meridional, halosize)
-        for attr, value in iter(self.__dict__.items()):
+        for value in self.get_fields():
             if isinstance(value, Field):
                 value.add_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From 260ceb758742f1f51316c4da00ab6c43437a5cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:07 +0000
Subject: [PATCH 69/92] fix: sampling in the meridional halo of a curvilinear
 grid was out of bounds

---
 parcels/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/grid.py b/parcels/grid.py
index 854ea5a..cfa3276 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -435,6 +435,7 @@ class CurvilinearGrid(Grid):
             self.xdim = self.lon.shape[1]
             self.ydim = self.lat.shape[0]
             self.meridional_halo = halosize
+        self.lonlat_minmax = np.array([np.nanmin(self.lon), np.nanmax(self.lon), np.nanmin(self.lat), np.nanmax(self.lat)], dtype=np.float32)
         if isinstance(self, CurvilinearSGrid):
             self.add_Sdepth_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From 2b65a463d4c03b677fe6670de6720cc882a6952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:17 +0000
Subject: [PATCH 70/92] fix: deferred fields got zonal and meridional halos of
 the larger of both sizes

---
 parcels/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index cef0f54..ff8dcc4 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -538,8 +538,10 @@ class Field(object):
                                            self.grid.xdim - 2 * self.grid.zonal_halo)), \
                 ('Field %s expecting a data shape of [tdim, ydim, xdim]. '
                  'Flag transpose=True could help to reorder the data.' % self.name)
-        if self.grid.meridional_halo > 0 or self.grid.zonal_halo > 0:
-            data = self.add_periodic_halo(zonal=self.grid.zonal_halo > 0, meridional=self.grid.meridional_halo > 0, halosize=max(self.grid.meridional_halo, self.grid.zonal_halo), data=data)
+        if self.grid.zonal_halo > 0:
+            data = self.add_periodic_halo(zonal=True, meridional=False, halosize=self.grid.zonal_halo, data=data)
+        if self.grid.meridional_halo > 0:
+            data = self.add_periodic_halo(zonal=False, meridional=True, halosize=self.grid.meridional_halo, data=data)
         return data
 
     def set_scaling_factor(self, factor):
-- 
2.43.0


From bdf891bba297ef02daaf1951c72e63c7984c6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:53 +0000
Subject: [PATCH 71/92] fix: positions outside the halo or in a gap between
 longitudes gave index errors instead of out-of-bounds errors

---
 parcels/field.py               | 6 ++++--
 parcels/include/index_search.h | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index ff8dcc4..0f28b38 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -710,7 +710,7 @@ class Field(object):
         # double precision, so that rounding cannot put a particle on a grid node outside its cell
         lon, lat = np.float64(grid.lon), np.float64(grid.lat)
 
-        if grid.xdim > 1 and (not grid.zonal_periodic):
+        if grid.xdim > 1 and (not grid.zonal_periodic or grid.mesh != 'spherical'):
             if x < grid.lonlat_minmax[0] or x > grid.lonlat_minmax[1]:
                 raise FieldOutOfBoundError(x, y, z, field=self)
         if grid.ydim > 1 and (y < grid.lonlat_minmax[2] or y > grid.lonlat_minmax[3]):
@@ -737,6 +737,8 @@ class Field(object):
                     lon_fixed[indices.argmin():] += 360
                 if x < lon_fixed[0]:
                     lon_fixed -= 360
+                if x < lon_fixed[0] or x > lon_fixed[-1]:
+                    raise FieldOutOfBoundError(x, y, z, field=self)
 
                 lon_index = lon_fixed < x
                 if lon_index.all():
@@ -810,7 +812,7 @@ class Field(object):
         maxIterSearch = 1e6
         it = 0
         tol = 1.e-10
-        if not grid.zonal_periodic:
+        if not grid.zonal_periodic or grid.mesh != 'spherical':
             if x < grid.lonlat_minmax[0] or x > grid.lonlat_minmax[1]:
                 if grid.lon[0, 0] < grid.lon[0, -1]:
                     raise FieldOutOfBoundError(x, y, z, field=self)
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index ce2aaea..cfdd2a1 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -186,7 +186,7 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
   int zonal_periodic = grid->zonal_periodic;
   int z4d = grid->z4d;
 
-  if (zonal_periodic == 0){
+  if (zonal_periodic == 0 || sphere_mesh == 0){
     if ((xdim > 1) && ((x < xy_minmax[0]) || (x > xy_minmax[1])))
       return ERROR_OUT_OF_BOUNDS;
   }
@@ -295,7 +295,7 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
   float (* xgrid)[xdim] = (float (*)[xdim]) xvals;
   float (* ygrid)[xdim] = (float (*)[xdim]) yvals;
 
-  if (zonal_periodic == 0){
+  if (zonal_periodic == 0 || sphere_mesh == 0){
     if ((x < xy_minmax[0]) || (x > xy_minmax[1])){
       if (xgrid[0][0] < xgrid[0][xdim-1]) {return ERROR_OUT_OF_BOUNDS;}
       else if (x < xgrid[0][0] && x > xgrid[0][xdim-1]) {return ERROR_OUT_OF_BOUNDS;}
-- 
2.43.0


From f3bfa498fa8605796f9faf69bc07c8c4b15a2e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 72/92] fix: compiled sampling missed positions on a global
 grid with a halo of more than 45 degrees

---
 parcels/include/index_search.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index cfdd2a1..34365db 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -228,7 +228,17 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
       if (xvalsi1 > xvalsi + 180) xvalsi1 -= 360;
       it++;
       if (it > itMax){
-        return ERROR_OUT_OF_BOUNDS;
+        // longitudes may span so much more than 360 degrees that the search above jumps over the cell
+        for (*xi = 0; *xi < xdim-1; ++(*xi)){
+          xvalsi = xvals[*xi];
+          xvalsi1 = xvals[*xi+1];
+          if ((xvalsi <= x) && (x <= xvalsi1)) break;
+        }
+        if (*xi == xdim-1){
+          *xi = 0;
+          return ERROR_OUT_OF_BOUNDS;
+        }
+        break;
       }
     }
 
-- 
2.43.0


From 6bf29c7752242e479fe6dc1308ee107825c1f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 73/92] fix: grids with different chunk sizes were shared, or
 gave key errors when compared

---
 parcels/fieldset.py |  8 +++-----
 parcels/gridset.py  | 13 ++++++++-----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 5bec68a..c8104e4 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -10,7 +10,7 @@ from parcels.field import NestedField
 from parcels.field import SummedField
 from parcels.field import VectorField
 from parcels.grid import Grid
-from parcels.gridset import GridSet
+from parcels.gridset import GridSet, same_chunksize
 from parcels.grid import GridCode
 from parcels.tools.converters import TimeConverter, convert_xarray_time_units
 from parcels.tools.statuscodes import TimeExtrapolationError
@@ -381,10 +381,8 @@ class FieldSet(object):
                 nowpaths = filenames[var] if isinstance(filenames, dict) and var in filenames else filenames
                 if procdims == dims and procinds == inds:
                     possibly_samegrid = True
-                    if procchunk != varchunksize:
-                        for dim in varchunksize:
-                            if varchunksize[dim][1] != procchunk[dim][1]:
-                                possibly_samegrid &= False
+                    if not same_chunksize(procchunk, varchunksize):
+                        possibly_samegrid = False
                     if not possibly_samegrid:
                         break
                     if varchunksize == 'auto':
diff --git a/parcels/gridset.py b/parcels/gridset.py
index ccc5d17..853fbb0 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -3,6 +3,12 @@ import numpy as np
 __all__ = ['GridSet']
 
 
+def same_chunksize(chunksize1, chunksize2):
+    """Whether two `chunksize` arguments ask for the same chunks (names of the dimensions in the files may differ)"""
+    sizes1, sizes2 = [{dim: c[dim][1] for dim in c} if isinstance(c, dict) else (c or None) for c in (chunksize1, chunksize2)]
+    return sizes1 == sizes2
+
+
 class GridSet(object):
     """GridSet class that holds the Grids on which the Fields are defined
 
@@ -30,11 +36,8 @@ class GridSet(object):
                     sameGrid = False
                     break
 
-            if (g.chunksize != grid.chunksize) and (grid.chunksize not in [False, None]):
-                for dim in grid.chunksize:
-                    if grid.chunksize[dim][1] != g.chunksize[dim][1]:
-                        sameGrid &= False
-                        break
+            if not same_chunksize(g.chunksize, grid.chunksize):
+                sameGrid = False
 
             if sameGrid:
                 existing_grid = True
-- 
2.43.0


From 60d9365c596ea0e3b231a6604235180f3d6f18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 74/92] fix: from_netcdf used the field type given for one
 variable for the following variables too

---
 parcels/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index c8104e4..7a15379 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -367,7 +367,7 @@ class FieldSet(object):
             dims = dimensions[var] if var in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
             inds = indices[var] if (indices and var in indices) else indices
-            fieldtype = fieldtype[var] if (fieldtype and var in fieldtype) else fieldtype
+            varfieldtype = fieldtype.get(var) if isinstance(fieldtype, dict) else fieldtype
             varchunksize = chunksize[var] if (chunksize and var in chunksize) else chunksize  # <varname> -> {<netcdf_dimname>: (<parcels_dimname>, <chunksize_as_int_numeral>) }
 
             grid = None
@@ -405,7 +405,7 @@ class FieldSet(object):
             fields[var] = Field.from_netcdf(paths, (var, name), dims, inds, grid=grid, mesh=mesh, timestamps=timestamps,
                                             allow_time_extrapolation=allow_time_extrapolation,
                                             time_periodic=time_periodic, deferred_load=deferred_load,
-                                            fieldtype=fieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
+                                            fieldtype=varfieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
 
         u = fields.pop('U', None)
         v = fields.pop('V', None)
-- 
2.43.0


From 722f9ec5b5b7b4ee41494cd190b9be370dc9637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 75/92] fix: from_data used the default of
 allow_time_extrapolation of the first variable for all

---
 parcels/fieldset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 7a15379..0668bf5 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -104,8 +104,9 @@ class FieldSet(object):
             dims = dimensions[name] if name in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
 
-            if allow_time_extrapolation is None:
-                allow_time_extrapolation = False if 'time' in dims else True
+            extrapolation = allow_time_extrapolation
+            if extrapolation is None:
+                extrapolation = False if 'time' in dims else True
 
             lon = dims['lon']
             lat = dims['lat']
@@ -122,7 +123,7 @@ class FieldSet(object):
                 kwargs['creation_log'] = 'from_data'
 
             fields[name] = Field(name, datafld, grid=grid, transpose=transpose,
-                                 allow_time_extrapolation=allow_time_extrapolation, time_periodic=time_periodic, **kwargs)
+                                 allow_time_extrapolation=extrapolation, time_periodic=time_periodic, **kwargs)
         u = fields.pop('U', None)
         v = fields.pop('V', None)
         return cls(u, v, fields=fields)
-- 
2.43.0


From 1f67bc14f795e03ce484f0d9bac0429d0aafefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:52 +0000
Subject: [PATCH 76/92] fix: from_xarray ignored time_periodic

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 0f28b38..0961381 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -487,7 +487,7 @@ class Field(object):
 
         grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
         return cls(name, data, grid=grid, allow_time_extrapolation=allow_time_extrapolation,
-                   interp_method=interp_method, **kwargs)
+                   time_periodic=time_periodic, interp_method=interp_method, **kwargs)
 
     def reshape(self, data, transpose=False):
 
-- 
2.43.0


From 79a2d8f3ea24e5a746a914ecb29d62db3e38a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 77/92] fix: alternative variable names were looked for in the
 file of the depths

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 0961381..5f1e2f9 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -352,8 +352,8 @@ class Field(object):
 
         if 'depth' in dimensions:
             with _grid_fb_class(depth_filename, dimensions, indices, netcdf_engine, interp_method=interp_method) as filebuffer:
-                filebuffer.name = filebuffer.parse_name(variable[1])
                 if dimensions['depth'] == 'not_yet_set':
+                    filebuffer.name = filebuffer.parse_name(variable[1])
                     depth = filebuffer.depth_dimensions
                     kwargs['depth_field'] = 'not_yet_set'
                 else:
-- 
2.43.0


From ad626b21cb2b3dd44d24ad68d586aabfd8584996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 78/92] fix: from_netcdf shared the grid of another variable,
 although the files of the coordinates differ

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 0668bf5..fb273cc 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -396,7 +396,7 @@ class FieldSet(object):
                     elif isinstance(filenames[procvar], dict):
                         processedGrid = True
                         for dim in ['lon', 'lat', 'depth']:
-                            if dim in dimensions:
+                            if dim in dims:
                                 processedGrid *= filenames[procvar][dim] == filenames[var][dim]
                     if processedGrid:
                         grid = fields[procvar].grid
-- 
2.43.0


From 34f233581efa9aa59218e1c7035eb7772b872792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 79/92] fix: variables with different time axes in their files
 shared one grid

---
 parcels/field.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 5f1e2f9..b940f2e 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -369,21 +369,22 @@ class Field(object):
         if len(data_filenames) > 1 and 'time' not in dimensions and timestamps is None:
             raise RuntimeError('Multiple files given but no time dimension specified')
 
-        if grid is None:
+        if grid is None or kwargs.get('dataFiles') is None:
             # Concatenate time variable to determine overall dimension
             # across multiple files
             time, time_origin, timeslices, dataFiles = cls.collect_timeslices(timestamps, data_filenames,
                                                                               _grid_fb_class, dimensions,
                                                                               indices, netcdf_engine)
-            grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
-            grid.timeslices = timeslices
-            kwargs['dataFiles'] = dataFiles
-        elif grid is not None and ('dataFiles' not in kwargs or kwargs['dataFiles'] is None):
-            # ==== means: the field has a shared grid, but may have different data files, so we need to collect the
-            # ==== correct file time series again.
-            _, _, _, dataFiles = cls.collect_timeslices(timestamps, data_filenames, _grid_fb_class,
-                                                        dimensions, indices, netcdf_engine)
             kwargs['dataFiles'] = dataFiles
+            if getattr(grid, 'timeslices', None) is not None:
+                # the grid may be shared by fields with different data files, but only if these have the same times
+                grid_time = grid.time[:-1] if grid._add_last_periodic_data_timestep else grid.time
+                if (grid.time_origin != time_origin or not np.array_equal(grid_time, time)
+                        or [len(t) for t in grid.timeslices] != [len(t) for t in timeslices]):
+                    grid = None
+            if grid is None:
+                grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
+                grid.timeslices = timeslices
 
         chunksize = kwargs.get('chunksize', None)
         grid.chunksize = chunksize
-- 
2.43.0


From f71ac866d54dce0d708f8877a9fb9a6b7bbd3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 80/92] fix: fields in memory shared the grid of deferred
 loaded fields, and were sampled at wrong times

---
 parcels/gridset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parcels/gridset.py b/parcels/gridset.py
index 853fbb0..0afd7ae 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -39,6 +39,10 @@ class GridSet(object):
             if not same_chunksize(g.chunksize, grid.chunksize):
                 sameGrid = False
 
+            # the times of deferred grids change during the execution
+            if g.defer_load != grid.defer_load:
+                sameGrid = False
+
             if sameGrid:
                 existing_grid = True
                 field.grid = g
-- 
2.43.0


From 929288fb6ec05381eff587939f11869a8982377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:06 +0000
Subject: [PATCH 81/92] fix: curvilinear grids with decreasing longitudes were
 read as rectilinear grids, and sampled at wrong positions

---
 parcels/fieldfilebuffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/fieldfilebuffer.py b/parcels/fieldfilebuffer.py
index 75cc79b..ca9d29f 100644
--- a/parcels/fieldfilebuffer.py
+++ b/parcels/fieldfilebuffer.py
@@ -90,7 +90,8 @@ class NetcdfFileBuffer(_FileBuffer):
             lon_subset = np.array(lon[0, 0, self.indices['lat'], self.indices['lon']])
             lat_subset = np.array(lat[0, 0, self.indices['lat'], self.indices['lon']])
         if len(lon.shape) > 1:  # Tests if lon, lat are rectilinear but were stored in arrays
-            rectilinear = True
+            # longitudes of rectilinear grids must not decrease
+            rectilinear = lon_subset.shape[1] == 1 or not np.all(np.diff(lon_subset[0, :]) < 0)
             # test if all columns and rows are the same for lon and lat (in which case grid is rectilinear)
             for xi in range(1, lon_subset.shape[0]):
                 if not np.allclose(lon_subset[0, :], lon_subset[xi, :]):
-- 
2.43.0


From 35beb4f02d2f0f27595bffc51c02dc11214be7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 82/92] fix: grids with coordinates that differ by less than
 1e-5 of their values were shared

---
 parcels/gridset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/gridset.py b/parcels/gridset.py
index 0afd7ae..fca5894 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -32,7 +32,7 @@ class GridSet(object):
             for attr in ['lon', 'lat', 'depth', 'time']:
                 gattr = getattr(g, attr)
                 gridattr = getattr(grid, attr)
-                if gattr.shape != gridattr.shape or not np.allclose(gattr, gridattr):
+                if gattr.shape != gridattr.shape or not np.allclose(gattr, gridattr, rtol=2e-7):
                     sameGrid = False
                     break
 
-- 
2.43.0


From 3d3f1293654b45f314df39e949e75a46f7ec46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 83/92] fix: curvilinear grids with small angles or cells were
 read as rectilinear grids

---
 parcels/fieldfilebuffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/fieldfilebuffer.py b/parcels/fieldfilebuffer.py
index ca9d29f..e4b6599 100644
--- a/parcels/fieldfilebuffer.py
+++ b/parcels/fieldfilebuffer.py
@@ -94,12 +94,12 @@ class NetcdfFileBuffer(_FileBuffer):
             rectilinear = lon_subset.shape[1] == 1 or not np.all(np.diff(lon_subset[0, :]) < 0)
             # test if all columns and rows are the same for lon and lat (in which case grid is rectilinear)
             for xi in range(1, lon_subset.shape[0]):
-                if not np.allclose(lon_subset[0, :], lon_subset[xi, :]):
+                if not np.allclose(lon_subset[0, :], lon_subset[xi, :], rtol=2e-7):
                     rectilinear = False
                     break
             if rectilinear:
                 for yi in range(1, lat_subset.shape[1]):
-                    if not np.allclose(lat_subset[:, 0], lat_subset[:, yi]):
+                    if not np.allclose(lat_subset[:, 0], lat_subset[:, yi], rtol=2e-7):
                         rectilinear = False
                         break
             if rectilinear:
-- 
2.43.0


From 78afe78c3ff98c18f6a2b00e9801960475abbe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:05 +0000
Subject: [PATCH 84/92] fix: restarting with a particle class that writes a
 variable differently than the file failed

---
 parcels/particlesets/particlesetsoa.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 509418e..d8c8099 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -358,14 +358,12 @@ class ParticleSetSOA(BaseParticleSet):
         pfile_vars = [v for v in pfile.data_vars]
 
         vars = {}
-        to_write = {}
         for v in pclass.getPType().variables:
             if v.name in pfile_vars:
                 vars[v.name] = np.ma.filled(pfile.variables[v.name], np.nan)
             elif v.name not in ['xi', 'yi', 'zi', 'ti', 'dt', '_next_dt', 'depth', 'id', 'fileid', 'state'] \
                     and v.to_write:
                 raise RuntimeError('Variable %s is in pclass but not in the particlefile' % v.name)
-            to_write[v.name] = v.to_write
         vars['depth'] = np.ma.filled(pfile.variables['z'], np.nan)
         vars['id'] = np.ma.filled(pfile.variables['trajectory'], np.nan)
 
@@ -381,10 +379,10 @@ class ParticleSetSOA(BaseParticleSet):
 
         inds = np.where(vars['time'] == restarttime)
         for v in vars:
-            if to_write[v] is True:
-                vars[v] = vars[v][inds]
-            elif to_write[v] == 'once':
+            if vars[v].ndim == 1:  # written only once per trajectory
                 vars[v] = vars[v][inds[0]]
+            else:
+                vars[v] = vars[v][inds]
             if v not in ['lon', 'lat', 'depth', 'time', 'id']:
                 kwargs[v] = vars[v]
 
-- 
2.43.0


From 933eb9de3c10c680f244faad78f917c8f8623527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 85/92] fix: restarting from files with non-standard calendars
 failed where times are missing

---
 parcels/particlesets/particlesetsoa.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index d8c8099..b1dc689 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -3,6 +3,7 @@ from datetime import datetime
 from datetime import timedelta as delta
 
 import sys
+import cftime
 import numpy as np
 import xarray as xr
 
@@ -354,7 +355,13 @@ class ParticleSetSOA(BaseParticleSet):
                            'setting a new repeatdt will start particles from the _new_ particle '
                            'locations.' % filename)
 
-        pfile = xr.open_dataset(str(filename), decode_cf=True)
+        pfile = xr.open_dataset(str(filename), decode_cf=True, decode_times=False)
+        units, calendar = pfile['time'].attrs['units'], pfile['time'].attrs.get('calendar', 'standard')
+        cftime_origin = None
+        if calendar == 'standard':
+            pfile = xr.decode_cf(pfile)
+        else:  # xarray cannot decode missing times in other calendars
+            cftime_origin = fieldset.time_origin.reltime(cftime.num2date(0, units, calendar))
         pfile_vars = [v for v in pfile.data_vars]
 
         vars = {}
@@ -367,7 +374,11 @@ class ParticleSetSOA(BaseParticleSet):
         vars['depth'] = np.ma.filled(pfile.variables['z'], np.nan)
         vars['id'] = np.ma.filled(pfile.variables['trajectory'], np.nan)
 
-        if isinstance(vars['time'][0, 0], np.timedelta64):
+        if cftime_origin is not None:
+            vars['time'] = vars['time'] + cftime_origin
+            if isinstance(restarttime, cftime.datetime):
+                restarttime = fieldset.time_origin.reltime(restarttime)
+        elif isinstance(vars['time'][0, 0], np.timedelta64):
             vars['time'] = np.array([t/np.timedelta64(1, 's') for t in vars['time']])
 
         if restarttime is None:
-- 
2.43.0


From df26894aad80c98256cf2d6bc783380a86cf1baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 86/92] fix: particles added after a restart shared the ID of
 deleted particles in the file

---
 parcels/particlesets/particlesetsoa.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index b1dc689..2c2ddfb 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -373,6 +373,7 @@ class ParticleSetSOA(BaseParticleSet):
                 raise RuntimeError('Variable %s is in pclass but not in the particlefile' % v.name)
         vars['depth'] = np.ma.filled(pfile.variables['z'], np.nan)
         vars['id'] = np.ma.filled(pfile.variables['trajectory'], np.nan)
+        ids = vars['id']
 
         if cftime_origin is not None:
             vars['time'] = vars['time'] + cftime_origin
@@ -397,14 +398,18 @@ class ParticleSetSOA(BaseParticleSet):
             if v not in ['lon', 'lat', 'depth', 'time', 'id']:
                 kwargs[v] = vars[v]
 
+        next_id = max(pclass.lastID, int(np.nanmax(ids)) + 1)
         if restart:
             pclass.setLastID(0)  # reset to zero offset
         else:
             vars['id'] = None
 
-        return cls(fieldset=fieldset, pclass=pclass, lon=vars['lon'], lat=vars['lat'],
+        pset = cls(fieldset=fieldset, pclass=pclass, lon=vars['lon'], lat=vars['lat'],
                    depth=vars['depth'], time=vars['time'], pid_orig=vars['id'],
                    lonlatdepth_dtype=lonlatdepth_dtype, repeatdt=repeatdt, **kwargs)
+        if restart:
+            pclass.setLastID(next_id)  # new particles don't share the ID of a particle in the file
+        return pset
 
     def to_dict(self, pfile, time, deleted_only=False):
         """
-- 
2.43.0


From dd10755eb8ee8c9a1440cf50139ff1591651e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:56 +0000
Subject: [PATCH 87/92] fix: restarting at a time that differs from the times
 in the file by rounding lost the particles

---
 parcels/particlesets/particlesetsoa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 2c2ddfb..29190a3 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -389,7 +389,10 @@ class ParticleSetSOA(BaseParticleSet):
         else:
             restarttime = restarttime
 
-        inds = np.where(vars['time'] == restarttime)
+        timediff = vars['time'] - restarttime
+        if np.issubdtype(timediff.dtype, np.timedelta64):
+            timediff = timediff / np.timedelta64(1, 's')
+        inds = np.where(np.abs(timediff) <= 1e-6)  # times may differ by rounding
         for v in vars:
             if vars[v].ndim == 1:  # written only once per trajectory
                 vars[v] = vars[v][inds[0]]
-- 
2.43.0


From d7de5deb30d9c9a1f5d2d075f8d985730d4b24ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:19 +0000
Subject: [PATCH 88/92] fix: populate_indices gave cells outside the grid to
 particles near its last row or column

---
 parcels/particlesets/particlesetsoa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 29190a3..f772679 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -222,8 +222,9 @@ class ParticleSetSOA(BaseParticleSet):
                 _, idx = tree.query(pts.astype(tree_data.dtype))
                 yi, xi = np.unravel_index(idx, grid.lon.shape)
 
-                self._collection.data['xi'][:, i] = xi
-                self._collection.data['yi'][:, i] = yi
+                # the indices are those of the lower left corner of a cell
+                self._collection.data['xi'][:, i] = np.minimum(xi, grid.xdim - 2)
+                self._collection.data['yi'][:, i] = np.minimum(yi, grid.ydim - 2)
 
     @property
     def error_particles(self):
-- 
2.43.0


From b4e8455168448b4dab745267d7a7eaf2f66e2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:41 +0000
Subject: [PATCH 89/92] fix: UNESCODensity: the quadratic pressure term of the
 bulk modulus uses the pressure

---
 parcels/kernels/EOSseawaterproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernels/EOSseawaterproperties.py b/parcels/kernels/EOSseawaterproperties.py
index 4448ca6..3571b3a 100644
--- a/parcels/kernels/EOSseawaterproperties.py
+++ b/parcels/kernels/EOSseawaterproperties.py
@@ -343,6 +343,6 @@ def UNESCODensity(particle, fieldset, time):
     Bw = k0 + k1*T + k2*math.pow(T, 2)
     B2 = Bw + (m0 + m1*T + m2*math.pow(T, 2))*S
 
-    K_STp = K_ST0 + A1*P + B2*math.pow(T, 2)
+    K_STp = K_ST0 + A1*P + B2*math.pow(P, 2)
 
     particle.density = rho_st0/(1-(P/K_STp))
-- 
2.43.0


From be2b455adf55701f67d134a5df4b43a2c2f88098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:20 +0000
Subject: [PATCH 90/92] fix: adding a periodic halo discards the cell sizes of
 the grid without halo

---
 parcels/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/grid.py b/parcels/grid.py
index cfa3276..7fdd76e 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -302,6 +302,7 @@ class RectilinearGrid(Grid):
                                       self.lat, self.lat[0:halosize] + latshift))
             self.ydim = self.lat.size
             self.meridional_halo = halosize
+        self.cell_edge_sizes = {}  # to be computed for the extended grid
         self.lonlat_minmax = np.array([np.nanmin(self.lon), np.nanmax(self.lon), np.nanmin(self.lat), np.nanmax(self.lat)], dtype=np.float32)
         if isinstance(self, RectilinearSGrid):
             self.add_Sdepth_periodic_halo(zonal, meridional, halosize)
-- 
2.43.0


From 898dc070ea5f9a806dc229b2dad0ab95df4699a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:20 +0000
Subject: [PATCH 91/92] fix: cell_edge_sizes is set also if another field on
 the same grid computed it

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index b940f2e..f4901ad 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -592,12 +592,12 @@ class Field(object):
                     for x, (lon, dx) in enumerate(zip(self.grid.lon, np.gradient(self.grid.lon))):
                         self.grid.cell_edge_sizes['x'][y, x] = x_conv.to_source(dx, lon, lat, self.grid.depth[0])
                         self.grid.cell_edge_sizes['y'][y, x] = y_conv.to_source(dy, lon, lat, self.grid.depth[0])
-                self.cell_edge_sizes = self.grid.cell_edge_sizes
             else:
                 logger.error(('Field.cell_edge_sizes() not implemented for ', self.grid.gtype, 'grids.',
                               'You can provide Field.grid.cell_edge_sizes yourself',
                               'by in e.g. NEMO using the e1u fields etc from the mesh_mask.nc file'))
                 exit(-1)
+        self.cell_edge_sizes = self.grid.cell_edge_sizes
 
     def cell_areas(self):
         """Method to calculate cell sizes based on cell_edge_sizes
-- 
2.43.0


From aa236b467b0a84fe0bebccfcb7bf48ffeab881c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:51 +0000
Subject: [PATCH 92/92] fix: limit deferred data to vmin and vmax before
 scaling it

Field(vmin=..., vmax=...) bounds the data as they are in the file: with data
in memory that is done when the Field is created, before set_scaling_factor().
With deferred loading the data were scaled first, so the same FieldSet gave
other values depending on how it was loaded.
---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index f4901ad..a26d8fc 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1321,12 +1321,12 @@ class Field(object):
 
     def rescale_and_set_minmax(self, data):
         data[np.isnan(data)] = 0
-        if self._scaling_factor:
-            data *= self._scaling_factor
         if self.vmin is not None:
             data[data < self.vmin] = 0
         if self.vmax is not None:
             data[data > self.vmax] = 0
+        if self._scaling_factor:
+            data *= self._scaling_factor
         return data
 
     def data_concatenate(self, data, data_to_concat, tindex):
-- 
2.43.0

