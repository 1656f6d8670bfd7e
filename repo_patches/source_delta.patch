From 6a2b5d6d86f98edf1e00a84a4387943c4ad613b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 001/143] fix: Fourier axis edges lie midway between centers,
 single-pixel axes are allowed

---
 simim/map/gridder.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 84e099e..08e07b0 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -16,10 +16,13 @@ from matplotlib import animation
 ###############################################################################
 ##### SECTION 0: Helper Functions #############################################
 ###############################################################################
-def _axis_edges(ax):
-    """Given bin centers (ax) along an axis return the bin edges"""
+def _axis_edges(ax,width=None):
+    """Given bin centers (ax) along an axis return the bin edges. The width of
+    the bin is needed only if the axis contains a single bin"""
     diff = np.diff(ax)
-    newax = ax[:-1] + diff
+    if len(diff) == 0:
+        return np.array([ax[0]-width/2, ax[0]+width/2])
+    newax = ax[:-1] + diff/2
     newax = np.concatenate(([ax[0]-diff[0]/2], newax, [ax[-1]+diff[-1]/2]))
     return newax
     
@@ -190,7 +193,7 @@ class Grid():
             self.axes.append(axis)
 
             self.fourier_axes_centers.append(np.fft.fftshift(np.fft.fftfreq(self.n_pixels[i],self.pixel_size[i])))
-            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i]))
+            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i],1/self.pixel_size[i]))
 
         self.fourier_space = np.zeros(self.n_dimensions,dtype=bool)
 
@@ -318,7 +321,7 @@ class Grid():
                     new_axes_centers[i] = new_axes[i][:-1] + new_pixel_size[i]/2
 
                     new_fourier_axes_centers[i] = np.fft.fftshift(np.fft.fftfreq(new_n_pixels[i],new_pixel_size[i]))
-                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i])
+                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i],1/new_pixel_size[i])
 
         # Won't pad properties array:
         pad_full.append((0,0))
@@ -394,7 +397,7 @@ class Grid():
         self.side_length[ax] = np.ptp(self.axes[ax])
         self.center_point[ax] = np.min(self.axes[ax]) + self.side_length[ax]/2
         self.fourier_axes_centers[ax] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[ax],self.pixel_size[ax]))
-        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax])
+        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax],1/self.pixel_size[ax])
 
 
     # Should expand this method to support linear transformations
@@ -1216,7 +1219,7 @@ class Grid():
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi])
+            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi],1/self.pixel_size[axi])
 
 
     def collapse_dimension(self,ax,in_place=True,weights=None,mode='average'):
-- 
2.43.0


From 3654c06ed8c0cc7836817ca3be80bafadeff604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 002/143] fix: Grid.pad uses the pad width given for each axis

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 08e07b0..644be6c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -309,7 +309,7 @@ class Grid():
                         pad_full.append((0,0))
                         unpad_full.append((-pad[i_pad],-pad[i_pad]))
 
-                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[ax[i]]
+                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[i_pad]
                     if self.fourier_space[i]:
                         new_side_length[i] = self.side_length[i]
                         new_pixel_size[i] = self.side_length[i] / new_n_pixels[i]
-- 
2.43.0


From a8ad3d11d5c408fa2ec3031afcab3634d155fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 003/143] fix: Grid.scale_axis pairs each factor with its axis
 and can hold the center fixed

---
 simim/map/gridder.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 644be6c..55fca58 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -435,11 +435,11 @@ class Grid():
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
-        for i in ax:
+        for i_ax,i in enumerate(ax):
             if scalecenter:
-                self.center_point[i] *= factor[i]
-            self.side_length[i] *= factor[i]
-            self.pixel_size[i] *= factor[i]
+                self.center_point[i] *= factor[i_ax]
+            self.side_length[i] *= factor[i_ax]
+            self.pixel_size[i] *= factor[i_ax]
 
             # Handle units inputs:
             if axunits is None:
@@ -452,22 +452,22 @@ class Grid():
                 self.axunits[i] = axunits
                 self.fourier_axunits[i] = axunits+'^-1'
             elif len(np.array(axunits,ndmin=1,copy=True))==len(ax):
-                self.axunits[i] = axunits[i]
-                self.fourier_axunits[i] = axunits[i]+'^-1'
+                self.axunits[i] = axunits[i_ax]
+                self.fourier_axunits[i] = axunits[i_ax]+'^-1'
             else:
                 raise ValueError('length of axunits must be 1 or match the length of ax')
 
             # Set up the grid - make sure the side length is compatible with
             # number of pixels
             if scalecenter:
-                self.axes[i] = self.axes[i]*factor[i]
-                self.axes_centers[i] = self.axes_centers[i]*factor[i]
+                self.axes[i] = self.axes[i]*factor[i_ax]
+                self.axes_centers[i] = self.axes_centers[i]*factor[i_ax]
             else:
-                self.axes[i] = (self.axes[i]-self.center[i])*factor[i] + self.center[i]
-                self.axes_centers[i] = (self.axes_centers[i]-self.center[i])*factor[i] + self.center[i]
+                self.axes[i] = (self.axes[i]-self.center_point[i])*factor[i_ax] + self.center_point[i]
+                self.axes_centers[i] = (self.axes_centers[i]-self.center_point[i])*factor[i_ax] + self.center_point[i]
 
-            self.fourier_axes[i] = self.fourier_axes[i]/factor[i]
-            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[i]
+            self.fourier_axes[i] = self.fourier_axes[i]/factor[i_ax]
+            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[i_ax]
 
 
     def copy_axes(self,n_properties=1):
-- 
2.43.0


From 0acd0e2cd60cef49dce26fa2fbf6283f339d0de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 004/143] fix: Grid keeps its geometry as floats so integer
 inputs are not truncated by later changes

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 55fca58..4f25e72 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -131,18 +131,18 @@ class Grid():
         self.n_objects = 0
 
         # Handle center_point inputs:
-        self.center_point = np.array(center_point,ndmin=1,copy=True)
+        self.center_point = np.array(center_point,ndmin=1,copy=True,dtype=float)
         self.n_dimensions = len(self.center_point)
 
         # Handle side_length inputs:
-        self.side_length = np.array(side_length,ndmin=1,copy=True)
+        self.side_length = np.array(side_length,ndmin=1,copy=True,dtype=float)
         if len(self.side_length) == 1:
             self.side_length = np.ones(self.n_dimensions)*self.side_length[0]
         if len(self.side_length) != self.n_dimensions:
             raise ValueError("side_length don't match data dimensionality")
 
         # Handle pixel_size inputs
-        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True)
+        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True,dtype=float)
         if len(self.pixel_size) != self.n_dimensions:
             if len(self.pixel_size) == 1:
                 self.pixel_size = np.ones(self.n_dimensions)*self.pixel_size[0]
-- 
2.43.0


From 46319e9ab0aae81bd5e185ceff2677b0f795ad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 005/143] fix: Grid.add_from_cat and Grid.sample accept integer
 positions

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4f25e72..0b07aeb 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -624,7 +624,7 @@ class Grid():
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
-            positions = np.array(positions,ndmin=1,copy=True)
+            positions = np.array(positions,ndmin=1,copy=True,dtype=float)
             if positions.shape[0] > 0:
                 if positions.shape[1] !=self.n_dimensions:
                     raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
@@ -1027,7 +1027,7 @@ class Grid():
         properties = tuple(properties)
 
         # Make sure the positions array is in the right shape and matches the dimensions of the grid
-        positions = np.array(positions,ndmin=1,copy=True)
+        positions = np.array(positions,ndmin=1,copy=True,dtype=float)
         if positions.shape[0] > 0:
             if positions.shape[1] != self.n_dimensions:
                 raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
-- 
2.43.0


From ded1e57ba4700aaa58b0961712f6c83b20591ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 006/143] fix: make Grid.down_sample work

---
 simim/map/gridder.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0b07aeb..d14a73e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1177,7 +1177,7 @@ class Grid():
         
         factor = np.array(factor,ndmin=1).astype(int)
         if len(factor) == 1:
-            factor = np.ones(len(ax))*factor[0]
+            factor = np.ones(len(ax),dtype=int)*factor[0]
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
@@ -1193,17 +1193,20 @@ class Grid():
         else:
             raise ValueError("mode not recognized - must be 'average' or 'sum'.")
 
-        for axi in ax:
+        for axi,fac in zip(ax,factor):
             shape = np.concatenate((self.n_pixels,[self.n_properties]))
-            shape[axi] = shape[axi]//factor[axi]
+            shape[axi] = shape[axi]//fac
+            if shape[axi] < 1:
+                raise ValueError("Cannot bin together more pixels than present in dimension {}".format(axi))
 
             # Downsample
-            new_ax_centers = np.zeros(self.axes_centers[axi].shape)
-            new_grid = np.zeros(shape)
+            new_ax_centers = np.zeros(shape[axi])
+            if self.grid_active:
+                new_grid = np.zeros(shape,dtype=self.grid.dtype)
             for i in range(shape[axi]):
-                slice_ax = slice(i*factor[axi],(i+1)*factor[axi])
-                slices = [slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1)]
-                slices_new = [slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1)]
+                slice_ax = slice(i*fac,(i+1)*fac)
+                slices = tuple(slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1))
+                slices_new = tuple(slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1))
 
                 if self.grid_active:
                     new_grid[slices_new] = use_function(self.grid[slices],axis=axi)
@@ -1213,9 +1216,9 @@ class Grid():
             if self.grid_active:
                 self.grid = new_grid
             self.axes_centers[axi] = new_ax_centers
-            self.axes[axi] = np.concatenate((new_ax_centers-(factor[axi]*self.pixel_size[axi])/2, [new_ax_centers[-1]+(factor[axi]*self.pixel_size[axi])/2]))
-            self.pixel_size[axi] = self.pixel_size[axi]*factor[axi]
-            self.n_pixels[axi] = self.n_pixels[axi]//factor[axi]
+            self.axes[axi] = np.concatenate((new_ax_centers-(fac*self.pixel_size[axi])/2, [new_ax_centers[-1]+(fac*self.pixel_size[axi])/2]))
+            self.pixel_size[axi] = self.pixel_size[axi]*fac
+            self.n_pixels[axi] = self.n_pixels[axi]//fac
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-- 
2.43.0


From 02e59fae55118bc65013de67caa2a472aee67fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 007/143] fix: Grid.scale_axis does not truncate new axis units

---
 simim/map/gridder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d14a73e..c58658c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -435,6 +435,10 @@ class Grid():
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
+        # Unit arrays may have a fixed string length - don't truncate new units
+        self.axunits = self.axunits.astype(object)
+        self.fourier_axunits = self.fourier_axunits.astype(object)
+
         for i_ax,i in enumerate(ax):
             if scalecenter:
                 self.center_point[i] *= factor[i_ax]
-- 
2.43.0


From 614df4af3708a668f7a3b31f70df426edc7ead6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 008/143] fix: Grid.collapse_dimension handles several axes,
 and weights that include the property dimension

---
 simim/map/gridder.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index c58658c..4cdddfe 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1277,6 +1277,7 @@ class Grid():
         elif len(ax) == 1:
             weights = [weights]
 
+        weights = list(weights)
         if len(weights) != len(ax):
             raise ValueError("Must provide a weights array for each axis to collapse")
         else:
@@ -1296,7 +1297,6 @@ class Grid():
                 elif weights[i].ndim == self.n_dimensions+1:
                     if weights[i].shape != self.grid.shape:
                         raise ValueError("Weights must match shape of grid")
-                    weights[i] = np.expand_dims(weights[i],-1)
                 else:
                     raise ValueError("Weights for axis {} must match size of grid. {} // {}".format(ax[i],len(weights[i]),len(self.axes_centers[ax[i]])))
         
@@ -1305,17 +1305,15 @@ class Grid():
         elif mode=='average':
             norm = []
             for i in range(len(ax)):
-                if weights[i].ndim == 1:
-                    norm.append(np.sum(weights[i]))
-                else:
-                    norm.append(np.sum(weights[i],axis=ax[i]))
+                norm.append(np.sum(weights[i],axis=ax[i],keepdims=True))
         else:
             raise ValueError("mode not recognized - options are 'sum','average'")
 
         # Do the dang thing
         if in_place:
             for i in range(len(ax)):
-                self.grid = np.sum(self.grid*weights[i],axis=ax[i]) / norm[i]
+                self.grid = np.sum(self.grid*weights[i],axis=ax[i],keepdims=True) / norm[i]
+            self.grid = np.squeeze(self.grid,axis=tuple(ax))
 
             # Update grid
             self.n_pixels = self.n_pixels[ax_keep]
@@ -1339,7 +1337,8 @@ class Grid():
             newgrid = self.copy()
 
             for i in range(len(ax)):
-                newgrid.grid = np.sum(newgrid.grid*weights[i],axis=ax[i]) / norm[i]
+                newgrid.grid = np.sum(newgrid.grid*weights[i],axis=ax[i],keepdims=True) / norm[i]
+            newgrid.grid = np.squeeze(newgrid.grid,axis=tuple(ax))
 
             # Update grid
             newgrid.n_pixels = self.n_pixels[ax_keep]
-- 
2.43.0


From 68a03b1b65f91bad431192f504aa5e9cb57c32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 009/143] fix: Grid.add_from_cat adds the ith value column to
 the ith requested property

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4cdddfe..a5dd9a7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -664,11 +664,11 @@ class Grid():
                 if values.shape[1] != len(properties) and values.shape[1] != 1:
                     raise ValueError("Values array does not contain the correct number of properties.")
 
-                for ip in properties:
+                for i,ip in enumerate(properties):
                     if values.shape[1] == 1:
                         v = values.flatten()
                     else:
-                        v = values[:,ip]
+                        v = values[:,i]
                     np.add.at(self.grid,positions+(ip,),v)
 
             # Count the number of objects
-- 
2.43.0


From d355c027ee150f6973810c9b5bbf757c688d6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 010/143] fix: keep one grid unit per property when properties
 are added or selected

---
 simim/map/gridder.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a5dd9a7..547e4de 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -483,12 +483,21 @@ class Grid():
             The number of properties to include in the new grid
 
         """
+        # If properties don't share a common unit, their units can only be
+        # carried over to a grid with the same number of properties
+        gridunits = np.copy(self.gridunits)
+        if len(gridunits) != n_properties:
+            if all(unit == gridunits[0] for unit in gridunits):
+                gridunits = gridunits[:1]
+            else:
+                gridunits = None
+
         grid_copy = Grid(n_properties=n_properties,
                           center_point=np.copy(self.center_point),
                           side_length=np.copy(self.side_length),
                           pixel_size=np.copy(self.pixel_size),
                           axunits=np.copy(self.axunits),
-                          gridunits=np.copy(self.gridunits))
+                          gridunits=gridunits)
         
         return grid_copy
 
@@ -507,6 +516,7 @@ class Grid():
         n_properties = len(properties)
 
         grid_copy = self.copy_axes(n_properties)
+        grid_copy.gridunits = np.copy(self.gridunits[properties])
         
         if self.grid_active:
             grid_copy.grid = np.copy(self.grid[...,tuple(properties)])
@@ -576,14 +586,21 @@ class Grid():
                 raise ValueError("Value array must match shape of grid")
 
             self.grid = np.concatenate((self.grid,value),axis=-1)
-            self.n_properties += value.shape[-1]
+            n_new = value.shape[-1]
 
         # Different behavior if grid isn't activated yet
         if not self.grid_active:
             if value is not None:
                 raise ValueError("data array for this Grid has not been initialized, cannot add new values in property array -- use add_new_prop(value=None) to add an empty new property without initializing grid")
             else:
-                self.n_properties += 1
+                n_new = 1
+
+        # New properties share the unit of the existing ones if there is only
+        # one, otherwise their units are not known
+        units = self.gridunits.tolist()
+        new_unit = units[0] if all(unit == units[0] for unit in units) else None
+        self.gridunits = np.array(units + [new_unit]*n_new)
+        self.n_properties += n_new
 
 
 
-- 
2.43.0


From 7e95d40d54b689526f4e4922bc3f841568e964c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 011/143] fix: Grid.spherical_average fills the last shell and
 does not truncate weights

---
 simim/map/gridder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 547e4de..85a871b 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1752,7 +1752,7 @@ class Grid():
         # Determine the correct bin for each cell - digitize data into shells
         # and then get indices of dimensions that aren't being flattened
         bins_for_cells = np.digitize(rad,shells) - 1
-        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-2))
+        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-1))
         coords_for_cells = np.indices(self.grid.shape)
         coords_for_cells = [bins_for_cells] + \
                            [coords_for_cells[i_ax].flatten() for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + \
@@ -1773,7 +1773,7 @@ class Grid():
         binned_averages = np.zeros(binned_shape,dtype=dtype_data)
         np.add.at(binned_averages,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(self.grid*weights).flatten()[good_inds].reshape(-1,1))
 
-        binned_weights = np.zeros(binned_shape,dtype=int)
+        binned_weights = np.zeros(binned_shape,dtype=float)
         np.add.at(binned_weights,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights).flatten()[good_inds].reshape(-1,1))
 
         binned_averages /= binned_weights
@@ -1786,7 +1786,7 @@ class Grid():
         # Compute standard deviation if requested
         if return_std:
 
-            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-2))
+            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-1))
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
@@ -1798,7 +1798,7 @@ class Grid():
             if biased_std:
                 binned_std = np.sqrt(binned_std/binned_weights)
             else:
-                binned_weights2 = np.zeros(binned_shape,dtype=int)
+                binned_weights2 = np.zeros(binned_shape,dtype=float)
                 np.add.at(binned_weights2,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights**2).flatten()[good_inds].reshape(-1,1))
 
                 binned_std = np.sqrt(binned_std/(binned_weights-binned_weights2/binned_weights))
-- 
2.43.0


From 7b99a71729583a5dbbd5415ca12f2f3f2507db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 012/143] fix: a power spectrum is only in Fourier space along
 the axes that were transformed

---
 simim/map/gridder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 85a871b..b4f0c44 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1588,7 +1588,6 @@ class Grid():
             powspec.is_power_spectrum = True
             powspec.n_objects = self.n_objects
             powspec.fourier_space = np.copy(self.fourier_space)
-            powspec.fourier_space[:] = True
 
             # Invert fourier transforms
             if not cross_grid is None:
-- 
2.43.0


From 8e44b44e2636cb44f809db9bffeb26db0efa2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 013/143] fix: Grid.save checks for an existing file under the
 name it will write

---
 simim/map/gridder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b4f0c44..4c965b3 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -549,6 +549,10 @@ class Grid():
         else:
             savefunc = np.savez
 
+        # numpy appends this extension if it isn't there
+        if not str(path).endswith('.npz'):
+            path = str(path)+'.npz'
+
         if os.path.exists(path) and not overwrite:
             raise ValueError("The file you are trying to create already exists")
 
-- 
2.43.0


From 5cac7ce7d91184abe385736ce05d6bb03301d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 014/143] fix: GridFromAxes does not gain a pixel from floating
 point rounding

---
 simim/map/gridder.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4c965b3..61ca111 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2393,14 +2393,6 @@ class GridFromAxes(Grid):
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits)
 
-        n_pixels_decimal = self.side_length/self.pixel_size
-        n_pixels_ceil = np.ceil(n_pixels_decimal)
-        if np.any(n_pixels_decimal != n_pixels_ceil):
-            self.side_length = self.pixel_size * n_pixels_ceil
-            if (not side_length is None) and (not center_point is None):
-                warnings.warn("Side lengths increased to accomodate integer number of pixels")
-        self.n_pixels = n_pixels_ceil.astype('int')
-
 class GridFromAxesAndFunction(GridFromAxes):
     def __init__(self,function,*axes,function_kwargs={},n_properties=1,axunits=None,gridunits=None):
         """Initialize a Grid from a set of axes and populate it using a function
-- 
2.43.0


From 486cc79654cf88b6cf6763442412600a9db374a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 015/143] fix: Grid.add_from_spec_func can add a new property
 from an empty list of positions

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 61ca111..a9983bc 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -904,7 +904,7 @@ class Grid():
             if positions.ndim == 1:
                 if new_prop:
                     new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.new_prop(new_grid)
+                    self.add_new_prop(new_grid)
             
             return
 
-- 
2.43.0


From d20e816401ca763368c1bb29f86ce288539b2da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:05 +0000
Subject: [PATCH 016/143] fix: the automatic Gridder extent contains the
 extreme positions

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a9983bc..6ba4df0 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2113,7 +2113,7 @@ class Gridder(Grid):
 
         # Handle side_length inputs:
         if side_length is None:
-            side_length = ptps * 1.0000001 # Expand slightly so both extrema get gridded
+            side_length = pixel_size * (np.floor(ptps/pixel_size)+1) # Fewest pixels that contain both extrema
             side_length[ptps==0] = 1 # In case dimension is flat
         else:
             side_length = np.array(side_length,ndmin=1,copy=True)
-- 
2.43.0


From cd3cf2fc0dee016942a0c8a783490e993bcc9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:05 +0000
Subject: [PATCH 017/143] fix: adding an empty catalog as a new grid property
 works for any empty positions

---
 simim/map/gridder.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6ba4df0..3a40e55 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -639,13 +639,10 @@ class Grid():
         
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                positions = positions.reshape((positions.shape[0],1))
-
-                if new_props:
-                    new_n_properties = values.shape[1]
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
-                    self.add_new_prop(new_grid)
+            if new_props:
+                new_n_properties = 1 if np.ndim(values) < 2 else np.shape(values)[1]
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
+                self.add_new_prop(new_grid)
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
@@ -738,10 +735,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.add_new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
@@ -901,10 +897,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.add_new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
-- 
2.43.0


From f79b81cab587c284c02234e53254c439a28af26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:05 +0000
Subject: [PATCH 018/143] fix: cross power of a one-property grid with a
 many-property grid has one property per product

---
 simim/map/gridder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 3a40e55..20165a5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1541,6 +1541,9 @@ class Grid():
         if in_place:
             if not cross_grid is None:
                 self.grid = (self.grid * cross_grid.grid.conj()).real
+                if self.n_properties != self.grid.shape[-1]: # Broadcast against cross_grid
+                    self.n_properties = self.grid.shape[-1]
+                    self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)])
                 # for i in range(len(self.gridunits)):
                 #     if not self.gridunits[i] is None:
                 #         self.gridunits[i] += cross_grid.gridunits[i] + unit_end
@@ -1565,7 +1568,10 @@ class Grid():
         # spectrum and return it, plus invert the fourier transforms
         # to the original grid
         else:
-            powspec = Grid(self.n_properties,self.center_point,self.side_length,self.pixel_size,self.axunits,self.gridunits)
+            n_properties = self.n_properties
+            if not cross_grid is None:
+                n_properties = max(n_properties,cross_grid.n_properties)
+            powspec = self.copy_axes(n_properties)
 
             # TO DO!! Tidy up the units
             # for i in range(len(powspec.gridunits)):
-- 
2.43.0


From 2834f259b1b610b305c3539cf0ae212c4574c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 019/143] fix: the automatic Gridder extent survives rounding
 and flat dimensions with large pixels

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 20165a5..826013e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2114,8 +2114,8 @@ class Gridder(Grid):
 
         # Handle side_length inputs:
         if side_length is None:
-            side_length = pixel_size * (np.floor(ptps/pixel_size)+1) # Fewest pixels that contain both extrema
-            side_length[ptps==0] = 1 # In case dimension is flat
+            side_length = pixel_size * (np.floor(np.round(ptps/pixel_size,6))+1) # Fewest pixels that contain both extrema
+            side_length[ptps==0] = np.maximum(side_length[ptps==0],1) # In case dimension is flat
         else:
             side_length = np.array(side_length,ndmin=1,copy=True)
             if len(side_length) == 1:
-- 
2.43.0


From 456715dcd0edd5cad07f42c274b78d61e3e00c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 020/143] fix: Grid.convolve accepts a pad width per axis given
 as a tuple

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 826013e..7a302bb 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1150,6 +1150,8 @@ class Grid():
             pad = np.array([pad for i in range(len(ax))]).astype(int)
         elif pad is None:
             pad = np.array([0 for i in range(len(ax))]).astype(int)
+        else:
+            pad = np.array(pad).astype(int)
 
         # Do the dang thing
         if in_place:
-- 
2.43.0


From 56e0b7dc670bf3a338c13cc56555a859e71b579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 021/143] fix: the spectral axis of a SpectralPSF has cell
 edges like every other axis

---
 simim/map/gridder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 7a302bb..811b90c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2321,7 +2321,6 @@ class SpectralPSF(Grid):
         pixel_size = np.concatenate((pixel_size,[np.abs(spec_axis[1]-spec_axis[0])]))
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits=None)
-        self.axes[-1] = spec_axis
 
         # Make the grid
         sig = self.fwhm0 / (2*np.sqrt(2*np.log(2)))
-- 
2.43.0


From eb3a6a45df0acff43cb9c7f2319073dfde0a0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 022/143] fix: logarithmic shells of Grid.spherical_average
 include the innermost cell

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 811b90c..7fb40fa 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1739,6 +1739,8 @@ class Grid():
                 if bin_min <=0:
                     bin_min = np.min(rad[rad>0])
                 shells = np.logspace(np.log10(bin_min),np.log10(bin_max),bin_n+1)
+                shells[0] = bin_min # Not exact in logspace, which can exclude the first data point
+                shells[-1] = bin_max
             else:
                 raise ValueError("bin mode must be in ['log','linear'].")
         
-- 
2.43.0


From 1b4764ce59f1d103d43143267e2a10601ca20423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 023/143] fix: logarithmic shells of Grid.spherical_average do
 not start at a radius that is zero up to rounding

---
 simim/map/gridder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 7fb40fa..3a12b9b 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1736,8 +1736,9 @@ class Grid():
             if binmode == 'linear':
                 shells = np.linspace(bin_min,bin_max,bin_n+1)
             elif binmode == 'log':
-                if bin_min <=0:
-                    bin_min = np.min(rad[rad>0])
+                rad_zero = bin_max/1e10 # Radii smaller than this are zero up to rounding
+                if bin_min <= rad_zero:
+                    bin_min = np.min(rad[rad>rad_zero])
                 shells = np.logspace(np.log10(bin_min),np.log10(bin_max),bin_n+1)
                 shells[0] = bin_min # Not exact in logspace, which can exclude the first data point
                 shells[-1] = bin_max
-- 
2.43.0


From 22c522bf0d9b61a119339f329ad489590fd1385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 024/143] fix: the outermost cell is in the last automatic
 shell when all radii are similar

---
 simim/map/gridder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 3a12b9b..34d50f0 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1720,7 +1720,8 @@ class Grid():
 
             bin_min = np.min(rad)
             bin_max = np.max(rad)
-            bin_max = bin_max + (bin_max-bin_min)/1e10 # Make max slightly larger to ensure highest data point fits
+            # Make max slightly larger to ensure highest data point fits
+            bin_max = max(bin_max + (bin_max-bin_min)/1e10, np.nextafter(bin_max,np.inf))
 
             # case 1: no specifications given use min and max of axes
             if shells is None:
-- 
2.43.0


From e6b321d60ee2d8d6410d5ee0251b0ed03c5598dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 025/143] fix: Instrument.map_fields maps the property selected
 for each field

---
 simim/instrument/instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 29b5777..8f39d99 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -867,7 +867,7 @@ class Instrument:
 
         # Iterate through fields
         for f in field_names:
-            field = self.fields[f]
+            field = self.fields[f].copy(properties=self.field_props[f])
 
             all_detector_maps = [None for i in range(len(self.detector_names))]
             
@@ -895,6 +895,7 @@ class Instrument:
             # Hijack last 2d grid and turn it into a grid with each map as a property
             detector_map.grid = all_detector_maps
             detector_map.n_properties = len(self.detector_names)
+            detector_map.gridunits = np.repeat(detector_map.gridunits[:1],detector_map.n_properties)
 
             # Save the result
             self.maps[f] = detector_map
-- 
2.43.0


From dd64103c2e03e4a65c79d4ecedd406407f9b508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 026/143] fix: Instrument.add_field checks the property index
 against the number of properties

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 8f39d99..469bc58 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -672,7 +672,7 @@ class Instrument:
 
         if field_property_idx is None:
             field_property_idx = 0
-        if field_property_idx > grid.n_dimensions-1 or field_property_idx < 0:
+        if field_property_idx > grid.n_properties-1 or field_property_idx < 0:
             raise ValueError(f"grid does not have property {field_property_idx}")
         if _check:
             _check_grid_detector_compatibility(self,grid,field_property_idx)
-- 
2.43.0


From ec650981bd9a6edf7461b2fb6ebdfb9a1e0399ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 027/143] fix: Instrument.map_fields accepts an integer
 kernel_size

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 469bc58..ca3fbaa 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -785,6 +785,8 @@ class Instrument:
         if kernel_size is None:
             kernel_size = np.round(self.best_spatial_res / field.pixel_size[:2]).astype(int) * 10 + 1
         
+        kernel_size = np.ones(2,dtype=int)*kernel_size # Same size along each axis if only one is given
+
         # Check that the value of norm is recognized
         if spatial_response_norm not in ['peak','area','none']:
             raise ValueError("spatial_response_norm must be one of 'peak', 'area', 'none'")
-- 
2.43.0


From 395e4c592cebc9257fce1696aff3903fb4010b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 028/143] fix: check the flux unit of the mapped property only

---
 simim/instrument/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index a35f977..3cca116 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -89,7 +89,7 @@ def _check_grid_detector_compatibility(detector,grid,field_property_idx):
         warnings.warn("Detector unit for flux not specified. Assuming it matches grid unit")
     else:
         try: 
-            _check_unit(grid.gridunits,'flux')
+            _check_unit(grid.gridunits[field_property_idx],'flux')
         except:
             raise ValueError("grid flux unit not recognized")
         if grid.gridunits[field_property_idx] != detector.flux_unit:
-- 
2.43.0


From 66232579b6696ce93947d4a3ef4a8d9b3d9782f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 029/143] fix: a property deleted from disk is gone from every
 list of a Handler, which never lists mass_cuts

---
 simim/_handlers.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 2bd3339..e44d175 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -408,15 +408,18 @@ class Handler():
                 else:
                     del file[self.groupname][property_name]
 
-                    self.properties_saved = [key for key in file[self.groupname].keys()]
-                    properties_all_new = []
-                    for i in self.properties_all:
-                        if i != property_name:
-                            properties_all_new.append(i)
-                    self.properties_all = properties_all_new
-
-                    self.properties_units.pop(property_name,None)
-                    self.properties_h_dependence.pop(property_name,None)
+                    self.properties_saved = [key for key in file[self.groupname].keys() if key not in ['mass_cuts']]
+
+            self.properties_loaded.pop(property_name,None)
+            self._forget_property(property_name)
+
+    def _forget_property(self,property_name):
+        """Remove a property that is neither in memory nor on the disk"""
+
+        self.properties_all = [i for i in self.properties_all if i != property_name]
+        self.properties_generated = [i for i in self.properties_generated if i != property_name]
+        self.properties_units.pop(property_name,None)
+        self.properties_h_dependence.pop(property_name,None)
 
     def set_property_range(self,property_name=None,pmin=-np.inf,pmax=np.inf,reset=True, in_h_units=None):
         """Set a range in a given property to be the active indices. If no
-- 
2.43.0


From 69dd5634d4fd0bfbac4ed6f8a0dd870f9c9c6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 030/143] fix: a generated property that is unloaded without
 being saved no longer exists

---
 simim/_handlers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index e44d175..0dcb890 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -184,6 +184,9 @@ class Handler():
 
             self.properties_loaded.pop(property_name, None)
 
+            if property_name in self.properties_all and property_name not in self.properties_saved:
+                self._forget_property(property_name)
+
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
         """Load a property from file and return
 
-- 
2.43.0


From 63f5c3ab6ce9aa3167dc684f482cfc5b7074bd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 031/143] fix: going back to the saved values of a property
 goes back to their units

---
 simim/_handlers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 0dcb890..0f66954 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -164,6 +164,14 @@ class Handler():
                     property_value = property_value.flatten()
 
             self.properties_loaded[property_name] = property_value
+            self._saved_units(property_name)
+
+    def _saved_units(self, property_name):
+        """Use the units of a property as it is saved on the disk"""
+
+        with h5py.File(self.path,'r') as file:
+            self.properties_units[property_name] = file[self.groupname][property_name].attrs['units']
+            self.properties_h_dependence[property_name] = file[self.groupname][property_name].attrs['h dependence']
 
     def unload_property(self, *property_names):
         """Remove a property from memory (does not erase from file on disk)
@@ -184,7 +192,9 @@ class Handler():
 
             self.properties_loaded.pop(property_name, None)
 
-            if property_name in self.properties_all and property_name not in self.properties_saved:
+            if property_name in self.properties_saved:
+                self._saved_units(property_name)
+            elif property_name in self.properties_all:
                 self._forget_property(property_name)
 
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
-- 
2.43.0


From 6b9e7400a572350ee4e660e46d938784efc57bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 032/143] fix: Handler.make_property accepts integer and
 boolean properties

---
 simim/_handlers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 0f66954..0031466 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -336,8 +336,13 @@ class Handler():
             name = property.names[i]
             newname = names[i]
 
-            prop_values = np.empty(self.nhalos_all,dtype=all_values[i].dtype)
-            prop_values[:] = np.nan
+            prop_dtype = all_values[i].dtype
+            if len(inds) < self.nhalos_all:
+                # Halos that are not evaluated are nan
+                prop_dtype = np.result_type(prop_dtype, np.float16)
+                prop_values = np.full(self.nhalos_all,np.nan,dtype=prop_dtype)
+            else:
+                prop_values = np.empty(self.nhalos_all,dtype=prop_dtype)
             prop_values[inds] = all_values[i]
 
             self.properties_loaded[newname] = prop_values
-- 
2.43.0


From e4667fc532307ff3eb45b2acf0e7dbe144c9d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 033/143] fix: overwriting a property on disk does not convert
 it to the old data type

---
 simim/_handlers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 0031466..9e11701 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -391,6 +391,9 @@ class Handler():
                     raise ValueError("Property {} already exists".format(property_name))
 
             with h5py.File(self.path,'a') as file:
+                new_dtype = property_value.dtype if dtype is None else np.dtype(dtype)
+                if property_name in file[self.groupname].keys() and file[self.groupname][property_name].dtype != new_dtype:
+                    del file[self.groupname][property_name]
                 if not property_name in file[self.groupname].keys():
                     file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
                 else:
-- 
2.43.0


From 9dbbdd272eceb2df93710420d3cf6a6386150de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 034/143] fix: SimHandler can be initialized with its snapshots

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 8702687..7fe9fd7 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -256,7 +256,7 @@ class SimHandler():
 
         self.init_snaps = init_snaps
         if self.init_snaps:
-            self.initialize_all_snaps(redo=True)
+            self.initialize_all_snaps(remake=True)
 
     def initialize_all_snaps(self,remake=False):
         """Initialize SnapHandlers for each snapshot
-- 
2.43.0


From 64d0d978c489f7b24b36321bba7aeae8f98a96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 035/143] fix: snapshots from SimHandler.get_snap use the same
 units as the SimHandler

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 7fe9fd7..c53fafe 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -446,7 +446,7 @@ class SimHandler():
         else:
             snap = snap_meta['index']
             redshift = snap_meta['redshift']
-            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h)
+            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h,in_h_units=self.default_in_h_units)
 
     def get_snap_from_z(self,z):
         """Return a SnapHandler instance for the snapshot closest to a requested redshift
-- 
2.43.0


From f473886309d656924fd12302cacce92066255bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 036/143] fix: SimHandler.z_to_snap accepts the maximum
 redshift

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c53fafe..78de5bb 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -362,7 +362,7 @@ class SimHandler():
 
         if z > np.amax(self.z_bins) or z < 0:
             raise ValueError("z out of range")
-        bin = np.digitize(z,self.z_bins)-1
+        bin = min(np.digitize(z,self.z_bins)-1, len(self.z_bin_snaps)-1)
         bin_id = self.z_bin_snaps[bin]
 
         return bin_id
-- 
2.43.0


From 3c77108110dad9ad8442f0f2f7a9253f63b7ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 037/143] fix: SimHandler.number_volumes is the number of
 volumes that fit in the box

---
 simim/siminterface/simhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 78de5bb..a60c503 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -322,9 +322,9 @@ class SimHandler():
             in_h_units = self.default_in_h_units
 
         if in_h_units:
-            return volume / self.box_edge_h**3
+            return self.box_edge_h**3 / volume
         else:
-            return volume / self.box_edge_no_h**3
+            return self.box_edge_no_h**3 / volume
 
     def extract_snap_meta(self,snap):
         """Get the meta-data for a snapshot
-- 
2.43.0


From cda44db2ebe24b5389fc5314f8f29ef4674a3ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 038/143] fix: mass cuts are made in the units the minimum mass
 is given in

---
 simim/lightcone/lcmaker.py       | 8 ++++----
 simim/siminterface/simhandler.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 257055c..d398f06 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -188,7 +188,7 @@ class GenericLCMaker():
 
                     # Load the snapshot data for the basic fields
                     snap_grp = sim_file[snap_name]
-                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                     masses = snap_grp['mass'][:mass_index]
                     mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -292,7 +292,7 @@ class GenericLCMaker():
 
                     # Load the snapshot data for the basic fields
                     snap_grp = sim_file[snap_name]
-                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                     masses = snap_grp['mass'][:mass_index]
                     mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -668,7 +668,7 @@ class LCMaker(GenericLCMaker):
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
-                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                 masses = snap_grp['mass'][:mass_index]
                 mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -1018,7 +1018,7 @@ class SphereMaker(GenericLCMaker):
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
-                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                 masses = snap_grp['mass'][:mass_index]
                 mass_indices_final = np.where(masses >= self.minimum_mass)[0]
diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index a60c503..b25d310 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -413,7 +413,7 @@ class SimHandler():
             if in_h_units:
                 mass_check = mass
             else:
-                mass_check = mass / self.h
+                mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
             if len(vals) < 1:
-- 
2.43.0


From 0d0698307d8ffd020f0f1eb9c96e5e6bbf8df743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 039/143] fix: SimHandler.get_mass_index includes halos beyond
 the tabulated mass cuts

---
 simim/siminterface/simhandler.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index b25d310..ae02c39 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -416,10 +416,8 @@ class SimHandler():
                 mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
-            if len(vals) < 1:
-                index = 0
-            elif len(vals) == len(mass_cuts):
-                index = mass_cuts['index'][-1]
+            if len(vals) == len(mass_cuts):
+                index = file["Snapshot {}".format(snap)]['mass'].shape[0]
             else:
                 index = mass_cuts['index'][len(vals)]
 
-- 
2.43.0


From bd22e36ab6dc4df5779de7225544c3e037070fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 040/143] fix: cleaning raw data removes that data only,
 whatever characters its path contains

---
 simim/siminterface/_rawsiminterface.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e7ca882..b24cc7f 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 import warnings
 
 from astropy.cosmology import FlatLambdaCDM
@@ -337,7 +338,15 @@ class SimCatalogs():
 
         # Remove stuff
         file_path = os.path.join(self.path,'raw')
-        os.system("rm -r {}".format(file_path))
+        self._remove_raw(file_path)
+
+    def _remove_raw(self,file_path):
+        """Remove a file or directory of raw data"""
+
+        if os.path.isdir(file_path) and not os.path.islink(file_path):
+            shutil.rmtree(file_path)
+        elif os.path.lexists(file_path):
+            os.remove(file_path)
 
     def format(self,remake=False,overwrite=False,basic=False,realtime_clean_raw=False,realtime_clean_raw_check=True):
         """Convert the unformatted simulation data into the uniform format used by 
@@ -577,6 +586,6 @@ class SimCatalogs():
                 rawsnapfiles = self._get_rawsnapfiles(snap)
                 for file in rawsnapfiles:
                     file_path = os.path.join(self.path,'raw',file)
-                    os.system("rm -r {}".format(file_path))
+                    self._remove_raw(file_path)
 
 
-- 
2.43.0


From 91cacbf9f6dcfb767fc5939d6484438d340db7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 041/143] fix: a new formatted file lists the snapshots it
 holds, not all that have metadata

---
 simim/siminterface/_rawsiminterface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index b24cc7f..80bf037 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -430,7 +430,9 @@ class SimCatalogs():
                 for key in self.metadata.keys():
                     file.attrs[key] = self.metadata[key]
 
-                file.attrs['snapshots'] = self.snap_meta
+                snap_meta = self.snap_meta[np.isin(self.snap_meta['index'], snaps_to_do)]
+                file.attrs['snapshots'] = snap_meta
+                file.attrs['number_snaps'] = len(snap_meta)
 
         # Cases 2 and 3 - need to first get the fields to write and figure out what snaps are called for and get current metadata
         # Then sort through the requested snaps and decide whether to overwrite them or not when duplicated
-- 
2.43.0


From c077170e1e17f61f2c02ada607b568e394b97bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 042/143] fix: halo radii of UniverseMachine catalogs are
 labeled with the unit they are converted to

---
 simim/siminterface/universemachine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index b601357..f459da5 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -136,8 +136,8 @@ class UniversemachineCatalogs(SimCatalogs):
             #VMP: Halo vmax at the time when peak mass was reached.
             'vmp':[('vmax_peak','f','km/s',0)],
 
-            #R: Halo radius (BN98 vir, comoving kpc/h)
-            'r':[('r','f','kpc/h',-1)],
+            #R: Halo radius (BN98 vir, comoving kpc/h in raw data, Mpc/h here)
+            'r':[('r','f','Mpc/h',-1)],
 
             #Rank1: halo rank in Delta_vmax (see UniverseMachine paper)
             'rank1':[('Rank1','f','None',0)],
-- 
2.43.0


From 1935d6b92a157e8592e9fe9b3f44cb4f10403900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 043/143] fix: positions from binary UniverseMachine catalogs
 are wrapped into the box

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index f459da5..f17dcad 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -282,7 +282,7 @@ class UniversemachineCatalogs(SimCatalogs):
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-        subhalos['pos'][:,0:3] % self.box_edge
+        subhalos['pos'][:,0:3] %= self.box_edge
         n_halos = len(data_raw)
 
         return subhalos, n_halos
-- 
2.43.0


From 2508a7121512528cb50f2fbedb2af457bc0b97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 044/143] fix: star formation rates in binary UniverseMachine
 catalogs are floats

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index f17dcad..a5584c2 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -271,7 +271,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'),
                                     ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'),
                                     ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'),
-                                    ('icl', 'f4'), ('sfr', 'i4'), ('obs_sm', 'f4'),
+                                    ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'),
                                     ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')],
                              align=True)
 
-- 
2.43.0


From f8249c0ca49ba316710c869de54efcde8a73621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 045/143] fix: UniverseMachine catalogs with a single halo can
 be loaded

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index a5584c2..c63c73a 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -232,7 +232,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('m','f'),('v','f'),('mp','f'),('vmp','f'),('r','f'),
                                     ('rank1','f'),('rank2','f'),('ra','f'),('rarank','f'),
                                     ('sm','f'),('icl','f'),('sfr','f'),('obs_sm','f'),('obs_sfr','f'),('obs_ssfr','f'),('smhm','f'),('obs_uv','f')])
-        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#')
+        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#', ndmin=1)
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-- 
2.43.0


From edf49bf93413b4c05a62538e4fc859e4e2b0ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 046/143] fix: UniverseMachine snapshots come from the file
 whose redshift they have, in whatever order files are listed

---
 simim/siminterface/universemachine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index c63c73a..aed505b 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -85,6 +85,10 @@ class UniversemachineCatalogs(SimCatalogs):
                 raise ValueError("Unable to access file names on {}".format(self.webpage))
             np.save(self.web_path,self.web_files)
 
+        # Snapshots are numbered by increasing scale factor
+        self.web_files = np.array(self.web_files)
+        self.web_files = self.web_files[np.argsort([float(t.split('_')[-1][:-4]) for t in self.web_files])]
+
         # Identify keys that will require unit conversions
         # For UM these are mostly empty because everythings in units
         # we like already.
-- 
2.43.0


From 4313716fbca30e60492ab94486f79273221fb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 047/143] fix: Illustris snapshot metadata is sorted once when
 the snapshots are not listed in order

---
 simim/siminterface/illustris.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index d37573a..42976f9 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -454,8 +454,6 @@ class IllustrisCatalogs(SimCatalogs):
         for i in snap_meta_raw:
             snap_meta_classes.append(Snapshot(i['number'],i['redshift'],self.metadata))
             numbers.append(i['number'])
-        snap_meta_classes = [snap_meta_classes[i] for i in np.argsort(numbers)]
-        
         order = np.argsort(numbers)
         snap_meta_classes = [snap_meta_classes[i] for i in order if numbers[i] in self.snaps]
 
-- 
2.43.0


From b8b7f76c0622eb01ad023b1b44a7b3ba03be3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 048/143] fix: Illustris catalogs have the SFR within the
 stellar half mass radius and within twice that radius

---
 simim/siminterface/illustris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 42976f9..31e5826 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -191,7 +191,7 @@ class IllustrisCatalogs(SimCatalogs):
                             'SubhaloSFRinMaxRad':[('sfr_maxr','f','Msun/yr',0)],
                             # Same as SubhaloSFR, but restricted to cells within
                             # twice the stellar half mass radius.
-                            'SubhaloSFRinHalfRad':[('sfr_2hr','f','Msun/yr',0)],
+                            'SubhaloSFRinRad':[('sfr_2hr','f','Msun/yr',0)],
 
                             # Mass-weighted average metallicity (Mz/Mtot, where
                             # Z = any element above He) of the star particles bound
-- 
2.43.0


From 7100f5f6a6ef88886e5b7e58c67b81c3e55e9e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 049/143] fix: Illustris black hole accretion rates are in the
 unit they are labeled with

---
 simim/siminterface/illustris.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 31e5826..1e23de5 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -253,9 +253,8 @@ class IllustrisCatalogs(SimCatalogs):
         def kpc_to_mpc(x,h):
             return x / 1000
         def illustris_bhmassunit(x,h):
-            return x * 0.978
+            return x * 1e10 / 0.978
         self.transform_keys = {'SubhaloBHMass':power_10,
-                               'SubhaloBHMdot':power_10,
                                'SubhaloMass':power_10,
                                'SubhaloMassInHalfRad':power_10,
                                'SubhaloMassInHalfRadType':power_10,
@@ -268,7 +267,7 @@ class IllustrisCatalogs(SimCatalogs):
                                'SubhaloWindMass':power_10,
                                'SubhaloCM':kpc_to_mpc,
                                'SubhaloHalfmassRad':kpc_to_mpc,
-                               'SuhbaloHalfmassRadType':kpc_to_mpc,
+                               'SubhaloHalfmassRadType':kpc_to_mpc,
                                'SubhaloPos':kpc_to_mpc,
                                'SubhaloSpin':kpc_to_mpc,
                                'SubhaloStellarPhotometricsRad':kpc_to_mpc,
-- 
2.43.0


From 3de68395a2f5d44922ff708dca65368e288a48c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 050/143] fix: remembered paths can contain spaces

---
 simim/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 1761fe5..9ab055a 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -18,7 +18,7 @@ def _checkload_path_file(path):
     if os.path.exists(path):
         with open(path) as file:
             for line in file.readlines():
-                line_split = line.replace('\n','').split(' ')
+                line_split = line.replace('\n','').split(' ',1)
                 endpoint[line_split[0]] = line_split[1]
     return endpoint
 
-- 
2.43.0


From 881974640e180f99778ec69075f926dfc294c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 051/143] fix: MultiProp accepts one h dependence per property

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index f4c950d..043ba55 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -65,7 +65,7 @@ class MultiProp():
         if len(h_dependence)==1:
             self.h_dependence = {key:h_dependence[0] for key in self.names}
         elif len(h_dependence)==len(self.names):
-            self.units = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
+            self.h_dependence = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
         else:
             raise ValueError("h_dependence shape not compatible with prop_names shape")
 
-- 
2.43.0


From a1c449c4648e89f749cee8c238e8c6a884c35cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 052/143] fix: evaluate of Prop and MultiProp passes on
 additional keyword arguments

---
 simim/galprops/galprops.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 043ba55..22bd2d4 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -136,7 +136,7 @@ class MultiProp():
     def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """See evaluate_all - identical functionality. This
         is just a wrapper to match the prop subclass"""
-        return self.evaluate_all(target,use_all_inds,kw_remap)
+        return self.evaluate_all(target,use_all_inds,kw_remap,kw_arguments)
 
 # Function should return an array of length n, where n is the number
 # of objects it is evaluated over, or should be of shape n x m
@@ -188,7 +188,7 @@ class Prop(MultiProp):
         self.unit = units
         self.h_dep = h_dependence
 
-    def evaluate(self,target,use_all_inds=False,kw_remap={}):
+    def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """Apply the property to a target object.
 
         Parameters
@@ -204,6 +204,9 @@ class Prop(MultiProp):
             has kwarg 'x' it will be evaluated on lightcone property 'x', but
             passing the dictionary {'x':'y'} will result in lightcone the
             function being evaluated on lightcone property 'y'.
+        kw_arguments : dict, optional
+            A list of additional keyword arguments to be passed to the property
+            function call
 
         Returns
         -------
@@ -213,7 +216,8 @@ class Prop(MultiProp):
 
         vals = super().evaluate_all(target=target,
                                     use_all_inds=use_all_inds,
-                                    kw_remap=kw_remap)
+                                    kw_remap=kw_remap,
+                                    kw_arguments=kw_arguments)
         return vals[0]
 
 
-- 
2.43.0


From eebbf9c3e40524d8a409b24d18831180cd579be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 053/143] fix: functions of a MultiProp can return their
 properties as a tuple

---
 simim/galprops/galprops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 22bd2d4..5787a7d 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -121,6 +121,8 @@ class MultiProp():
 
         if self.wrap:
             vals = [vals]
+        elif isinstance(vals,tuple):
+            vals = list(vals)
         if len(vals) != len(self.names):
             raise ValueError("prop_function does not return a number of properties matching prop_names")
 
-- 
2.43.0


From 424b2caae8813183f3f586c06552ded24f02e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 054/143] fix: SimHandler.z_to_snap refuses redshifts below the
 lowest snapshot

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index ae02c39..dc073a6 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -360,7 +360,7 @@ class SimHandler():
             The index number of the snapshot matching the requested redshift
         """
 
-        if z > np.amax(self.z_bins) or z < 0:
+        if z > np.amax(self.z_bins) or z < np.amin(self.z_bins):
             raise ValueError("z out of range")
         bin = min(np.digitize(z,self.z_bins)-1, len(self.z_bin_snaps)-1)
         bin_id = self.z_bin_snaps[bin]
-- 
2.43.0


From dc3903fdbbf18cbc9ae10331bfe54185c3adb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 055/143] fix: SimHandler.snap_stat uses the index-numbers of
 snapshots

---
 simim/siminterface/simhandler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index dc073a6..54f7f79 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -639,8 +639,8 @@ class SimHandler():
             If True, values will be fed to stat_function in units including little h.
             If False, little h dependence will be removed.
         snaps : list, optional
-            A list of snapshots on which to evaluate the stat_function. If none is 
-            specified all snapshots will be used.
+            A list of the index-numbers of snapshots on which to evaluate the
+            stat_function. If none is specified all snapshots will be used.
             
         Returns
         -------
@@ -657,11 +657,10 @@ class SimHandler():
         redshifts = []
 
         if snaps is None:
-            snaps = np.arange(len(self.snap_meta))
-        for i in snaps:
-            snap = self.snap_meta['index'][i]
+            snaps = self.snap_meta['index']
+        for snap in snaps:
             print("\033[1m"+"Collecting sources from Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
-            redshifts.append(self.snap_meta['redshift'][i])
+            redshifts.append(self.extract_snap_meta(snap)['redshift'])
 
             handler = self.get_snap(snap)
             vals.append(handler.eval_stat(stat_function,kwargs,kw_remap,other_kws=other_kws,use_all_inds=use_all_inds,give_args_in_h_units=give_args_in_h_units))
-- 
2.43.0


From e0077090ae0ca7e936fbaf99ee695e5602a56aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 056/143] fix: a selection without objects can be gridded

---
 simim/lightcone/lchandler.py     | 2 +-
 simim/siminterface/simhandler.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ddc9032..23257b0 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -300,7 +300,7 @@ class LCHandler(Handler):
 
         grid = Gridder(np.array([x, y, z]).T, props,
                        center_point=c, side_length=l,
-                       pixel_size=res)
+                       pixel_size=res,setndims=3)
 
         if norm is None:
             norm = 1        
diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 54f7f79..45faac6 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -149,7 +149,7 @@ class SnapHandler(Handler):
 
         grid = Gridder(np.array([x, y, z]).T, props,
                        center_point=c, side_length=l,
-                       pixel_size=res)
+                       pixel_size=res,setndims=3)
 
         if norm is None:
             norm = 1
-- 
2.43.0


From f216201d62bf112bebf9445ca0162abae6982927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 057/143] fix: cleaning a Uchuu snapshot includes its twelfth
 data file

---
 simim/siminterface/uchuu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index da962a7..15e56a9 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -242,7 +242,7 @@ class UchuuCatalogs(SimCatalogs):
 
     def _get_rawsnapfiles(self, snapshot):
         """Get path to a snapshot's raw file"""
-        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,12)]
+        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,13)]
         return rawsnapfiles
 
     def download_meta(self, redownload=False):
-- 
2.43.0


From ca5e0c6973bf22c38f5d66810832b065c594e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 058/143] fix: halo ids in UniverseMachine text catalogs are
 not limited to 32 bits

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index aed505b..a6ec04e 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -231,7 +231,7 @@ class UniversemachineCatalogs(SimCatalogs):
             The number of halos found
         """
 
-        dtype_raw = np.dtype(dtype=[('id', 'i'), ('descid','i'),('upid','i'),('flags','i'),('uparent_dist','f'),
+        dtype_raw = np.dtype(dtype=[('id', 'i8'), ('descid','i8'),('upid','i8'),('flags','i'),('uparent_dist','f'),
                                     ('x','f'),('y','f'),('z','f'),('vx','f'),('vy','f'),('vz','f'),
                                     ('m','f'),('v','f'),('mp','f'),('vmp','f'),('r','f'),
                                     ('rank1','f'),('rank2','f'),('ra','f'),('rarank','f'),
-- 
2.43.0


From c1ec7e76de6bf79f297d37909b30dae4d447c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 059/143] fix: the edges of a light cone stay inside the
 simulation box

---
 simim/lightcone/lcmaker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index d398f06..e971529 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -492,10 +492,13 @@ class LCMaker(GenericLCMaker):
             LOS_unit = LOS_vec/np.linalg.norm(LOS_vec)
 
             # Now test that there's enough room in the box for this thing...
-            angles = np.arctan([LOS_unit[1]/LOS_unit[0], LOS_unit[2]/LOS_unit[0], LOS_unit[2]/LOS_unit[1],
-                                LOS_unit[0]/LOS_unit[1], LOS_unit[0]/LOS_unit[2], LOS_unit[1]/LOS_unit[2]])
+            # The smallest angle between the line of sight and a face of the box
+            angle = np.arcsin(np.amin(LOS_unit))
 
-            buffer_coef = 1.01 * np.tan(openradius) / np.sin(np.amin(angles)) # 1.01 is just to provide some padding
+            # Distance along the line of sight needed for the full radius to clear
+            # the face, and for the curvature of surfaces at a fixed distance
+            # 1.01 is just to provide some padding
+            buffer_coef = 1.01 * (np.tan(openradius) / np.tan(angle) + 1 - np.cos(openradius))
 
             max_distance = np.amax(self.snapshots_use['transverse_distance_max'])
             buffer_distance_max = buffer_coef * max_distance
-- 
2.43.0


From ad942f1e5ed056a43abc4aa116c8a68489201a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 060/143] fix: halos behind the observer are not part of a
 light cone

---
 simim/lightcone/lcmaker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index e971529..fe35844 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -757,8 +757,13 @@ class LCMaker(GenericLCMaker):
                         iter_max_distance = start_distance + (iter_ind+1)*use_distance/iters
                         iter_max_distance = np.amin([iter_max_distance,end_distance])
 
+                        # Keep only halos in front of the observer
+                        los_position = (iter_position[:,0] + start_distance
+                                        + iter_ind*use_distance/iters - buffer_distance)
+
                         indices2 = np.where((candidate_distances < iter_max_distance)
-                                            & (candidate_distances >= iter_min_distance))
+                                            & (candidate_distances >= iter_min_distance)
+                                            & (los_position > 0))
 
                         selected_indices = np.intersect1d(indices1,indices2)
                         selected_distances = candidate_distances[selected_indices]
-- 
2.43.0


From 1465d7c058d75cf8f24ee8fe74494487377ab89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 061/143] fix: light cones can begin or end at the boundary of
 two snapshots

---
 simim/lightcone/lcmaker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index fe35844..b0f3783 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -667,7 +667,8 @@ class LCMaker(GenericLCMaker):
                 # Calculate distance to use in box
                 start_distance = np.amax([snap_meta['distance_min'],distance_zmin])
                 end_distance = np.amin([snap_meta['distance_max'],distance_zmax])
-                use_distance = end_distance - start_distance
+                # A snapshot that only touches the light cone (up to rounding) adds nothing
+                use_distance = np.amax([end_distance - start_distance, 0])
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
@@ -695,6 +696,8 @@ class LCMaker(GenericLCMaker):
                     in_box_distance = self.box_edge / np.amax(pointing_los[lc_ind])
 
                     iters = int(np.ceil(use_distance / (in_box_distance-2*buffer_distance)))
+                    if use_distance == 0:
+                        iters = 1
 
                     # Expand the box by making copies if necessary
                     positions = np.copy(positions0)
-- 
2.43.0


From c9a7b17b203621382b87737769465d558856442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 062/143] fix: properties can be added to light cones without
 halos

---
 simim/lightcone/lcmaker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index b0f3783..f1e3f14 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -163,6 +163,8 @@ class GenericLCMaker():
                 chunks = file['Indexing']['sim_indices'].chunks
                 if shape[0] < chunks[0]:
                     chunks = shape
+                if shape[0] == 0:
+                    chunks = None
                 for key in keys:
                     file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
                     if key == 'masscheck':
@@ -270,6 +272,8 @@ class GenericLCMaker():
                 chunks = file['Indexing']['sim_indices'].chunks
                 if shape[0] < chunks[0]:
                     chunks = shape
+                if shape[0] == 0:
+                    chunks = None
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
                         file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks)
-- 
2.43.0


From ddf44b36ae3447bdcbff1630e043435213ce5887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 063/143] fix: properties added to light cones keep their data
 type

---
 simim/lightcone/lcmaker.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index f1e3f14..f144e26 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -153,6 +153,13 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        # Get the data types of the properties
+        dtypes = {}
+        with h5py.File(os.path.join(self.sim_path,'data.hdf5'),'r') as sim_file:
+            snap_grp = sim_file['Snapshot {}'.format(self.snapshots_use[0]['index'])]
+            for key in keys:
+                dtypes[key] = snap_grp['mass' if key == 'masscheck' else key].dtype
+
         # Note in LC files that we're adding properties
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
@@ -166,7 +173,7 @@ class GenericLCMaker():
                 if shape[0] == 0:
                     chunks = None
                 for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
+                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
                     if key == 'masscheck':
                         file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
                         file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
-- 
2.43.0


From 2cd1c569575973878a8d6074f3298c41f378d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 064/143] fix: velocities in light cones are flipped along with
 positions

---
 simim/lightcone/lcmaker.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index f144e26..e3b6740 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -333,6 +333,13 @@ class GenericLCMaker():
                             # Trim values to the indices
                             lc_values = values[:,indexing['index']]
 
+                            # Flip directions along with the box, spins are
+                            # pseudovectors
+                            flips = np.array(lc_file.attrs['box flips'])
+                            if key == 'spin':
+                                flips = flips * np.prod(flips)
+                            lc_values = flips[:,np.newaxis] * lc_values
+
                             # Get the matrices and do transformation
                             los_matrix = lc_file.attrs['line of sight transformation matrix']
                             pa_matrix = lc_file.attrs['position angle transformation matrix']
-- 
2.43.0


From 64a9d667ee52aed73ace25a7e972f1c852ad7c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 065/143] fix: add_pos_properties works for spheres

---
 simim/lightcone/lcmaker.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index e3b6740..01f78e9 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -341,11 +341,15 @@ class GenericLCMaker():
                             lc_values = flips[:,np.newaxis] * lc_values
 
                             # Get the matrices and do transformation
-                            los_matrix = lc_file.attrs['line of sight transformation matrix']
-                            pa_matrix = lc_file.attrs['position angle transformation matrix']
-                            lc_values = np.matmul(los_matrix,lc_values)
-                            lc_values = np.matmul(pa_matrix,lc_values)
+                            if 'line of sight transformation matrix' in lc_file.attrs:
+                                los_matrix = lc_file.attrs['line of sight transformation matrix']
+                                pa_matrix = lc_file.attrs['position angle transformation matrix']
+                                lc_values = np.matmul(los_matrix,lc_values)
+                                lc_values = np.matmul(pa_matrix,lc_values)
 
+                            # Spheres keep the axes of the simulation
+                            else:
+                                lc_values = lc_values[[2,0,1]]
 
                             # Append the data
                             lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[1]
-- 
2.43.0


From 5c680b96a1ed7bda5079772d794e68e469116bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 066/143] fix: centers of mass in light cones are positions in
 the light cone

---
 simim/lightcone/lcmaker.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 01f78e9..75828c2 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -317,6 +317,15 @@ class GenericLCMaker():
                         snap_grp[key+'_y'][:mass_index_final],
                         snap_grp[key+'_z'][:mass_index_final]])
 
+                    # Centers of mass are placed relative to the position of
+                    # the halo, in the same copy of the box
+                    if key == 'cm':
+                        values = values - np.array([
+                            snap_grp['pos_x'][:mass_index_final],
+                            snap_grp['pos_y'][:mass_index_final],
+                            snap_grp['pos_z'][:mass_index_final]])
+                        values = (values + self.box_edge/2) % self.box_edge - self.box_edge/2
+
                     for lc_ind in range(self.n):
                         # print(" "*40+"Working on light cone {}/{}          ".format(lc_ind+1,self.n), end='\r')
 
@@ -351,6 +360,10 @@ class GenericLCMaker():
                             else:
                                 lc_values = lc_values[[2,0,1]]
 
+                            if key == 'cm':
+                                for axis_ind, subkey in [(1,'pos_x'),(2,'pos_y'),(0,'pos_z')]:
+                                    lc_values[axis_ind] += lc_file['Lightcone Full'][subkey][start:start+len(indexing)]
+
                             # Append the data
                             lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[1]
                             lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[2]
-- 
2.43.0


From a84a8804c52e8d3d2208e0d4008996106a35da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 067/143] fix: LCHandler.volume accepts the boxes that fit in a
 circular light cone

---
 simim/lightcone/lchandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 23257b0..ef5a0f3 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -155,8 +155,8 @@ class LCHandler(Handler):
                 raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
 
         if shape == 'box' and self.metadata['shape'] == 'circle':
-            radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
-            if radius2 > self.metadata['open angle']:
+            diagonal = np.sqrt(open_angle**2 + (open_angle*aspect_ratio)**2)
+            if diagonal > self.metadata['open angle']:
                 raise ValueError("specified box does not fit in circular lightcone")
 
         # Figure out the volume
-- 
2.43.0


From 2cb66441695a44acc491738d3b9aabfcfff62cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 068/143] fix: LCHandler.volume refuses circles that do not fit
 in a box light cone

---
 simim/lightcone/lchandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ef5a0f3..1129ced 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -154,6 +154,10 @@ class LCHandler(Handler):
             if open_angle*aspect_ratio > self.metadata['open angle']*self.metadata['aspect ratio']:
                 raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
 
+        if shape == 'circle' and self.metadata['shape'] == 'box':
+            if open_angle > self.metadata['open angle']*self.metadata['aspect ratio']:
+                raise ValueError("specified circle does not fit in box light cone")
+
         if shape == 'box' and self.metadata['shape'] == 'circle':
             diagonal = np.sqrt(open_angle**2 + (open_angle*aspect_ratio)**2)
             if diagonal > self.metadata['open angle']:
-- 
2.43.0


From 26a560b2fd662277c0ff6c3b9487bb5d46fa2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 069/143] fix: LCHandler.volume works for spheres

---
 simim/lightcone/lchandler.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 1129ced..d5b96f0 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -134,9 +134,13 @@ class LCHandler(Handler):
         if shape == None:
             shape=self.metadata['shape']
         
-        if open_angle == None:
+        # Sky area of spheres is fixed by their shape
+        sphere_areas = {'sphere':4*np.pi, 'hemisphere':2*np.pi, 'quarter':np.pi, 'eighth':np.pi/2}
+        is_sphere = self.metadata['shape'] in sphere_areas
+
+        if open_angle == None and not is_sphere:
             open_angle=self.metadata['open angle']
-        if aspect_ratio == None:
+        if aspect_ratio == None and not is_sphere:
             aspect_ratio=self.metadata['aspect ratio']
 
         # Check everything
@@ -145,10 +149,14 @@ class LCHandler(Handler):
         if redshift_max > self.metadata['maximum redshift']:
             raise ValueError("redshift_max higher than maximum of lightcone")
 
-        if shape not in ['box','circle']:
+        if is_sphere:
+            if shape != self.metadata['shape'] or open_angle is not None or aspect_ratio is not None:
+                raise ValueError("Volumes of spherical light cones can only be computed for their full shape")
+
+        elif shape not in ['box','circle']:
             raise ValueError("Shape not recognized")
 
-        if shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
+        elif shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
             if open_angle > self.metadata['open angle']:
                 raise ValueError("openangle larger than lightcone")
             if open_angle*aspect_ratio > self.metadata['open angle']*self.metadata['aspect ratio']:
@@ -168,6 +176,8 @@ class LCHandler(Handler):
             area = open_angle * open_angle * aspect_ratio
         elif shape == 'circle':
             area = np.pi * (open_angle/2)**2
+        else:
+            area = sphere_areas[shape]
 
         v2 = self.cosmo.comoving_volume(redshift_max).value
         v1 = self.cosmo.comoving_volume(redshift_min).value
-- 
2.43.0


From 40e0223cafbcaf69f80f550d02eac4b743edc247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 070/143] fix: LCHandler.eval_stat_evo leaves the selection and
 the keywords it is given as they were

---
 simim/lightcone/lchandler.py | 55 ++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index d5b96f0..c8195e1 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -199,35 +199,36 @@ class LCHandler(Handler):
         redshift_bins = np.sort(redshift_bins)
         
         inds_active_save = np.copy(self.inds_active)
+        other_kws = dict(other_kws)
 
         vals = []
-        for bin in range(len(redshift_bins)-1):
-            self.set_property_range('redshift',
-                                    pmin=redshift_bins[bin],
-                                    pmax=redshift_bins[bin+1],
-                                    reset=True)
-
-            if zmin_kw:
-                other_kws['zmin'] = redshift_bins[bin]
-            if zmax_kw:
-                other_kws['zmax'] = redshift_bins[bin+1]
-            if volume_kw:
-                other_kws['volume'] = self.volume(redshift_min = redshift_bins[bin],
-                                                    redshift_max = redshift_bins[bin+1],
-                                                    in_h_units=give_args_in_h_units)
-
-            vals.append(self.eval_stat(stat_function,
-                                       kwargs=kwargs,
-                                       kw_remap=kw_remap,
-                                       other_kws=other_kws,
-                                       use_all_inds=False,
-                                       give_args_in_h_units=give_args_in_h_units))
-
-            other_kws.pop('zmin',None)
-            other_kws.pop('zmax',None)
-
-        # Reset active inds
-        self.inds_active = np.copy(inds_active_save)
+        try:
+            for bin in range(len(redshift_bins)-1):
+                self.set_property_range('redshift',
+                                        pmin=redshift_bins[bin],
+                                        pmax=redshift_bins[bin+1],
+                                        reset=True)
+
+                if zmin_kw:
+                    other_kws['zmin'] = redshift_bins[bin]
+                if zmax_kw:
+                    other_kws['zmax'] = redshift_bins[bin+1]
+                if volume_kw:
+                    other_kws['volume'] = self.volume(redshift_min = redshift_bins[bin],
+                                                        redshift_max = redshift_bins[bin+1],
+                                                        in_h_units=give_args_in_h_units)
+
+                vals.append(self.eval_stat(stat_function,
+                                           kwargs=kwargs,
+                                           kw_remap=kw_remap,
+                                           other_kws=other_kws,
+                                           use_all_inds=False,
+                                           give_args_in_h_units=give_args_in_h_units))
+
+        finally:
+            # Reset active inds
+            self.inds_active = np.copy(inds_active_save)
+            self.nhalos_active = len(self.inds_active)
 
         return redshift_bins, vals
 
-- 
2.43.0


From 0ce38356d30dc192a72c32fa66ca2b6a8e0254d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 071/143] fix: LCIterator works for spheres and compares the
 shapes of light cones

---
 simim/lightcone/lchandler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index c8195e1..b8f15fa 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -564,10 +564,12 @@ class LCIterator():
 
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
-        for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
-            setattr(self,attr,getattr(ref_lc,attr))
+        # Spheres have no open_angle or aspect_ratio
+        for attr in ['cosmo','shape','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
+            if hasattr(ref_lc,attr):
+                setattr(self,attr,getattr(ref_lc,attr))
             for i_lc in self.lc_numbers[1:]:
-                if getattr(self.lc_handlers[str(i_lc)],attr) != getattr(self,attr):
+                if getattr(self.lc_handlers[str(i_lc)],attr,None) != getattr(self,attr,None):
                     if self.require_consistent:
                         raise ValueError("Attribute {} does not match for light cones {} and {}".format(attr, self.lc_numbers[0],i_lc))
                     else:
-- 
2.43.0


From dad86b9a64b5034837651b586cec24a663e567b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 072/143] fix: fields of snapshots without halos have one value
 per halo, as in other snapshots

---
 simim/siminterface/_rawsiminterface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 80bf037..e413cd3 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -537,7 +537,8 @@ class SimCatalogs():
                 if n_halos > 0:
                     subhalos[key] = subhalos[key][sorted_inds]
                 else:
-                    subhalos[key] = np.zeros((0,len(self.other_fields[key])))
+                    n_subkeys = len(self.other_fields[key])
+                    subhalos[key] = np.zeros((0,n_subkeys)) if n_subkeys > 1 else np.zeros(0)
 
             # Now we want to know the indices where various mass cuts can
             # be applied. We'll do it in steps of 0.1 dex
-- 
2.43.0


From e4ed4b6bb8d859b912f7c8aa31ab1cc2d2f6dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 073/143] fix: a property of no halos of a catalogue of one
 halo is not written to disk

---
 simim/_handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 9e11701..256bdff 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -303,7 +303,7 @@ class Handler():
             inds = self.inds_all
         else:
             inds = self.inds_active
-            if write_to_disk and not np.all(inds==self.inds_all):
+            if write_to_disk and len(inds) != len(self.inds_all):
                 raise ValueError("Cannot write to disk when using restricted index")
 
         # Handle renaming
-- 
2.43.0


From fb49a0d8c39f05e21f1063ce7f68c3decf4a370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 074/143] fix: kamenetzky16 computes the IR luminosity it uses,
 and relates CO to the FIR luminosity; one halo can be given

---
 simim/galprops/line_co.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_co.py b/simim/galprops/line_co.py
index 435d8cb..00b801d 100644
--- a/simim/galprops/line_co.py
+++ b/simim/galprops/line_co.py
@@ -257,7 +257,9 @@ def kamenetzky16(sfr,
     b_not         = np.array([ 0.8,  0.4,  0.9,  1.2,  2.1,  2.3,  2.8,  2.5,  2.7,  2.5,  2.7,  3.4,  2.2])
     b_sig_not     = np.array([ 0.8,  0.9,  0.4,  0.5,  0.5,  0.4,  0.4,  0.5,  0.5,  0.5,  0.6,  0.4,  0.5])
 
-    L_fir = sfr/d_mf*1e10*fircor
+    sfr = np.array(sfr, ndmin=1)
+    L_ir = sfr/d_mf*1e10
+    L_fir = L_ir*fircor
 
     a_gal = np.zeros((len(sfr), len(lines)))
     b_gal = np.zeros((len(sfr), len(lines)))
@@ -276,8 +278,8 @@ def kamenetzky16(sfr,
         a_gal[:,:] = a[lines]
         b_gal[:,:] = b[lines]
 
-    L_ir = L_ir.reshape(len(sfr),1) * np.ones((1,len(lines)))
-    log_L_co_p = (np.log10(L_ir) - b_gal) / a_gal
+    L_fir = L_fir.reshape(len(sfr),1) * np.ones((1,len(lines)))
+    log_L_co_p = (np.log10(L_fir) - b_gal) / a_gal
     L_co_p = np.power(10,log_L_co_p)
     L_co = L_co_p * 4.9e-5 * (f[lines]/constants.nu_co10)**3
 
-- 
2.43.0


From b8cf6355ce5350a30c6ea3ba4e7996b622adbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 075/143] fix: uzgil14 and spinoglio12 name the [SIII] lines as
 they accept them, and refuse unknown lines

---
 simim/galprops/line_fir.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/line_fir.py b/simim/galprops/line_fir.py
index 8aecd04..68451b6 100644
--- a/simim/galprops/line_fir.py
+++ b/simim/galprops/line_fir.py
@@ -153,7 +153,7 @@ def uzgil14(sfr,
 
     The lines available are:
         '[CII]', '[NII]', '[OI]', '[OIII]88um', '[OIII]52um',
-        '[SiII]', '[SiIII]33um', '[SiIII]19um', '[NeII]',
+        '[SiII]', '[SIII]33um', '[SIII]19um', '[NeII]',
         and '[NeIII]'
 
     Parameters
@@ -231,6 +231,8 @@ def uzgil14(sfr,
         sigma_A = 0.07
         B = 3.72
         sigma_B = 0.23
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
@@ -258,7 +260,7 @@ def spinoglio12(sfr,
 
     The lines available are:
         '[CII]', '[NII]', '[OI]', '[OIII]88um', '[OIII]52um',
-        '[SiII]', '[SiIII]33um', '[SiIII]19um', '[NeII]',
+        '[SiII]', '[SIII]33um', '[SIII]19um', '[NeII]',
         and '[NeIII]'
 
     Parameters
@@ -335,6 +337,8 @@ def spinoglio12(sfr,
         sigma_A = 0.07
         B = 4.00
         sigma_B = 0.25
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
-- 
2.43.0


From 5f8ba95961fbeb35ac9c12844f71bf82a67119f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 076/143] fix: delooze14 names the set 'comp/AGN' as it accepts
 it

---
 simim/galprops/line_fir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir.py b/simim/galprops/line_fir.py
index 68451b6..e365793 100644
--- a/simim/galprops/line_fir.py
+++ b/simim/galprops/line_fir.py
@@ -13,7 +13,7 @@ def delooze14(sfr,
     Most lines and galaxy subsets are included. Options for line are:
         '[CII]', '[OI]', and '[OIII]'
     Options for galaxy sets are
-        None, 'DGS', 'dwarfs', 'starbursts', 'comp/agn'
+        None, 'DGS', 'dwarfs', 'starbursts', 'comp/AGN'
     For line='[CII]' you can also select the galaxy set 'high z'.
 
     Parameters
-- 
2.43.0


From b732f84bd88ccfba4cd58a1a6b5d800e6e8285e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 077/143] fix: the Behroozi et al. scatter is drawn from the
 generator given

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 9a291c0..0957d79 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -170,7 +170,7 @@ class behroozi13_base():
         sfrval = self.sfr_function.ev(redshift,mass)
 
         if scatter:
-            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True)
+            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return sfrval
 
@@ -210,7 +210,7 @@ class behroozi13_base():
         stellarmassval = self.stellarmass_function.ev(redshift,mass)
 
         if scatter:
-            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True)
+            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return stellarmassval
 
-- 
2.43.0


From 452062ec7b8af03b0aaa7fe66f9fcecc5a8f078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 078/143] fix: Behroozi et al. properties raise the error that
 setup is incomplete instead of returning it

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 0957d79..4e7455c 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -159,7 +159,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
@@ -199,7 +199,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
-- 
2.43.0


From a1f2a97e8f16fe1f6daa68d659ab1fa53fb39800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 079/143] fix: the duty cycle of yang22 is drawn from the
 generator given

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 55eb1be..1ab7ffc 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -57,7 +57,7 @@ def yang22(mass,redshift,line='CII',
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
-        L[np.random.rand(len(L))>f] = 0
+        L[rng.random(len(L))>f] = 0
 
     return L
 
-- 
2.43.0


From 45f9080c715f6777325c1b96907460e12ac19fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 080/143] fix: yang22 finds the parameters of CI lines

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 1ab7ffc..70c3617 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -232,7 +232,7 @@ def _yang22_ci_fit(redshift,line):
 
     if line not in ['CI1-0','CI2-1']:
         raise ValueError('CI line not recognized')
-    pars = _yang22_ci_params[_yang22_co_params['name']==line][0]
+    pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
     redshift = np.array(redshift)
-- 
2.43.0


From 529bd0120a9567c96fa6ba091ce9c1056312b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 081/143] fix: yang22 CI2-1 normalization at z>=5 continues
 that at lower redshift

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 70c3617..8d43101 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -204,7 +204,7 @@ _yang22_ci_params['n4b'] = np.array([0.750,0.05632])
 _yang22_ci_params['n4c'] = np.array([-0.0807,0])
 _yang22_ci_params['n5a'] = np.array([1.89,1.48])
 _yang22_ci_params['n5b'] = np.array([5.73,6.14])
-_yang22_ci_params['n5c'] = np.array([-6.03,5.31])
+_yang22_ci_params['n5c'] = np.array([-6.03,-5.31])
 
 _yang22_ci_params['a1a'] = np.array([-0.741,-1.16])
 _yang22_ci_params['a1b'] = np.array([0.739,0.706])
-- 
2.43.0


From c3cbea083b31f70d6e4d20f8068cd670e0096178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 082/143] fix: yang22 CO and CI lines work for a single
 redshift

---
 simim/galprops/line_fir_yang.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 8d43101..ea72761 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -148,7 +148,7 @@ def _yang22_co_fit(redshift,line):
     pars = _yang22_co_params[_yang22_co_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a'] + pars['m1b']*redshift)[redshift<4.0]
@@ -235,7 +235,7 @@ def _yang22_ci_fit(redshift,line):
     pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a']*np.exp(-redshift/pars['m1b']) + pars['m1c'])[redshift<4.0]
-- 
2.43.0


From 255a62b3af554261e784ba5002d4ff16f165be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 083/143] fix: yang22 works for a single halo

---
 simim/galprops/line_fir_yang.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index ea72761..999ae3b 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -57,6 +57,7 @@ def yang22(mass,redshift,line='CII',
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
+        L = np.array(L,ndmin=1)
         L[rng.random(len(L))>f] = 0
 
     return L
@@ -265,14 +266,16 @@ def _yang22_ci_fit(redshift,line):
 
 def _yang22_fduty(mass,redshift):
     """Duty cycle for Yang model"""
-    f = np.ones(len(np.array(mass,ndmin=1)))
+    return_scalar = np.isscalar(mass) and np.isscalar(redshift)
+    mass, redshift = np.broadcast_arrays(np.array(mass,ndmin=1),redshift)
+    f = np.ones(len(mass))
     m2lowz = 10**(11.73+0.6634*redshift)
     glowz = 1.37 - 0.190*redshift + 0.0215*redshift**2
 
 
-    f[redshift<4] = ((1+(np.array(mass,ndmin=1)/m2lowz)**glowz)**-1)[redshift<4]
+    f[redshift<4] = ((1+(mass/m2lowz)**glowz)**-1)[redshift<4]
     # Higher redshift f duty is always 1
 
-    if np.isscalar(mass) and np.isscalar(redshift):
+    if return_scalar:
         return f[0]
     return f
\ No newline at end of file
-- 
2.43.0


From 18f35ad960e09d01987ffa05eee3398017c3bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 084/143] fix: am_dfdf extrapolates property 1 with the values
 for property 1

---
 simim/galprops/galprops_am.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 534f644..98954f3 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -246,13 +246,13 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
         if np.asarray(cum1).ndim > 0:
             ppf = np.zeros(len(cum1))
             ppf[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))] = prop1_rv.ppf(cstar[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))])
-            ppf[cum1<missing_pmass_low_p1] = fillers[2]
-            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[3]
+            ppf[cum1<missing_pmass_low_p1] = fillers[0]
+            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[1]
         else:
             if cum1<missing_pmass_low_p1:
-                ppf = fillers[2]
+                ppf = fillers[0]
             elif cum1>1-missing_pmass_high_p1:
-                ppf = fillers[3]
+                ppf = fillers[1]
             else:
                 ppf = prop1_rv.ppf(cstar)
     
-- 
2.43.0


From 4bf627708e584d0c3a4fc31fda0df44b2dc3f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 085/143] fix: Schechter integrals of arrays take every step of
 the recursion they need, and no more

---
 simim/galprops/galprops_am.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 98954f3..76e29a9 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -408,7 +408,9 @@ class schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                c = n>i
+                xc = np.broadcast_to(x,gp.shape)[c]
+                gp[c] = (gp[c] - xc**(amod[c]-(i+1))*np.exp(-xc)) / (amod[c] - (i+1))
 
         return gp
     
@@ -550,7 +552,9 @@ class double_schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                c = n>i
+                xc = np.broadcast_to(x,gp.shape)[c]
+                gp[c] = (gp[c] - xc**(amod[c]-(i+1))*np.exp(-xc)) / (amod[c] - (i+1))
 
         return gp
     
-- 
2.43.0


From 6f148d1f0da9b0ca6954c0ebadc790a48a77b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 086/143] fix: the Schechter integral from a single value below
 xmin is the whole integral, as in arrays

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 76e29a9..fc166ad 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -332,7 +332,7 @@ class schechter_gen(rv_continuous):
             int[x<xmin] = phi0 * self._uppergammamod(alpha+1, xmin/x0)
         else:
             if x<xmin:
-                int = 1
+                int = phi0 * self._uppergammamod(alpha+1, xmin/x0)
 
         return int
 
@@ -476,7 +476,7 @@ class double_schechter_gen(rv_continuous):
             int[x<xmin] = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
         else:
             if x<xmin:
-                int = 1
+                int = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
 
         return int
 
-- 
2.43.0


From 7e30d4fd5052accc38f3f48720e4c5343eb0da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 087/143] fix: the probability density of Schechter functions
 is normalized

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index fc166ad..6a9aaf9 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -419,7 +419,7 @@ class schechter_gen(rv_continuous):
         p = self.lum_function(x, x0, alpha, phi0, xmin)
         p[x<xmin] = 0
 
-        return p
+        return p / norm
     
     def _cdf(self, x, x0, alpha, phi0, xmin):
         norm = self.lum_function_int(xmin, x0, alpha, phi0, xmin)
@@ -563,7 +563,7 @@ class double_schechter_gen(rv_continuous):
         p = self.lum_function(x, x0, alpha1, phi1, alpha2, phi2, xmin)
         p[x<xmin] = 0
 
-        return p
+        return p / norm
     
     def _cdf(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
         norm = self.lum_function_int(xmin, x0, alpha1, phi1, alpha2, phi2, xmin)
-- 
2.43.0


From 7992b2cc0b07d10cbb19adeb3b3a05e28e7b2418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 088/143] fix: the density of modified Schechter functions and
 double power laws is that of x, as cdf has it

---
 simim/galprops/galprops_am.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 6a9aaf9..5bd7b61 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -635,7 +635,8 @@ class modified_schechter_gen(rv_continuous):
 
         norm = self.lum_function_int(xmin, phi0, x0, alpha, sigma, xmin)
 
-        p = self.lum_function(np.asarray(x), phi0, x0, alpha, sigma, xmin) / norm
+        # lum_function is per unit log10(x)
+        p = self.lum_function(np.asarray(x), phi0, x0, alpha, sigma, xmin) / norm / (np.asarray(x)*np.log(10))
         return p
     
     def _cdf(self, x, phi0, x0, alpha, sigma, xmin):
@@ -713,7 +714,8 @@ class double_power_law_gen(rv_continuous):
 
         norm = self.lum_function_int(xmin, phi0, x0, alpha, beta, xmin)
 
-        p = self.lum_function(np.asarray(x), phi0, x0, alpha, beta, xmin) / norm
+        # lum_function is per unit log10(x)
+        p = self.lum_function(np.asarray(x), phi0, x0, alpha, beta, xmin) / norm / (np.asarray(x)*np.log(10))
         return p
     
     def _cdf(self, x, phi0, x0, alpha, beta, xmin):
-- 
2.43.0


From 42a680d766cf868628a14231768669958c8adc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 089/143] fix: modified Schechter functions and double power
 laws can be evaluated for one value

---
 simim/galprops/galprops_am.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 5bd7b61..4aa065f 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -613,7 +613,10 @@ class modified_schechter_gen(rv_continuous):
         '''Returns modified schechter function.
         suitable for integration in d log L space'''
         phi = phi0 * (x/x0)**(1-alpha) * np.exp(-1/(2*sigma**2) * np.log10(1+x/x0)**2)
-        phi[x < xmin] = 0
+        if np.asarray(x).ndim > 0:
+            phi[x < xmin] = 0
+        elif x < xmin:
+            phi = 0
         return phi
 
     def lum_function_int(self, x, phi0, x0, alpha, sigma, xmin):
@@ -692,7 +695,10 @@ class double_power_law_gen(rv_continuous):
     def lum_function(self, x, phi0, x0, alpha, beta, xmin):
         '''Returns double power law function.'''
         phi = phi0 * ((x/x0)**(alpha) + (x/x0)**beta)**-1
-        phi[x < xmin] = 0
+        if np.asarray(x).ndim > 0:
+            phi[x < xmin] = 0
+        elif x < xmin:
+            phi = 0
         return phi
 
     def lum_function_int(self, x, phi0, x0, alpha, beta, xmin):
-- 
2.43.0


From bcf2f916ec7272f4a54b8d46554163a8879db749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 090/143] fix: g13irlf_base matches to the luminosity function
 with the parameters it is given

---
 simim/galprops/sfr_ir.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7c9e6e5..7f0b7a5 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -58,9 +58,6 @@ class g13irlf_base():
         
         self.path = paths.props[self.name]
 
-        self.init_lir_function = False
-        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
-
         # Save pars
         self.lf_alpha0 = lf_alpha0
         self.lf_sigma0 = lf_sigma0
@@ -69,6 +66,9 @@ class g13irlf_base():
 
         self.lir_to_sfr = lir_to_sfr
 
+        self.init_lir_function = False
+        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
+
     def _load_lir_function(self, comp, remake, haloprop, halomassmin, lirmin):
         """Load or compute halo mass-ir luminosity relation"""
 
@@ -140,15 +140,17 @@ class g13irlf_base():
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
         np.save(os.path.join(self.path,'lir.npy'), irgrid.T)
 
-    def get_irlf_pars(self, z, alpha0=1.2, sigma0=0.5, lstar0=10**9.95, phistar0=10**-2.25):
+    def get_irlf_pars(self, z, alpha0=None, sigma0=None, lstar0=None, phistar0=None):
         """Use the redshift scaling from Gruppioni et al. 2013 to get IRLF parameters"""
         if alpha0 is None:
             alpha0 = self.lf_alpha0
+        if sigma0 is None:
             sigma0 = self.lf_sigma0
+        if lstar0 is None:
             lstar0 = self.lf_lstar0
+        if phistar0 is None:
             phistar0 = self.lf_phistar0
 
-
         if np.asarray(z).ndim > 0:
             alpha = alpha0 * np.ones(len(z))
             sigma = sigma0 * np.ones(len(z))
-- 
2.43.0


From df73a6b1c67a61e5879dc2eddb97d770dfabac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 091/143] fix: MultiProp leaves the list or array its function
 returns as it is, and converts integers to h units as numbers

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 5787a7d..47378e9 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -121,7 +121,7 @@ class MultiProp():
 
         if self.wrap:
             vals = [vals]
-        elif isinstance(vals,tuple):
+        else:
             vals = list(vals)
         if len(vals) != len(self.names):
             raise ValueError("prop_function does not return a number of properties matching prop_names")
-- 
2.43.0


From 378a0d2864413cbc29dbac0de6efc717b5733242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 092/143] fix: the duty cycle of no halos is empty

---
 simim/galprops/line_co_dutycycle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/galprops/line_co_dutycycle.py b/simim/galprops/line_co_dutycycle.py
index fd401cb..9cc3614 100644
--- a/simim/galprops/line_co_dutycycle.py
+++ b/simim/galprops/line_co_dutycycle.py
@@ -23,6 +23,8 @@ def f_duty(sf_length,redshift,cosmo):
     """
 
     redshift = np.array(redshift, ndmin=1)
+    if redshift.size == 0:
+        return np.zeros(redshift.shape)
     if redshift.size>100:
         redshift_nodes = np.linspace(np.amin(redshift),np.amax(redshift))
         age_nodes = cosmo.age(redshift_nodes).value
-- 
2.43.0


From bc64ce988dfd87eb8b8dc7e465b1dff7f04c5e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 093/143] fix: cumulative Schechter functions of arrays that
 lie above the lower limit entirely

---
 simim/galprops/galprops_am.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 4aa065f..cba2bc4 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -327,14 +327,9 @@ class schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha, phi0, xmin):
-        int = phi0 * self._uppergammamod(alpha+1, x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi0 * self._uppergammamod(alpha+1, xmin/x0)
-        else:
-            if x<xmin:
-                int = phi0 * self._uppergammamod(alpha+1, xmin/x0)
-
-        return int
+        # No objects below xmin
+        x = np.maximum(x, xmin)
+        return phi0 * self._uppergammamod(alpha+1, x/x0)
 
     def _uppergammamod(self, a, x):
         """Double schechter function parameterized as
@@ -471,14 +466,9 @@ class double_schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
-        int = phi1 * self._uppergammamod(alpha1+1, x/x0) + phi2 * self._uppergammamod(alpha2+1,x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
-        else:
-            if x<xmin:
-                int = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
-
-        return int
+        # No objects below xmin
+        x = np.maximum(x, xmin)
+        return phi1 * self._uppergammamod(alpha1+1, x/x0) + phi2 * self._uppergammamod(alpha2+1,x/x0)
 
     def _uppergammamod(self, a, x):
         """Double schechter function parameterized as
-- 
2.43.0


From 851d56ce289379520b3810bdc6681a525c1a37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 094/143] fix: plotting leaves the keyword arguments it is
 given as they are

---
 simim/_handlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 256bdff..f4d16b1 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -608,6 +608,7 @@ class Handler():
         fig.subplots_adjust(left=.15,right=.95,bottom=.15,top=.95)
         ax.set(**axkws)
         
+        plotkws = dict(plotkws)
         if 'ls' not in plotkws and 'linestyle' not in plotkws:
             plotkws['ls'] = ''
         if 'marker' not in plotkws:
-- 
2.43.0


From e6f10011e6495b929e4ef46baae337e62ad4978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 095/143] fix: visualize shows the axes of a grid in either
 order

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 34d50f0..92427f5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1879,6 +1879,8 @@ class Grid():
                     slices.append(slice_indices[slice_idx])
                     slice_idx += 1
             image = self.grid[tuple(slices)][:,:,property]
+        if ax[0] > ax[1]:
+            image = image.T
 
         cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image.real.T,**plotkws)
         fig.colorbar(cb)
-- 
2.43.0


From 68faa0a491db43e9ef02d707359394675697399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 096/143] fix: a still of a grid can be made

---
 simim/map/gridder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 92427f5..025dbe7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1993,6 +1993,7 @@ class Grid():
                 map_face[~np.isfinite(map_face)] = vmin
             face.set_array(map_face.ravel())
 
+        anim = None
         if not still:
             anim = animation.FuncAnimation(figure,animate,frames=nsteps,interval=500,blit=False)
             if save != None:
-- 
2.43.0


From 8cb66a051ef6b07b12679f4ac556ff40cb534234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 097/143] fix: the spatial response of a detector is plotted
 with x along x

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index ca3fbaa..aeb4e96 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1066,7 +1066,7 @@ class Instrument:
 
             x = np.linspace(xmin,xmax,100)
             y = np.linspace(ymin,ymax,100)
-            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0],vmin=0)
+            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0].T,vmin=0)
 
         plt.show()
 
-- 
2.43.0


From 2f1d75924bc53c7a48e558b5f6b420adac8de9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 098/143] fix: the spectral responses of all detectors can be
 plotted

---
 simim/instrument/instrument.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index aeb4e96..ca0719b 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1085,9 +1085,9 @@ class Instrument:
         """
     
         if fmin is None:
-            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values])
+            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values()])
         if fmax is None:
-            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values])
+            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values()])
 
         fig,axes = plt.subplots(1,1,figsize=figsize)
         fig.subplots_adjust(left=.1,right=.95,top=.95,bottom=.15,wspace=.35)
@@ -1103,9 +1103,9 @@ class Instrument:
         else: 
             cmap = colormaps['Spectral']
 
-        order = np.argsort(self.detector_freqs)
-        for i in np.argsort(self.detector_freqs):
-            d = self.detectors[self.detector_names[i]]
+        order = np.argsort([self.detectors[k].reffreq for k in self.detector_names])
+        for i in range(len(order)):
+            d = self.detectors[self.detector_names[order[i]]]
             axes.plot(f, d.spectral_response(f, **d.spectral_kwargs), color=cmap(i/(len(self.detectors)-.99)))
 
         plt.show()
-- 
2.43.0


From c2c040ce11fc9349ac7a7fa34bc48fbc5e82c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 099/143] fix: animate steps through the axis asked for of
 grids with more than three, and starts with the title of the first slice
 shown

---
 simim/map/gridder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 025dbe7..0da6fce 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1915,6 +1915,7 @@ class Grid():
             raise ValueError("Specify 2 dimensions for face_dims")
 
         flatten_dims = np.setdiff1d(np.arange(self.n_dimensions),np.concatenate(([slide_dim],face_dims)))
+        slide_axis = slide_dim - np.sum(flatten_dims < slide_dim) # once flatten_dims are gone
 
         if self.fourier_space[slide_dim]:
             ax0 = self.fourier_axes_centers[slide_dim]
@@ -1966,10 +1967,10 @@ class Grid():
                      [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
 
         plot_face = plt.subplot(122)
-        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[0]))
+        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
-        map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_dim)
+        map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_axis)
         if face_dims[0] < face_dims[1]:
             map_face = map_face.T
         if logscale:
@@ -1985,7 +1986,7 @@ class Grid():
             plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i]))
             box.set_data([ax0[i],ax0[i],ax0[i+1],ax0[i+1],ax0[i]],
                          [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
-            map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i,axis=slide_dim)
+            map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i,axis=slide_axis)
             if face_dims[0] < face_dims[1]:
                 map_face = map_face.T
             if logscale:
-- 
2.43.0


From 136e532fccac86ae7e0888051295701daff16ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 100/143] fix: a property whose addition to light cones was
 interrupted can be added again, and is not part of them before

---
 simim/lightcone/lcmaker.py | 49 +++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 75828c2..32dada3 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -137,7 +137,7 @@ class GenericLCMaker():
                     'spin_x','spin_y','spin_z',
                     'cm_x','cm_y','cm_z']
 
-        with h5py.File(os.path.join(self.lc_path,'lc_0000.hdf5'),'r') as file:
+        with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(self.n-1)),'r') as file:
             old_lc_keys = [i for i in file['Lightcone Full'].keys()]
 
         new_lc_keys = []
@@ -172,14 +172,15 @@ class GenericLCMaker():
                     chunks = shape
                 if shape[0] == 0:
                     chunks = None
+                incomplete = self._start_adding(file)
                 for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
+                    incomplete.create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
                     if key == 'masscheck':
-                        file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
-                        file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
+                        incomplete[key].attrs['units'] = self.sim_handler.key_units['mass']
+                        incomplete[key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
                     else:
-                        file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units[key]
-                        file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence[key]
+                        incomplete[key].attrs['units'] = self.sim_handler.key_units[key]
+                        incomplete[key].attrs['h dependence'] = self.sim_handler.key_h_dependence[key]
 
         # Open simulation file
         with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
@@ -225,14 +226,32 @@ class GenericLCMaker():
                             indexing = indexing[indexing['snap']==snap_meta['index']]
 
                             # Append the data
-                            lc_file['Lightcone Full'][key][start:start+len(indexing)] = values[indexing['index']]
+                            lc_file['Lightcone Incomplete'][key][start:start+len(indexing)] = values[indexing['index']]
 
         # Note in LC files that we're done
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
+                self._finish_adding(file)
                 file.attrs['status_extra_initialized'] = True
                 file.attrs['status_extra_completed'] = True
 
+    def _start_adding(self,file):
+        """Properties are collected in a group of their own until they are
+        complete, so that one whose addition is interrupted can be added again"""
+
+        if 'Lightcone Incomplete' in file:
+            del file['Lightcone Incomplete']
+        return file.create_group('Lightcone Incomplete')
+
+    def _finish_adding(self,file):
+        """Make complete properties part of the light cone"""
+
+        for key in file['Lightcone Incomplete'].keys():
+            if key in file['Lightcone Full']:
+                del file['Lightcone Full'][key]
+            file['Lightcone Full'][key] = file['Lightcone Incomplete'][key]
+        del file['Lightcone Incomplete']
+
     def add_pos_properties(self,*keys):
         """Select additional properties to include in the light cone for
         properties with position information (ie velocity).
@@ -254,7 +273,7 @@ class GenericLCMaker():
         # Make sure the keys exist, but aren't already included
         pos_keys = ['pos','v','spin','cm']
 
-        with h5py.File(os.path.join(self.lc_path,'lc_0000.hdf5'),'r') as file:
+        with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(self.n-1)),'r') as file:
             old_lc_keys = [i[:-2] for i in file['Lightcone Full'].keys() if i[:-2] in pos_keys]
         old_lc_keys = np.unique(old_lc_keys)
 
@@ -281,11 +300,12 @@ class GenericLCMaker():
                     chunks = shape
                 if shape[0] == 0:
                     chunks = None
+                incomplete = self._start_adding(file)
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
-                        file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks)
-                        file['Lightcone Full'][key+subkey].attrs['units'] = self.sim_handler.key_units[key+subkey]
-                        file['Lightcone Full'][key+subkey].attrs['h dependence'] = self.sim_handler.key_h_dependence[key+subkey]
+                        incomplete.create_dataset(key+subkey,shape=shape,chunks=chunks)
+                        incomplete[key+subkey].attrs['units'] = self.sim_handler.key_units[key+subkey]
+                        incomplete[key+subkey].attrs['h dependence'] = self.sim_handler.key_h_dependence[key+subkey]
 
         # Open simulation file
         with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
@@ -365,13 +385,14 @@ class GenericLCMaker():
                                     lc_values[axis_ind] += lc_file['Lightcone Full'][subkey][start:start+len(indexing)]
 
                             # Append the data
-                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[1]
-                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[2]
-                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Incomplete'][key+'_x'][start:start+len(indexing)] = lc_values[1]
+                            lc_file['Lightcone Incomplete'][key+'_y'][start:start+len(indexing)] = lc_values[2]
+                            lc_file['Lightcone Incomplete'][key+'_z'][start:start+len(indexing)] = lc_values[0]
 
         # Note in LC files that we're done
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
+                self._finish_adding(file)
                 file.attrs['status_extra_initialized'] = True
                 file.attrs['status_extra_completed'] = True
 
-- 
2.43.0


From 2fab06c59a773b3a412486d9f6382ba1a246816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 101/143] fix: a snapshot whose formatting was interrupted is
 formatted again, not taken as formatted

---
 simim/siminterface/_rawsiminterface.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e413cd3..e64f30a 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -409,10 +409,13 @@ class SimCatalogs():
         #    3) add things to existing file - overwrite old things
         pathexists = os.path.exists(os.path.join(self.path,'data.hdf5'))
         
+        # Snapshots get their metadata last, those without it are incomplete (formatting
+        # was interrupted) and have to be done again
         pathhassnaps = False
         if pathexists:
             with h5py.File(os.path.join(self.path,'data.hdf5'), "r") as file:
-                if len(file.keys())>0:
+                file_snaps = [k for k in file.keys() if 'metadata' in file[k].attrs]
+                if len(file_snaps)>0:
                     pathhassnaps = True
 
         # Case 1 - create new file, save all snapshots in SimHandler to it
@@ -438,10 +441,10 @@ class SimCatalogs():
         # Then sort through the requested snaps and decide whether to overwrite them or not when duplicated
         else:
             with h5py.File(os.path.join(self.path,'data.hdf5'), "r") as file:
-                add_snaps = np.array([i for i in self.snaps if 'Snapshot {}'.format(i) not in file.keys()], dtype='int')
-                replace_snaps = np.array([i for i in self.snaps if 'Snapshot {}'.format(i) in file.keys()], dtype='int')
+                add_snaps = np.array([i for i in self.snaps if 'Snapshot {}'.format(i) not in file_snaps], dtype='int')
+                replace_snaps = np.array([i for i in self.snaps if 'Snapshot {}'.format(i) in file_snaps], dtype='int')
 
-                data_fields = [k for k in file[list(file.keys())[0]].keys()]
+                data_fields = [k for k in file[file_snaps[0]].keys()]
                 self.all_fields = {**self.basic_fields}
                 self.other_fields = {}
                 other_fields_start = {**self.matter_fields, **self.dm_fields}
-- 
2.43.0


From 55950d7c829e1a700a82f30ae3eba65d13cacfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 102/143] fix: an interrupted write of a property leaves it as
 it was or without it, not without units

---
 simim/_handlers.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index f4d16b1..fedbfd4 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -391,17 +391,16 @@ class Handler():
                     raise ValueError("Property {} already exists".format(property_name))
 
             with h5py.File(self.path,'a') as file:
-                new_dtype = property_value.dtype if dtype is None else np.dtype(dtype)
-                if property_name in file[self.groupname].keys() and file[self.groupname][property_name].dtype != new_dtype:
+                # The dataset gets its name once it is complete, so that interrupted
+                # writes leave neither mixed values and units nor a property without units
+                dataset = file[self.groupname].create_dataset(None,data=property_value,dtype=dtype)
+                dataset.attrs['units'] = self.properties_units[property_name]
+                dataset.attrs['h dependence'] = self.properties_h_dependence[property_name]
+                dataset.attrs['userdefined'] = True
+
+                if property_name in file[self.groupname].keys():
                     del file[self.groupname][property_name]
-                if not property_name in file[self.groupname].keys():
-                    file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
-                else:
-                    file[self.groupname][property_name][:] = property_value
-
-                file[self.groupname][property_name].attrs['units'] = self.properties_units[property_name]
-                file[self.groupname][property_name].attrs['h dependence'] = self.properties_h_dependence[property_name]
-                file[self.groupname][property_name].attrs['userdefined'] = True
+                file[self.groupname][property_name] = dataset
 
                 if not property_name in self.properties_saved:
                     self.properties_saved.append(property_name)
-- 
2.43.0


From 24bcf20af09419695b5e5a7975edf8e913afac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 103/143] fix: beams varying with frequency extend over 6 times
 the FWHM where they are widest by default

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0da6fce..d13a3a9 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2318,7 +2318,7 @@ class SpectralPSF(Grid):
             elif len(side_length) != n_dimensions-1:
                 raise ValueError("side_lengths does not have same dimensionality as fwhm0")
         else:
-            side_length = 3*self.fwhm0 * np.amax(spec0/spec_axis)
+            side_length = 6*self.fwhm0 * np.amax((spec0/spec_axis)**exp)
         side_length = np.concatenate((side_length,[np.ptp(spec_axis)+np.abs(spec_axis[1]-spec_axis[0])]))
 
         pixel_size = np.array(pixel_size,ndmin=1,copy=True)
-- 
2.43.0


From e74723ef75c368fb4e8a9967267e6856b61e1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 104/143] fix: beams varying with frequency follow the channels
 when these are given in decreasing order

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d13a3a9..7404b61 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2305,7 +2305,7 @@ class SpectralPSF(Grid):
             raise ValueError("norm option not recognized")
 
         self.fwhm0 = np.array(fwhm0,ndmin=1,copy=True)
-        spec_axis = np.array(spec_axis,ndmin=1,copy=True)
+        spec_axis = np.sort(np.array(spec_axis,ndmin=1)) # the axes of grids increase
 
         n_dimensions = self.fwhm0.shape[0] + 1
         center_point = np.zeros(self.fwhm0.shape[0])
-- 
2.43.0


From 1f6049a325d320f089fe46693561cab321ddc374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 105/143] fix: a refused write of a property for all snapshots
 does not replace the property in memory

---
 simim/siminterface/simhandler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 45faac6..ad1479b 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -551,13 +551,6 @@ class SimHandler():
             print("\033[1m"+"Assigning props for Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
             handler = self.get_snap(snap)
 
-            handler.make_property(property=property,
-                                  rename=rename,
-                                  kw_remap=kw_remap,
-                                  other_kws=other_kws,
-                                  overwrite=overwrite,
-                                  use_all_inds=use_all_inds)
-
             if write:
                 if isinstance(rename,str):
                     rename = [rename]
@@ -579,6 +572,14 @@ class SimHandler():
                                 else:
                                     warnings.warn("Property {} already exists, overwriting".format(name))
 
+            handler.make_property(property=property,
+                                  rename=rename,
+                                  kw_remap=kw_remap,
+                                  other_kws=other_kws,
+                                  overwrite=overwrite,
+                                  use_all_inds=use_all_inds)
+
+            if write:
                 handler.write_property(*names,overwrite=overwrite,dtype=writedtype)
                 handler.unload_property(*names)
         print("")
-- 
2.43.0


From 2e74f03f3f0172e325745f0fc18967298ce7bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 106/143] fix: a refused write of several properties writes
 none of them

---
 simim/_handlers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index fedbfd4..8bee501 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -380,9 +380,7 @@ class Handler():
 
         for property_name in property_names:
             if not property_name in self.properties_loaded.keys():
-                raise ValueError("Property {} not loaded, cannot write to disk")
-            else:
-                property_value = self.properties_loaded[property_name]
+                raise ValueError("Property {} not loaded, cannot write to disk".format(property_name))
 
             if property_name in self.properties_saved:
                 if overwrite:
@@ -390,6 +388,9 @@ class Handler():
                 else:
                     raise ValueError("Property {} already exists".format(property_name))
 
+        for property_name in property_names:
+            property_value = self.properties_loaded[property_name]
+
             with h5py.File(self.path,'a') as file:
                 # The dataset gets its name once it is complete, so that interrupted
                 # writes leave neither mixed values and units nor a property without units
-- 
2.43.0


From cc9882b6ba715e2974dfc61dab85aba4c5bdc890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 107/143] fix: a refused deletion of several properties deletes
 none of them

---
 simim/_handlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 8bee501..035f43c 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -423,6 +423,7 @@ class Handler():
             if property_name not in self.properties_saved:
                 raise ValueError("Property {} is not in the saved file".format(property_name))
 
+        for property_name in dict.fromkeys(property_names):
             with h5py.File(self.path,'a') as file:
                 if property_name not in file[self.groupname].keys():
                     raise ValueError("This property cannot be deleted")
-- 
2.43.0


From a7ebde4af42e4b88b5f00a064994b9a6ae9b1fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 108/143] fix: changing the list of properties returned does
 not change the handler

---
 simim/_handlers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 035f43c..6f6ca6e 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -91,13 +91,13 @@ class Handler():
         """
 
         if set == 'any':
-            return self.properties_all
+            return list(self.properties_all)
         elif set == 'loaded':
             return [k for k in self.properties_loaded.keys()]
         elif set == 'saved':
-            return self.properties_saved
+            return list(self.properties_saved)
         elif set == 'generated':
-            return self.properties_generated
+            return list(self.properties_generated)
         else:
             raise ValueError("set not recognized")
 
-- 
2.43.0


From de3b1aac59b74d1744be6032e696bd099b91b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:12 +0000
Subject: [PATCH 109/143] fix: the sum of properties of a grid in Fourier
 space, or of power spectra, is in Fourier space, or a power spectrum, too

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 7404b61..fb91355 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1004,6 +1004,8 @@ class Grid():
             new_grid = self.copy_axes(n_properties=1)
             new_grid.init_grid()
             new_grid.grid = sum_grid
+            new_grid.fourier_space = np.copy(self.fourier_space)
+            new_grid.is_power_spectrum = self.is_power_spectrum
 
             return new_grid
 
-- 
2.43.0


From 90a2fee62322b80df279a7a5f1fb01af10006454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:12 +0000
Subject: [PATCH 110/143] fix: writing a property to all snapshots is refused
 before any is written if one of them has it already

---
 simim/siminterface/simhandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index ad1479b..b98d9ee 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -562,12 +562,13 @@ class SimHandler():
                     names = rename
 
                 if i==0:
+                    # Names have to be free in every snapshot, not only in this one
                     with h5py.File(handler.path,'a') as file:
-                        for name in names:
-                            if name in file[handler.groupname].keys():
+                        for group, name in [("Snapshot {}".format(s),name) for s in self.snap_meta['index'] for name in names]:
+                            if name in file[group].keys():
                                 if not overwrite:
                                     raise ValueError("Property {} already exists".format(name))
-                                elif 'userdefined' not in file[handler.groupname][name].attrs.keys():
+                                elif 'userdefined' not in file[group][name].attrs.keys():
                                     raise ValueError("Property {} is not userd-defined and cannot be overwritten".format(name))
                                 else:
                                     warnings.warn("Property {} already exists, overwriting".format(name))
-- 
2.43.0


From 6124f9fa08c839a5f3eb24d0b5bb648ca37e97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:12 +0000
Subject: [PATCH 111/143] fix: a property that another handler has written is
 not overwritten without being asked

---
 simim/_handlers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 6f6ca6e..622eb03 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -382,7 +382,11 @@ class Handler():
             if not property_name in self.properties_loaded.keys():
                 raise ValueError("Property {} not loaded, cannot write to disk".format(property_name))
 
-            if property_name in self.properties_saved:
+            # It may have been written since this handler was opened
+            with h5py.File(self.path,'r') as file:
+                exists = property_name in file[self.groupname].keys()
+
+            if exists:
                 if overwrite:
                     warnings.warn("Property {} already exists, overwriting".format(property_name))
                 else:
-- 
2.43.0


From 00f910cdf67ddafab5b062b44c3b27cf378cf964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:12 +0000
Subject: [PATCH 112/143] fix: properties read from disk are converted with the
 h dependence they have on disk

---
 simim/_handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 622eb03..6045268 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -243,6 +243,8 @@ class Handler():
 
         elif property_name in self.properties_saved:
             with h5py.File(self.path,'r') as file:
+                if not in_h_units:
+                    h_exp = file[self.groupname][property_name].attrs['h dependence']
                 value = file[self.groupname][property_name][:][inds]
                 if len(value) == 0:
                     value = value.flatten()
-- 
2.43.0


From 03653a1cba4ccbd6294fa45c6afeaaebcf3610c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 113/143] fix: the automatic choice of the property to match
 works for simulations without a snapshot 0

---
 simim/galprops/sfr_bethermin17.py | 2 +-
 simim/galprops/sfr_ir.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index eba84a3..b80fdf4 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -175,7 +175,7 @@ class bethermin17_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7f0b7a5..760cfcd 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -93,7 +93,7 @@ class g13irlf_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
-- 
2.43.0


From f4d65a2bb67fc3024e83bb0b213cc908a3c7f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 114/143] fix: instruments can have several detectors with
 spatial responses set by arrays

---
 simim/instrument/_helpers.py   | 13 +++++++++++++
 simim/instrument/instrument.py |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index 3cca116..8d9e132 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -103,6 +103,19 @@ def _specunit_type(unit: str) -> str:
     else:
         return 'unknown'
     
+def _same_kwargs(kwargs1, kwargs2):
+    """Check whether two keyword dictionaries, which can contain arrays, are the same"""
+    if kwargs1.keys() != kwargs2.keys():
+        return False
+    for k in kwargs1:
+        x1, x2 = kwargs1[k], kwargs2[k]
+        if isinstance(x1, np.ndarray) or isinstance(x2, np.ndarray):
+            if type(x1) != type(x2) or not np.array_equal(x1, x2):
+                return False
+        elif x1 is not x2 and x1 != x2:
+            return False
+    return True
+
 def _dict_none_copy(x):
     """Copy a dictionary or return None if x is None"""
     if x is None:
diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index ca0719b..289c3a2 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -4,7 +4,7 @@ from typing import Callable
 
 from simim._pltsetup import *
 from simim.map import Grid
-from simim.instrument._helpers import _check_unit, _check_grid_detector_compatibility, _specunit_type, _dict_none_copy
+from simim.instrument._helpers import _check_unit, _check_grid_detector_compatibility, _specunit_type, _dict_none_copy, _same_kwargs
 
 
 from simim.instrument.noise_functions import zero_noise, white_noise
@@ -732,7 +732,7 @@ class Instrument:
         
         while len(need_groups) > 0:
             d0 = need_groups[0]
-            matches = [d for d in need_groups if self.detectors[d].spatial_response == self.detectors[d0].spatial_response and self.detectors[d].spatial_kwargs == self.detectors[d0].spatial_kwargs]
+            matches = [d for d in need_groups if self.detectors[d].spatial_response == self.detectors[d0].spatial_response and _same_kwargs(self.detectors[d].spatial_kwargs, self.detectors[d0].spatial_kwargs)]
             need_groups = [d for d in need_groups if d not in matches]
             groups.append(matches)
 
-- 
2.43.0


From c3537bc93ba263a9fa30002d2c1361fa47a33be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 115/143] fix: pointing offsets of detectors can be arrays, and
 are not changed with the list they are given in

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 289c3a2..b782d13 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -605,7 +605,7 @@ class Instrument:
                 warnings.warn("auto-determination of response peak failed")
                 self.detectors[name].reffreq = np.nan
 
-        self.detectors[name].pointing_offsets = pointing_offsets
+        self.detectors[name].pointing_offsets = tuple(pointing_offsets)
 
         self.detector_counter += 1
         for k in self.field_names:
-- 
2.43.0


From 5e18b9dab67566b305cd30970acdafa00b6888bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 116/143] fix: animations show the cells of the slide axis
 where they are, not half a cell below

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index fb91355..4255528 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1922,7 +1922,7 @@ class Grid():
         if self.fourier_space[slide_dim]:
             ax0 = self.fourier_axes_centers[slide_dim]
         else:
-            ax0 = self.axes_centers[slide_dim] - self.pixel_size[slide_dim]/2
+            ax0 = self.axes_centers[slide_dim]
         slide_ax = np.copy(ax0)
         ax0 = _axis_edges(np.copy(ax0))
 
-- 
2.43.0


From 95743e05c7e03278cccddd137e21d972df7c8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 117/143] fix: several properties cannot be made under one name

---
 simim/_handlers.py         | 3 +++
 simim/galprops/galprops.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 6045268..b46cdeb 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -319,6 +319,9 @@ class Handler():
         else:
             names = rename
 
+        if len(set(names)) != len(names):
+            raise ValueError("Property names are not all different")
+
         # Check if property name is already assigned
         overwrite_names = []
         for name in names:
diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 47378e9..20bcfca 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -46,6 +46,9 @@ class MultiProp():
             returned), this should be set to True - or just use the prop class
         """
 
+        if len(set(prop_names)) != len(prop_names):
+            raise ValueError("prop_names are not all different")
+
         self.names = prop_names
         self.n_props = len(prop_names)
         if self.n_props == 1 and wrap:
-- 
2.43.0


From 8f4e9ea5c0feefb58bb8a47fa3606bd772e5e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 118/143] fix: averages over some axes keep imaginary parts and
 coordinates when other axes are in Fourier space

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4255528..c8cd1a8 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1675,11 +1675,11 @@ class Grid():
         
         # Select correct axes to define 
         if np.all(self.fourier_space[ax]==True):
-            axvals = self.fourier_axes_centers
             axfourier = True
         else:
-            axvals = self.axes_centers
             axfourier = False
+        # Other axes may be in the other space
+        axvals = [self.fourier_axes_centers[i] if self.fourier_space[i] else self.axes_centers[i] for i in range(self.n_dimensions)]
 
         # If center isn't specified, use the center of the grid (spatial coordinates), or zero (fourier coordinates)
         if center is None:
@@ -1772,7 +1772,7 @@ class Grid():
         coords_for_cells = np.array(coords_for_cells).T[good_inds] # This is now an n_cells x n_dimensions (of binned data) array
 
         # Bin the data
-        if axfourier and not self.is_power_spectrum:
+        if np.any(self.fourier_space) and not self.is_power_spectrum:
             dtype_data = complex
         else:
             dtype_data = float
-- 
2.43.0


From 254de7e37d6276b1dd4cac55365c0b70355287ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 119/143] fix: standard deviations in shells are those of
 complex values, and not nan for maps transformed and back

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index c8cd1a8..f970f59 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1802,9 +1802,9 @@ class Grid():
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
-            std_vals = std_vals**2 * weights
+            std_vals = np.abs(std_vals)**2 * weights
 
-            binned_std = np.zeros(binned_shape,dtype=dtype_data)
+            binned_std = np.zeros(binned_shape,dtype=float)
             np.add.at(binned_std,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),std_vals.flatten()[good_inds].reshape(-1,1))
             
             if biased_std:
-- 
2.43.0


From b3819084670965d43287878cbadf9b3b8c6de6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 120/143] fix: plots of grids in Fourier space have the axes of
 Fourier space

---
 simim/map/gridder.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f970f59..06c5497 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1859,13 +1859,15 @@ class Grid():
             raise ValueError("visualize only works for 2D or larger maps")
 
         fig, plot = plt.subplots(figsize=figsize)
-        plot.set(xlabel='Axis {} [{}]'.format(ax[0],self.axunits[ax[0]]))
-        plot.set(ylabel='Axis {} [{}]'.format(ax[1],self.axunits[ax[1]]))
-        plot.set(**axkws)
-        
         if len(ax) != 2:
             raise ValueError("ax must specify exactly two dimensions to plot")
 
+        axes = [self.fourier_axes[i] if self.fourier_space[i] else self.axes[i] for i in ax]
+        axunits = [self.fourier_axunits[i] if self.fourier_space[i] else self.axunits[i] for i in ax]
+        plot.set(xlabel='Axis {} [{}]'.format(ax[0],axunits[0]))
+        plot.set(ylabel='Axis {} [{}]'.format(ax[1],axunits[1]))
+        plot.set(**axkws)
+
         remaining_ax = [i for i in range(self.n_dimensions) if i not in ax]
         if slice_indices == 'sum':
             image = np.sum(self.grid,axis=tuple(remaining_ax))[:,:,property]
@@ -1884,7 +1886,7 @@ class Grid():
         if ax[0] > ax[1]:
             image = image.T
 
-        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image.real.T,**plotkws)
+        cb=plot.pcolor(axes[0],axes[1],image.real.T,**plotkws)
         fig.colorbar(cb)
         plt.show()
 
-- 
2.43.0


From cb2c844fc0ac79a70a6617ca78d6ab525af46d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 121/143] fix: grids in Fourier space and axes of one cell can
 be animated

---
 simim/map/gridder.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 06c5497..b8c08c5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1921,32 +1921,16 @@ class Grid():
         flatten_dims = np.setdiff1d(np.arange(self.n_dimensions),np.concatenate(([slide_dim],face_dims)))
         slide_axis = slide_dim - np.sum(flatten_dims < slide_dim) # once flatten_dims are gone
 
-        if self.fourier_space[slide_dim]:
-            ax0 = self.fourier_axes_centers[slide_dim]
-        else:
-            ax0 = self.axes_centers[slide_dim]
-        slide_ax = np.copy(ax0)
-        ax0 = _axis_edges(np.copy(ax0))
-
-        if self.fourier_space[face_dims[0]]:
-            ax1 = self.fourier_axes_centers[face_dims[0]]
-        else:
-            ax1 = self.axes_centers[face_dims[0]]
-        ax1 = _axis_edges(np.copy(ax1))
-
-        if self.fourier_space[face_dims[1]]:
-            ax2 = self.fourier_axes_centers[face_dims[1]]
-        else:
-            ax2 = self.axes_centers[face_dims[1]]
-        ax2 = _axis_edges(np.copy(ax2))
+        slide_ax = self.fourier_axes_centers[slide_dim] if self.fourier_space[slide_dim] else self.axes_centers[slide_dim]
+        ax0, ax1, ax2 = [self.fourier_axes[i] if self.fourier_space[i] else self.axes[i] for i in (slide_dim, *face_dims)]
 
         # Determine property range allowed
         if logscale:
-            vmax = np.log10(np.amax(self.grid[...,prop_ind]))
+            vmax = np.log10(np.amax(self.grid[...,prop_ind].real))
             vmin = vmax-10
         else:
-            vmin = minrescale*np.amin(self.grid[...,prop_ind])
-            vmax = maxrescale*np.amax(self.grid[...,prop_ind])
+            vmin = minrescale*np.amin(self.grid[...,prop_ind].real)
+            vmax = maxrescale*np.amax(self.grid[...,prop_ind].real)
 
         # Set up plots
         figure = plt.figure(figsize=(10,5))
-- 
2.43.0


From d3d8354610905891635f0e501205a8a4f400cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 122/143] fix: refuse to crop a grid between two cell centers
 before changing it

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b8c08c5..33de846 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -384,7 +384,7 @@ class Grid():
         if max <= min:
             raise ValueError("max must be greater than min")
         
-        if np.all(self.axes_centers[ax]>max) or np.all(self.axes_centers[ax]<min):
+        if not np.any((self.axes_centers[ax]>=min) & (self.axes_centers[ax]<=max)):
             raise ValueError("No cells within specified limits")
 
         # Crop the grid
-- 
2.43.0


From f6b5fbe6cdc00ee9be1b839118c6ef479982f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 123/143] fix: animations of light cones show all objects at
 their distance, in one unit, within the outline of the light cone

---
 simim/lightcone/lchandler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index b8f15fa..91d6b87 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -363,10 +363,11 @@ class LCHandler(Handler):
         dec = self.return_property('dec',use_all_inds=use_all_inds,in_h_units=in_h_units)
         redshift = self.return_property('redshift',use_all_inds=use_all_inds,in_h_units=in_h_units)
 
-        # Get limits
-        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * self.h * self.metadata['open angle']
-        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * self.h
-        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * self.h
+        # Get limits, in the units of the positions
+        unit_h = self.h if in_h_units else 1
+        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * unit_h * self.metadata['open angle']
+        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * unit_h
+        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * unit_h
         obs_lim_xy = self.metadata['open angle'] * 180/np.pi*60
         obs_lim_zmax = self.metadata['maximum redshift']
         obs_lim_zmin = self.metadata['minimum redshift']
@@ -374,7 +375,7 @@ class LCHandler(Handler):
         # Values along a circle, outline type
         outline = self.metadata['shape']
         edgepaternx = np.array([-1,1,1,-1,-1])
-        edgepaterny = np.array([-1,-1,1,1,-1])
+        edgepaterny = np.array([-1,-1,1,1,-1]) * self.metadata['aspect ratio']
 
         theta = np.linspace(0,2*np.pi,1000)
         theta = np.concatenate((theta,[2*np.pi]))
@@ -461,7 +462,7 @@ class LCHandler(Handler):
 
         def animate(i):
             #title
-            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))*u.Mpc)
+            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))/unit_h*u.Mpc)
             title.set_text('redshift = {:.2f}'.format(redshift))
 
             #animate p1
@@ -479,7 +480,7 @@ class LCHandler(Handler):
             #animate p3
             radec_scatter.set_sizes(new_sizes)
 
-            r = self.cosmo.comoving_transverse_distance(redshift) * self.metadata['open angle']/2
+            r = self.cosmo.comoving_transverse_distance(redshift).value * unit_h * self.metadata['open angle']/2
             if outline == 'circle':
                 xy_outline.set_data(r*np.cos(theta),r*np.sin(theta))
             else:
-- 
2.43.0


From c04fba0a5a77b20d9c9e0fac6c795d5ff7855996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 124/143] fix: animations of light cones run with current
 matplotlib, which takes whole numbers of frames

---
 simim/lightcone/lchandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 91d6b87..690e6f6 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -457,7 +457,7 @@ class LCHandler(Handler):
             radec_scatter.set_sizes(np.zeros(len(x)))
 
         step = 50
-        nsteps = np.ceil((phys_lim_zmax-phys_lim_zmin)/step).astype('int')
+        nsteps = int(np.ceil((phys_lim_zmax-phys_lim_zmin)/step))
         step = np.ceil((phys_lim_zmax-phys_lim_zmin)/nsteps).astype('int')
 
         def animate(i):
-- 
2.43.0


From 6771b9b6ab9ba6515b39542765317a8067c18003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 125/143] fix: properties that only some snapshots have (after
 an interruption) can be deleted from all, and all are checked before any is
 deleted

---
 simim/siminterface/simhandler.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index b98d9ee..74a93c3 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -598,20 +598,23 @@ class SimHandler():
         None
         """
 
-        for i in range(len(self.snap_meta)):
-            snap = self.snap_meta['index'][i]
-            handler = self.get_snap(snap)
-
-            if i==0:
-                with h5py.File(handler.path,'a') as file:
-                    for name in property_names:
-                        if name in file[handler.groupname].keys():
-                            if 'userdefined' not in file[handler.groupname][name].attrs.keys():
-                                raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
-                            elif not file[handler.groupname][name].attrs['userdefined']:
-                                raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
-
-            handler.delete_property(*property_names)
+        handlers = [self.get_snap(snap) for snap in self.snap_meta['index']]
+
+        # Check everything before deleting anything. Properties can be missing in some of
+        # the snapshots, when writing or deleting them was interrupted
+        delete_names = [[] for handler in handlers]
+        for name in property_names:
+            for handler, names in zip(handlers,delete_names):
+                with h5py.File(handler.path,'r') as file:
+                    if name in file[handler.groupname].keys():
+                        if not file[handler.groupname][name].attrs.get('userdefined',False):
+                            raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
+                        names.append(name)
+            if not any(name in names for names in delete_names):
+                raise ValueError("Property {} is not in the saved file".format(name))
+
+        for handler, names in zip(handlers,delete_names):
+            handler.delete_property(*names)
 
     def snap_stat(self, stat_function, kwargs, kw_remap={}, other_kws={},
                   give_args_in_h_units=None, use_all_inds=False, snaps=None):
-- 
2.43.0


From 117b02937c5672ecd698e6574c5b3ce013309ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 126/143] fix: snapshots to format can be given as an array

---
 simim/siminterface/_rawsiminterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e64f30a..bc444a3 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -271,7 +271,7 @@ class SimCatalogs():
         self.meta_path = os.path.join(self.path, 'meta.npy')
         self.snap_meta_path = os.path.join(self.path, 'meta_snaps.npy')
 
-        if snaps == 'all':
+        if isinstance(snaps,str) and snaps == 'all':
             self.snaps = self.allsnaps
         else:
             self.snaps = snaps
-- 
2.43.0


From 1c68be05bfb6dc94b8d90567af9c43103bb1d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 127/143] fix: cross power spectra of grids of different size
 are refused before the grids are transformed

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 33de846..986bda3 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1494,6 +1494,8 @@ class Grid():
                 raise ValueError("This cross_grid is already a power spectrum")
             if cross_grid.n_dimensions != self.n_dimensions:
                 raise ValueError("grid n_dimensions ({}) does not match cross_grid ({})".format(self.n_dimensions,cross_grid.n_dimensions))
+            if np.any((cross_grid.n_pixels != self.n_pixels) & (cross_grid.n_pixels != 1)):
+                raise ValueError("grid n_pixels ({}) does not match cross_grid ({})".format(self.n_pixels,cross_grid.n_pixels))
             if cross_grid.n_properties != 1 and self.n_properties != 1:
                 if cross_grid.n_properties != self.n_properties:
                     raise ValueError("grid n_properties ({}) is not compatible cross_grid ({})".format(self.n_properties,cross_grid.n_properties))
-- 
2.43.0


From d2a133b6ae9994a630ffbce0b0dbea0000957955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 128/143] fix: sources that do not fit are refused before the
 grid is padded to convolve it in place

---
 simim/map/gridder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 986bda3..87ede6a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1142,6 +1142,11 @@ class Grid():
             if np.any(ax>=self.n_dimensions) or np.any(ax<0):
                 raise ValueError('specified axes not valid')
 
+        # Axes that are not convolved (and properties) have to match
+        for i in np.setdiff1d(np.arange(self.grid.ndim),ax):
+            if shape[i] != self.grid.shape[i] and shape[i] != 1 and self.grid.shape[i] != 1:
+                raise ValueError("source grid does not match the shape of the grid along axis {}".format(i))
+
         # Pad the array
         if pad is not None:
             if not isinstance(pad,int):
-- 
2.43.0


From 802713a0c5a59ab038e41f9c15123a2062448d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 129/143] fix: axis units of the wrong length are refused
 before axes are rescaled

---
 simim/map/gridder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 87ede6a..aca8fa3 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -434,6 +434,9 @@ class Grid():
             factor = np.ones(len(ax))*factor[0]
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
+
+        if axunits is not None and len(np.array(axunits,ndmin=1)) not in [1,len(ax)]:
+            raise ValueError('length of axunits must be 1 or match the length of ax')
             
         # Unit arrays may have a fixed string length - don't truncate new units
         self.axunits = self.axunits.astype(object)
-- 
2.43.0


From 43a70f3a3c6aadb0835bae073274931cd1be373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 130/143] fix: grids populated by functions of integers keep
 the values added later, and are copies

---
 simim/map/gridder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index aca8fa3..af80370 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2440,7 +2440,10 @@ class GridFromAxesAndFunction(GridFromAxes):
         super().__init__(*axes,n_properties=n_properties,axunits=axunits,gridunits=gridunits)
         self.init_grid()
         shape = self.grid.shape
-        self.grid = np.expand_dims(function(*self.axes_centers,**function_kwargs),axis=-1)
+        values = np.array(function(*self.axes_centers,**function_kwargs))
+        if not np.issubdtype(values.dtype,np.inexact):
+            values = values.astype('float')
+        self.grid = np.expand_dims(values,axis=-1)
         if self.grid.shape != shape:
             raise ValueError("function does not produce a grid of the correct shape")
 
-- 
2.43.0


From 58a0ac89e7fa0817107be64ec1b46f073de15cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:31 +0000
Subject: [PATCH 131/143] fix: lines of sight have to keep within both of their
 limits at once

---
 simim/lightcone/lcmaker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 32dada3..91f0228 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -530,6 +530,9 @@ class LCMaker(GenericLCMaker):
             test_b = False
             while not test_a or not test_b:
 
+                # Both limits have to hold for the same line of sight
+                test_a = False
+                test_b = False
                 LOS_vec = rng.random(3)
 
                 tan_1 = LOS_vec[0]/LOS_vec[1]
-- 
2.43.0


From 9f04d99afbcb8b1d491010c2eaebb03b4dc22880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:31 +0000
Subject: [PATCH 132/143] fix: light cones too wide for any line of sight are
 refused, instead of looking for one forever

---
 simim/lightcone/lcmaker.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 91f0228..5b2f63e 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -522,6 +522,14 @@ class LCMaker(GenericLCMaker):
             be buffered to avoid overflowing the simulation box edges
         """
 
+        # Without any line of sight that fits, there is nothing to pick from. The
+        # diagonal of the box leaves the most space
+        max_distance = np.amax(self.snapshots_use['transverse_distance_max'])
+        buffer_coef_min = 1.01 * (np.tan(openradius) * np.sqrt(2) + 1 - np.cos(openradius))
+        if (openradius >= np.pi/12 or
+            self.copies_max*self.box_edge*np.sqrt(3) - 2*buffer_coef_min*max_distance <= 10):
+            raise ValueError("Light cone does not fit in the simulation box along any line of sight")
+
         test_geom = False
         while not test_geom:
 
-- 
2.43.0


From 95c5373921bc79c851b5563f618e19788a925cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:03 +0000
Subject: [PATCH 133/143] fix: properties named twice in one request are added
 to light cones once

---
 simim/lightcone/lcmaker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 5b2f63e..d7fc78c 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -151,7 +151,7 @@ class GenericLCMaker():
             else:
                 new_lc_keys.append(key)
 
-        keys = np.sort(new_lc_keys)
+        keys = np.unique(new_lc_keys)
 
         # Get the data types of the properties
         dtypes = {}
@@ -286,7 +286,7 @@ class GenericLCMaker():
             else:
                 new_lc_keys.append(key)
 
-        keys = np.sort(new_lc_keys)
+        keys = np.unique(new_lc_keys)
 
         # Note in LC files that we're adding properties
         for i in range(self.n):
-- 
2.43.0


From 0d1c423af2349dd61d9f6458264868ab56bae851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:05 +0000
Subject: [PATCH 134/143] fix: grids are not shorter than the side length asked
 for

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index af80370..2876561 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -173,7 +173,7 @@ class Grid():
         # Set up the grid - make sure the side length is compatible with
         # number of pixels
         n_pixels_decimal = self.side_length/self.pixel_size
-        n_pixels_ceil = np.ceil(np.round(n_pixels_decimal,1))
+        n_pixels_ceil = np.ceil(np.round(n_pixels_decimal,3)) # Round so numerical errors don't add pixels
         if np.any(n_pixels_decimal != n_pixels_ceil):
             self.side_length = self.pixel_size * n_pixels_ceil
             if (not side_length is None) and (not center_point is None):
-- 
2.43.0


From bf1652069e87f8b0fc21fb77b35c51f8ec095d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:05 +0000
Subject: [PATCH 135/143] fix: scale_axis takes arrays of units, one unit in a
 list, and None for single axes

---
 simim/map/gridder.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 2876561..45aec42 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -435,9 +435,13 @@ class Grid():
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
 
-        if axunits is not None and len(np.array(axunits,ndmin=1)) not in [1,len(ax)]:
+        if axunits is None or isinstance(axunits,str):
+            axunits = [axunits]
+        if len(axunits) == 1:
+            axunits = [axunits[0] for i in ax]
+        elif len(axunits) != len(ax):
             raise ValueError('length of axunits must be 1 or match the length of ax')
-            
+
         # Unit arrays may have a fixed string length - don't truncate new units
         self.axunits = self.axunits.astype(object)
         self.fourier_axunits = self.fourier_axunits.astype(object)
@@ -449,20 +453,12 @@ class Grid():
             self.pixel_size[i] *= factor[i_ax]
 
             # Handle units inputs:
-            if axunits is None:
+            if axunits[i_ax] is None:
                 self.axunits[i] = None
                 self.fourier_axunits[i] = None
-            elif axunits == 'same':
-                self.axunits[i] = self.axunits[i]
-                self.fourier_axunits[i] = self.fourier_axunits[i]
-            elif len(np.array(axunits,ndmin=1,copy=True))==1:
-                self.axunits[i] = axunits
-                self.fourier_axunits[i] = axunits+'^-1'
-            elif len(np.array(axunits,ndmin=1,copy=True))==len(ax):
+            elif axunits[i_ax] != 'same':
                 self.axunits[i] = axunits[i_ax]
                 self.fourier_axunits[i] = axunits[i_ax]+'^-1'
-            else:
-                raise ValueError('length of axunits must be 1 or match the length of ax')
 
             # Set up the grid - make sure the side length is compatible with
             # number of pixels
-- 
2.43.0


From f7889cb5c6b4aa8dfc73c8e0b1097930585aa61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 136/143] fix: sources with more properties or cells than the
 grid along axes that are not convolved are refused

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 45aec42..8fd3827 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1143,7 +1143,7 @@ class Grid():
 
         # Axes that are not convolved (and properties) have to match
         for i in np.setdiff1d(np.arange(self.grid.ndim),ax):
-            if shape[i] != self.grid.shape[i] and shape[i] != 1 and self.grid.shape[i] != 1:
+            if shape[i] != self.grid.shape[i] and shape[i] != 1:
                 raise ValueError("source grid does not match the shape of the grid along axis {}".format(i))
 
         # Pad the array
-- 
2.43.0


From 334f83651fb5dfc41acc9512b374b01587e4a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:19 +0000
Subject: [PATCH 137/143] fix: directories whose path contains line breaks are
 refused, instead of being looked for under part of their name

---
 simim/_paths.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simim/_paths.py b/simim/_paths.py
index 9ab055a..ff516ab 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -22,6 +22,11 @@ def _checkload_path_file(path):
                 endpoint[line_split[0]] = line_split[1]
     return endpoint
 
+def _checkbreaks(path):
+    """Paths are saved one per line, so they cannot contain line breaks"""
+    if '\n' in path or '\r' in path:
+        raise ValueError("Paths containing line breaks cannot be used")
+
 class _SimIMPaths():
     """Class to handle the paths to simulations"""
 
@@ -85,6 +90,7 @@ class _SimIMPaths():
             raise NameError("Specified path not found")
 
         root = os.path.abspath(root)
+        _checkbreaks(root)
 
         if confirm_with_user:
             print("Files will be saved in {}".format(os.path.join(root,'simim_resources')))
@@ -144,6 +150,7 @@ class _SimIMPaths():
                 os.mkdir(new_path)
 
         new_path = os.path.abspath(new_path)
+        _checkbreaks(new_path)
 
         # Write the new path name
         with open(os.path.join(self.root,self.simpath_ext),'a') as file:
@@ -183,6 +190,7 @@ class _SimIMPaths():
                 os.mkdir(new_path)
 
         new_path = os.path.abspath(new_path)
+        _checkbreaks(new_path)
 
         # Write the new path name
         with open(os.path.join(self.root,self.lcpath_ext),'a') as file:
@@ -222,6 +230,7 @@ class _SimIMPaths():
                 os.mkdir(new_path)
 
         new_path = os.path.abspath(new_path)
+        _checkbreaks(new_path)
 
         # Write the new path name
         with open(os.path.join(self.root,self.proppath_ext),'a') as file:
-- 
2.43.0


From 0e2440124282f16d52262df3bdaf13803d48142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:19 +0000
Subject: [PATCH 138/143] fix: directories whose names are no valid text are
 found again, and do not empty the record of the data directory

---
 simim/_paths.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index ff516ab..a32fb65 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -8,7 +8,7 @@ def _checkload_root_file(path):
     """Check if root path file exists and read file contents"""
     endpoint = None
     if os.path.exists(path):
-        with open(path) as file:
+        with open(path,errors='surrogateescape') as file:
             endpoint = file.readlines()[0].replace('\n','')
     return endpoint
 
@@ -16,7 +16,7 @@ def _checkload_path_file(path):
     """Check if a path listing file exists and read file contents"""
     endpoint = {}
     if os.path.exists(path):
-        with open(path) as file:
+        with open(path,errors='surrogateescape') as file:
             for line in file.readlines():
                 line_split = line.replace('\n','').split(' ',1)
                 endpoint[line_split[0]] = line_split[1]
@@ -104,7 +104,7 @@ class _SimIMPaths():
                 answer = input("Is this okay? y/n: ")
 
         # Save the root location
-        with open(self.root_file,'w') as file:
+        with open(self.root_file,'w',errors='surrogateescape') as file:
             file.write(root)
         self.root = root
 
@@ -153,7 +153,7 @@ class _SimIMPaths():
         _checkbreaks(new_path)
 
         # Write the new path name
-        with open(os.path.join(self.root,self.simpath_ext),'a') as file:
+        with open(os.path.join(self.root,self.simpath_ext),'a',errors='surrogateescape') as file:
             file.write('{} {}\n'.format(sim,new_path))
 
         self.sims[sim] = new_path
@@ -193,7 +193,7 @@ class _SimIMPaths():
         _checkbreaks(new_path)
 
         # Write the new path name
-        with open(os.path.join(self.root,self.lcpath_ext),'a') as file:
+        with open(os.path.join(self.root,self.lcpath_ext),'a',errors='surrogateescape') as file:
             file.write('{} {}\n'.format(sim,new_path))
 
         self.lcs[sim] = new_path
@@ -233,7 +233,7 @@ class _SimIMPaths():
         _checkbreaks(new_path)
 
         # Write the new path name
-        with open(os.path.join(self.root,self.proppath_ext),'a') as file:
+        with open(os.path.join(self.root,self.proppath_ext),'a',errors='surrogateescape') as file:
             file.write('{} {}\n'.format(item,new_path))
 
         self.props[item] = new_path
-- 
2.43.0


From 33ee0bf42ca27e0acdf19dd269e1367cabeae4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:09 +0000
Subject: [PATCH 139/143] fix: values that cannot be added do not leave the
 axes of a grid exchanged

---
 simim/map/gridder.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 8fd3827..efc6f43 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -773,15 +773,11 @@ class Grid():
         # Move array-axis to predictable location (end of grid)
         if not new_prop:
             if properties is None:
-                self.grid = np.moveaxis(self.grid,ax,-2)
-                np.add.at(self.grid, positions, np.expand_dims(values,2))
-                self.grid = np.moveaxis(self.grid,-2,ax)
+                np.add.at(np.moveaxis(self.grid,ax,-2), positions, np.expand_dims(values,2))
             else:
                 properties = self._check_property_input(properties)
                 for ip in properties:
-                    self.grid = np.moveaxis(self.grid,ax,-2)
-                    np.add.at(self.grid, positions+(slice(None),ip,), values)
-                    self.grid = np.moveaxis(self.grid,-2,ax)
+                    np.add.at(np.moveaxis(self.grid,ax,-2), positions+(slice(None),ip,), values)
 
 
         else:
-- 
2.43.0


From aca1bb266a8437140696e06a5c74e606418c259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 140/143] fix: down_sample refuses factors that do not fit an
 axis before it changes other axes

---
 simim/map/gridder.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index efc6f43..f441656 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1217,11 +1217,16 @@ class Grid():
         else:
             raise ValueError("mode not recognized - must be 'average' or 'sum'.")
 
+        # Check every axis before changing any
+        n_pixels_left = np.copy(self.n_pixels)
+        for axi,fac in zip(ax,factor):
+            if fac < 1 or n_pixels_left[axi]//fac < 1:
+                raise ValueError("Cannot bin together more pixels than present in dimension {}".format(axi))
+            n_pixels_left[axi] = n_pixels_left[axi]//fac
+
         for axi,fac in zip(ax,factor):
             shape = np.concatenate((self.n_pixels,[self.n_properties]))
             shape[axi] = shape[axi]//fac
-            if shape[axi] < 1:
-                raise ValueError("Cannot bin together more pixels than present in dimension {}".format(axi))
 
             # Downsample
             new_ax_centers = np.zeros(shape[axi])
-- 
2.43.0


From 488663a53682ea636ed1e1690f37af0d20cac187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 141/143] fix: scale_axis refuses factors and units that are
 not valid before it changes any axis

---
 simim/map/gridder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f441656..d0b3f85 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -429,7 +429,7 @@ class Grid():
         if np.any(ax>=self.n_dimensions) or np.any(ax<0):
             raise ValueError('specified axes not valid')
         
-        factor = np.array(factor,ndmin=1)
+        factor = np.array(factor,ndmin=1,dtype=float)
         if len(factor) == 1:
             factor = np.ones(len(ax))*factor[0]
         elif len(factor) != len(ax):
@@ -441,6 +441,8 @@ class Grid():
             axunits = [axunits[0] for i in ax]
         elif len(axunits) != len(ax):
             raise ValueError('length of axunits must be 1 or match the length of ax')
+        if not all(unit is None or isinstance(unit,str) for unit in axunits):
+            raise ValueError('axunits must be strings')
 
         # Unit arrays may have a fixed string length - don't truncate new units
         self.axunits = self.axunits.astype(object)
-- 
2.43.0


From d5d8a33fedfe380c09f4819ec360a1fbd09f83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:00 +0000
Subject: [PATCH 142/143] fix: load_property refuses properties that are not
 saved before it loads any

---
 simim/_handlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index b46cdeb..4b944b6 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -152,11 +152,12 @@ class Handler():
         none
         """
 
+        # Check properties exist
         for property_name in property_names:
-            # Check property exists
             if not property_name in self.properties_saved:
                 raise ValueError("{} does not have property {} saved".format(self.objectname,property_name))
 
+        for property_name in property_names:
             # Get the values
             with h5py.File(self.path,'r') as file:
                 property_value = file[self.groupname][property_name][:]
-- 
2.43.0


From 42f2e4f75896d7605cbcee699f50c14d12203fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:00 +0000
Subject: [PATCH 143/143] fix: make_property keeps none of the properties if
 the values of one do not fit the catalogue

---
 simim/_handlers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 4b944b6..6de7c40 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -338,10 +338,8 @@ class Handler():
         # Evaluate property and put into memory
         all_values = property.evaluate_all(self, kw_remap=kw_remap, use_all_inds=use_all_inds, kw_arguments=other_kws)
 
+        all_prop_values = []
         for i in range(property.n_props):
-            name = property.names[i]
-            newname = names[i]
-
             prop_dtype = all_values[i].dtype
             if len(inds) < self.nhalos_all:
                 # Halos that are not evaluated are nan
@@ -350,8 +348,14 @@ class Handler():
             else:
                 prop_values = np.empty(self.nhalos_all,dtype=prop_dtype)
             prop_values[inds] = all_values[i]
+            all_prop_values.append(prop_values)
+
+        # Nothing is kept unless all values fit
+        for i in range(property.n_props):
+            name = property.names[i]
+            newname = names[i]
 
-            self.properties_loaded[newname] = prop_values
+            self.properties_loaded[newname] = all_prop_values[i]
             self.properties_units[newname] = property.units[name]
             self.properties_h_dependence[newname] = property.h_dependence[name]
             if not overwrite_names[i]:
-- 
2.43.0

