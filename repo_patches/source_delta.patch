From ae18b73aef5900ff7d44e0adcf33ca6ccceeba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:12 +0000
Subject: [PATCH 001/106] fix: Time never shares (and shifts in place) its
 caller's array of times

---
 gridded/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index 0893aec..168d2d3 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -308,7 +308,9 @@ class Time:
         if isinstance(data, self.__class__) or data.__class__ in self.__class__.__mro__:
             data = data.data
         # add check for valid datetime list?
-        self._data = np.asarray(data)
+        # Always a copy: the offset, origin and displacement shifts are done in place,
+        # and must not reach the caller's array (or another Time object's)
+        self._data = np.array(data)
 
     @property
     def info(self):
-- 
2.43.0


From d3d982891fda2c593c71b5d46746532166670557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:55 +0000
Subject: [PATCH 002/106] fix: Time.from_netCDF keeps the instants of files
 whose time units carry an offset

---
 gridded/time.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gridded/time.py b/gridded/time.py
index 168d2d3..1422817 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -253,6 +253,7 @@ class Time:
         if isinstance(varname, str):
             tvar = dataset.variables[varname]
 
+        offset_in_units = None
         # figure out the timezone_offset
         if isinstance(tz_offset, str) and tz_offset.lower() == "naive":
             tz_offset = None
@@ -260,6 +261,7 @@ class Time:
         elif tz_offset is None:
             # look in the time units attribute:
             tz_offset, name = parse_time_offset(tvar.units)
+            offset_in_units = tz_offset
             # assuming, for netcdf files, that no specified offset is UTC (CF standard)
             if tz_offset is None:
                 tz_offset = 0
@@ -270,6 +272,13 @@ class Time:
             tz_offset_name = name
 
         tdata = nc4.num2date(tvar[:], units=tvar.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+        if offset_in_units:
+            # num2date() converts to UTC when it understands the offset in the units,
+            # but the times are labeled with that offset, so they have to be expressed in it.
+            import dateutil
+
+            ref_time = dateutil.parser.parse(tvar.units.split("since")[1]).replace(tzinfo=None)
+            tdata = tdata + (ref_time - nc4.num2date(0, units=tvar.units, only_use_cftime_datetimes=False))
         # Fixme: use the name and pass it through?
         time = cls(
             data=tdata,
-- 
2.43.0


From d315a584ccb2336f093afc6ca2cc30b0b20b9602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:55 +0000
Subject: [PATCH 003/106] fix: VectorVariable.time can be set from a sequence
 of datetimes (collections.abc)

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 6e2c426..38ca6d0 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1131,7 +1131,7 @@ class VectorVariable:
                     Original error: {str(e)}""")
         if isinstance(t, Time_class):
             self._time = t
-        elif isinstance(t, collections.Iterable) or isinstance(t, nc4.Variable):
+        elif isinstance(t, collections.abc.Iterable) or isinstance(t, nc4.Variable):
             self._time = Time_class(t)
         else:
             raise ValueError("Time must be set with an iterable container or netCDF variable")
-- 
2.43.0


From f36b0ae57f5e30a0ed182cf2f0feb62bed52e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:47 +0000
Subject: [PATCH 004/106] fix: cached results of at() are only reused for the
 same points shape and options

---
 gridded/variable.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 38ca6d0..37d73f4 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -603,7 +603,8 @@ class Variable:
             _hash = self._get_hash(pts, time)
 
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            memo_key = (_hash, pts.shape, pts.dtype.str, extrapolate, unmask, str(sorted(kwargs.items())))
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -623,7 +624,7 @@ class Variable:
             value = np.ma.filled(value)
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_key)
         return value
 
     interpolate = at  # common request
@@ -1269,7 +1270,8 @@ class VectorVariable:
             _hash = self._get_hash(pts, time)
 
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            memo_key = (_hash, pts.shape, pts.dtype.str, extrapolate, unmask, str(sorted(kwargs.items())))
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -1290,7 +1292,7 @@ class VectorVariable:
         )
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_key)
 
         return value
 
-- 
2.43.0


From 7d6931ed47e2ce40af992c8acd0cc4d166a3c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:11 +0000
Subject: [PATCH 005/106] fix: changing a result of Variable.at() (its mask,
 say) does not change the cached one

---
 gridded/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 37d73f4..7e9b565 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -429,7 +429,7 @@ class Variable:
         """
         return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
 
-    def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
+    def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
             result = result.copy()
         result.setflags(write=False)
@@ -440,7 +440,7 @@ class Variable:
         D[_hash] = result
         D[_hash].setflags(write=False)
 
-    def _get_memoed(self, points, time, D, _copy=False, _hash=None):
+    def _get_memoed(self, points, time, D, _copy=True, _hash=None):
         if _hash is None:
             _hash = self._get_hash(points, time)
         if D is not None and _hash in D:
-- 
2.43.0


From ec8867caf1ab7281dbd57b71c83111572c3793f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:17 +0000
Subject: [PATCH 006/106] fix: Variable.at() never returns results cached
 before its data or time was changed

---
 gridded/variable.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 7e9b565..b38489d 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -103,6 +103,7 @@ class Variable:
         #             if grid.infer_location is None:
         #                 raise ValueError('Data must be able to fit to the grid')
 
+        self._memo_token = object()
         self.grid = grid
         self.depth = depth
         self.name = self._units = self._time = self._data = None
@@ -330,6 +331,7 @@ class Variable:
         if location not in VALID_LOCATIONS:
             raise ValueError(f"Invalid location: {location}, must be one of: {VALID_LOCATIONS}")
         self._location = location
+        self._memo_token = object()
 
     @property
     def info(self):
@@ -358,6 +360,7 @@ class Variable:
 
     @time.setter
     def time(self, t):
+        self._memo_token = object()
         Time_class = self.__class__._default_component_types["time"]
         if t is None:
             self._time = None
@@ -377,6 +380,7 @@ class Variable:
 
     @data.setter
     def data(self, d):
+        self._memo_token = object()
         d = asarraylike(d)
         # Fixme: maybe all this checking should be done when it gets added to the Dataset??
         if self.time is not None and len(d) != len(self.time):
@@ -429,6 +433,19 @@ class Variable:
         """
         return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
 
+    def _memo_state(self):
+        """
+        What a memoized result depends on besides the arguments of at(): it is
+        part of the key, so that results from before a change are never reused.
+        """
+        return (
+            self._memo_token,
+            None if self.time is None else self.time.min_time,
+            self.fill_value,
+            self.surface_boundary_condition,
+            self.bottom_boundary_condition,
+        )
+
     def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
             result = result.copy()
@@ -520,6 +537,7 @@ class Variable:
     @dimension_ordering.setter
     def dimension_ordering(self, order):
         self._order = order
+        self._memo_token = object()
 
     def at(
         self,
@@ -603,7 +621,7 @@ class Variable:
             _hash = self._get_hash(pts, time)
 
         if _mem:
-            memo_key = (_hash, pts.shape, pts.dtype.str, extrapolate, unmask, str(sorted(kwargs.items())))
+            memo_key = (self._memo_state(), _hash, pts.shape, pts.dtype.str, extrapolate, unmask, str(sorted(kwargs.items())))
             res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
@@ -1181,6 +1199,12 @@ class VectorVariable:
         """
         return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
 
+    def _memo_state(self):
+        """
+        What a memoized result depends on besides the arguments of at()
+        """
+        return tuple(var._memo_state() for var in self.variables)
+
     def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
             result = result.copy()
@@ -1270,7 +1294,7 @@ class VectorVariable:
             _hash = self._get_hash(pts, time)
 
         if _mem:
-            memo_key = (_hash, pts.shape, pts.dtype.str, extrapolate, unmask, str(sorted(kwargs.items())))
+            memo_key = (self._memo_state(), _hash, pts.shape, pts.dtype.str, extrapolate, unmask, str(sorted(kwargs.items())))
             res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
-- 
2.43.0


From 3e4f72ecbe4111617b02ea150365dcaaa40374c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 007/106] fix: points above the surface or below the bottom get
 the nearest level's or layer's value

---
 gridded/variable.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index b38489d..81907c5 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -767,21 +767,24 @@ class Variable:
         if self.data.shape[dim_idx] == self.depth.num_layers:
             #data is located on cell centers, so value is held constant across cell.
             for idx in uniq_idx:
-                if idx == -1:
-                    #special case for out of bounds and extrapolation.
-                    idx = 0
                 lay_idxs = np.where(d_indices == idx)[0]
-                values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs))
+                # extrapolation: the nearest layer is used above the first and below the last one.
+                lay = min(max(idx, 0), self.depth.num_layers - 1)
+                values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (lay,), **kwargs))
         else:
             #data is on cell edge, or on nodes, so we need to interpolate between the two levels.
             for idx in uniq_idx:
-                if idx == self.data.shape[dim_idx] - 1:
-                    # special case, index == depth dim length, so only v0 is valid
+                lay_idxs = np.where(d_indices == idx)[0]
+                if idx == self.data.shape[dim_idx] - 1 or (idx < 0 and np.all(d_alphas[lay_idxs] == 0)):
+                    # special case, index == depth dim length (or surface only), so only v0 is valid
                     v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                     values.put(lay_idxs, v0)
                     continue
-                lay_idxs = np.where(d_indices == idx)[0]
                 v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
+                if idx == -1:
+                    # special case, before the first level, so only v1 is valid
+                    values.put(lay_idxs, v1)
+                    continue
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                 sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
                 # partially fill the values array for this layer
-- 
2.43.0


From 820580e731fb003b78a2004ececbf10c38f33f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 008/106] fix: variables with a surface-only depth can be
 interpolated

---
 gridded/depth.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 749c4c5..200619c 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -50,7 +50,7 @@ class DepthBase:
 
     @classmethod
     def from_netCDF(cls, surface_index=-1, **kwargs):
-        return cls(surface_index, **kwargs)
+        return cls(surface_index=surface_index, **kwargs)
 
     @property
     def surface_index(self):
@@ -64,6 +64,15 @@ class DepthBase:
         # for the system being represented
         return self._bottom_index
 
+    @property
+    def num_levels(self):
+        # surface only, unless a subclass knows better
+        return 1
+
+    @property
+    def num_layers(self):
+        return 0
+
     def interpolation_alphas(
         self,
         points,
-- 
2.43.0


From dbaacab6e051021cfbfe84ea6966495621f0506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:19 +0000
Subject: [PATCH 009/106] fix: UGrid.locate_faces leaves the caller's array
 alone and answers the same from its cache

---
 gridded/pyugrid/ugrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 964cd28..1186c5d 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -610,14 +610,14 @@ class UGrid:
         """
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
-        points.shape = (-1, 2)
+        points = points.reshape(-1, 2)
 
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
             result = self._get_memoed(points, self._ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
+                return result[0] if just_one else result
 
         if method == "celltree":
             try:
-- 
2.43.0


From 1bd19389ed023ee7bb4af22c2dbecf6d6418247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 010/106] fix: UGrid does not renumber the caller's own
 one-based faces array in place

---
 gridded/pyugrid/ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 1186c5d..e719c35 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -312,7 +312,7 @@ class UGrid:
                 # faces index maximum equal to number of nodes, so we need to decrement by 1
                 # but only if the minimum is also gte 1
                 if faces_indexes.min() >= 1:
-                    faces_indexes[faces_indexes > 0] -= 1
+                    faces_indexes = faces_indexes - 1
                     warnings.warn("faces index maximum equal to number of nodes, automatic decrement by 1 applied")
                 else:
                     raise ValueError(
-- 
2.43.0


From 338f891f216a75aa55ae08df44fa282d44f7c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 011/106] fix: UGrid searches and interpolation follow its
 nodes and faces when they are replaced

---
 gridded/pyugrid/ugrid.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index e719c35..d22d1bb 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -148,12 +148,7 @@ class UGrid:
         #     for dataset in data.values():
         #         self.add_data(dataset)
 
-        # A kdtree is used to locate nodes.
-        # It will be created if/when it is needed.
-        self._kdtree = None
-        self._cell_tree = None
-        self._ind_memo_dict = OrderedDict()
-        self._alpha_memo_dict = OrderedDict()
+        self._clear_caches()
         super().__init__(*args, **kwargs)
 
     @classmethod
@@ -244,6 +239,17 @@ class UGrid:
         #         return False
         return True
 
+    def _clear_caches(self):
+        """
+        Drop everything derived from the nodes and faces: called when they change.
+        """
+        # A kdtree is used to locate nodes.
+        # It will be created if/when it is needed.
+        self._kdtree = None
+        self._cell_tree = None
+        self._ind_memo_dict = OrderedDict()
+        self._alpha_memo_dict = OrderedDict()
+
     def check_consistent(self):
         """
         Check if the various data is consistent: the edges and faces reference
@@ -279,6 +285,7 @@ class UGrid:
     def nodes(self, nodes_coords):
         # Room here to do consistency checking, etc.
         # For now -- simply make sure it's a numpy array.
+        self._clear_caches()
         if nodes_coords is None:
             self.nodes = np.zeros((0, 2), dtype=NODE_DT)
         else:
@@ -322,12 +329,12 @@ class UGrid:
                 # faces index minimum less than -1
                 raise ValueError(f"faces index minimum out of range. min: {faces_indexes.min()}")
             self._faces = faces_indexes
-
         else:
             self._faces = None
-            # Other things are no longer valid.
-            self._face_face_connectivity = None
-            self._face_edge_connectivity = None
+        # Other things are no longer valid.
+        self._face_face_connectivity = None
+        self._face_edge_connectivity = None
+        self._clear_caches()
 
     @faces.deleter
     def faces(self):
-- 
2.43.0


From 9b883cda6e9df8fd1e06435370f4c39929b80e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 012/106] fix: UGrid.index_of no longer passes locate_faces an
 argument it does not have

---
 gridded/pyugrid/ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index d22d1bb..3d71d73 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -659,7 +659,7 @@ class UGrid:
             return indices
 
     def index_of(self, points, method="celltree", _memo=False, _copy=False, _hash=None, use_mask=True):
-        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash, use_mask=use_mask)
+        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash)
 
     def build_celltree(self):
         """
-- 
2.43.0


From 4253971c7938facbca6a76823189e504defea8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 013/106] fix: a mesh of three triangles (or two boundary
 segments) is no longer transposed on loading

---
 gridded/pyugrid/read_netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 27dbe0c..2619a04 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -214,8 +214,8 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
                 continue
             array = var[:, :]
             # Fortran order, instead of C order, transpose the array
-            # logic below will fail for 3 node or two edge grids.
-            if array.shape[0] == defs["num_ind"]:
+            # a square array (3 faces, 2 edges, ..) is taken to be in C order: the UGRID default
+            if array.shape[0] == defs["num_ind"] and array.shape[1] != defs["num_ind"]:
                 array = array.T
             try:
                 start_index = int(var.start_index)
-- 
2.43.0


From 0e2245b99b4126f21c936737787f50c179bc51e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:16 +0000
Subject: [PATCH 014/106] fix: a mesh of three quadrilaterals survives being
 saved and loaded

---
 gridded/pyugrid/read_netcdf.py | 3 ++-
 gridded/pyugrid/ugrid.py       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 2619a04..bd71f50 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -216,7 +216,8 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
             # Fortran order, instead of C order, transpose the array
             # a square array (3 faces, 2 edges, ..) is taken to be in C order: the UGRID default
             if array.shape[0] == defs["num_ind"] and array.shape[1] != defs["num_ind"]:
-                array = array.T
+                in_order = getattr(mesh_var, "face_dimension", None) == var.dimensions[0]
+                array = array if in_order else array.T
             try:
                 start_index = int(var.start_index)
             except AttributeError:
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 3d71d73..efbd09d 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1050,6 +1050,7 @@ class UGrid:
                 mesh.edge_coordinates = coord(mesh_name)
         if self._faces is not None:
             mesh.face_node_connectivity = mesh_name + "_face_nodes"
+            mesh.face_dimension = mesh_name + "_num_face"
             if self.face_coordinates is not None:
                 # Optional attribute.
                 coord = "{0}_face_lon {0}_face_lat".format
-- 
2.43.0


From 520c1e5941d854fff4e50cd182c67ffb8ecd33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:21 +0000
Subject: [PATCH 015/106] fix: the boundary coordinates of a UGrid are found
 again when it is loaded

---
 gridded/pyugrid/ugrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index efbd09d..5a48c80 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1104,6 +1104,8 @@ class UGrid:
             boundary_nodes.cf_role = "boundary_node_connectivity"
             boundary_nodes.long_name = "Maps every boundary segment to the two nodes that it connects."
             boundary_nodes.start_index = IND_DT(0)
+            if self.boundary_coordinates is not None:
+                mesh.boundary_coordinates = "{0}_boundary_lon {0}_boundary_lat".format(mesh_name)
 
         # Optional "coordinate variables."
         for location in ["face", "edge", "boundary"]:
-- 
2.43.0


From 335d8aa85a5a9236e28fb479881ea0c777d3157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:26 +0000
Subject: [PATCH 016/106] fix: UGrid saves (and loads) the connectivity arrays
 its mesh variable refers to

---
 gridded/pyugrid/read_netcdf.py |  5 +++++
 gridded/pyugrid/ugrid.py       | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index bd71f50..3c143f9 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -72,6 +72,11 @@ grid_defs = [
         "role": "face_face_connectivity",  # Name in mesh variable.
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
     },
+    {
+        "grid_attr": "face_edge_connectivity",  # Name in UGrid object.
+        "role": "face_edge_connectivity",  # Name in mesh variable.
+        "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
+    },
     {
         "grid_attr": "boundaries",  # Name in UGrid object.
         "role": "boundary_node_connectivity",  # Name in mesh var.
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 5a48c80..c967a93 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1092,6 +1092,19 @@ class UGrid:
             edge_nodes.long_name = "Maps every edge to the two nodes that it connects."
             edge_nodes.start_index = IND_DT(0)
 
+        for name, connectivity in (
+            ("_face_links", self.face_face_connectivity),
+            ("_face_edges", self.face_edge_connectivity),
+        ):
+            if connectivity is not None:
+                links = nclocal.createVariable(
+                    mesh_name + name,
+                    IND_DT,
+                    (mesh_name + "_num_face", mesh_name + "_num_vertices"),
+                )
+                links[:] = connectivity
+                links.start_index = IND_DT(0)
+
         if self._boundaries is not None:
             nc_create_var = nclocal.createVariable
             boundary_nodes = nc_create_var(
-- 
2.43.0


From 989809c2ca898cf1043e3836abf5f20c711a9ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:09 +0000
Subject: [PATCH 017/106] fix: data padded at the high end of a dimension is
 trimmed at that end

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 381623f..f07937c 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -23,7 +23,7 @@ edge2_alternate_names = ["edge2", "v"]
 
 
 class SGrid:
-    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, 1)}
+    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, -1)}
 
     topology_dimension = 2
 
-- 
2.43.0


From edb162c7dcf2a0d851dcda880258a4582350cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 018/106] fix: an SGrid with only a node mask, or an all-clear
 center mask, can be searched

---
 gridded/pysgrid/sgrid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index f07937c..1446f80 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -836,12 +836,17 @@ class SGrid:
             (self.node_mask is not None and self.node_mask is not False)
             or (self.center_mask is not None and self.center_mask is not False)
         ):
-            if np.any(self.center_mask):
+            if self.center_mask is not None and self.center_mask is not False:
                 cell_mask = gen_celltree_mask_from_center_mask(
                     self.center_mask, self.get_padding_slices(self.center_padding)
                 )
             else:
-                pass
+                masked_nodes = gen_celltree_mask_from_center_mask(
+                    self.node_mask, self.get_padding_slices(self.node_padding)
+                )
+                cell_mask = (
+                    masked_nodes[:-1, :-1] | masked_nodes[:-1, 1:] | masked_nodes[1:, 1:] | masked_nodes[1:, :-1]
+                )
 
             lin_faces = np.empty(shape=(lon[1::, 1::].size, 4))
             if lin_faces.shape[0] != cell_mask.size:
-- 
2.43.0


From a597cc199236d34e3f60f2e09e94f209f1aabed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 019/106] fix: the 'mask' and 'mirror' behaviours of SGrid
 interpolation work for any number of points

---
 gridded/pysgrid/sgrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 1446f80..91ebe41 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1014,7 +1014,7 @@ class SGrid:
         if mask_behavior is None:
             mask_behavior = self.masked_interpolant_behavior
 
-        if mask_behavior == "mirror" and len(values) > 2:
+        if mask_behavior == "mirror" and values.shape[-1] > 2:
             raise ValueError("Mirror behavior is not implemented for more than two values")
 
         if mask_behavior == "zero":
@@ -1022,8 +1022,9 @@ class SGrid:
         elif mask_behavior == "mirror":
             filled_values = self.mirror_mask_values(values)
         elif mask_behavior == "mask":
-            filled_values = values.copy()
-            filled_values.mask = np.tile(np.any(values.mask, axis=-1), 2)
+            filled_values = np.ma.array(values, copy=True)
+            any_masked = np.any(np.ma.getmaskarray(values), axis=-1, keepdims=True)
+            filled_values.mask = np.broadcast_to(any_masked, values.shape)
         else:
             raise ValueError(f"unrecognized mask_behavior: {mask_behavior}")
 
-- 
2.43.0


From cc4e329379a363b9d04070b5c6c333df7ef44819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 020/106] fix: SGrid.locate_nearest builds its search tree on
 first use

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 91ebe41..8cbb053 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -678,7 +678,7 @@ class SGrid:
         points = np.asarray(points, dtype=np.float64)
         points = points.reshape(-1, 2)
 
-        if self._kd_trees[grid] is None:
+        if self._kd_trees.get(grid) is None:
             self.build_kdtree(grid)
         tree = self._kd_trees[grid]
         lin_indices = np.array(tree.query(points))[1].astype(np.int32)
-- 
2.43.0


From a2697a091fb1b6ba22078de0769937fa9c3a0a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 021/106] fix: SGrid.interpolate_var_to_points works without
 slices, as documented

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 8cbb053..c713b9d 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1145,7 +1145,7 @@ class SGrid:
         # else:
         #     slices = (xslice, yslice)
         zero_aligned_idxs = idxs#.copy() - [xslice.start, yslice.start]
-        var = variable[slices]
+        var = variable[:] if slices is None else variable[slices]
         if len(var.shape) > 2:
             raise ValueError(
                 "Variable has too many dimensions to \
-- 
2.43.0


From 5d53f0801e5f030a34fda4c64740504de0928d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 022/106] fix: SGrid.locate_faces does not return results
 cached for another shape or search tree

---
 gridded/pysgrid/sgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index c713b9d..ccd59e7 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -639,6 +639,7 @@ class SGrid:
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
         points = points.reshape(-1, 2)
+        _memo = _memo and not just_one  # only the results for arrays of points are memoized
 
         if _memo:
             if _hash is None:
@@ -914,6 +915,9 @@ class SGrid:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
         self._cell_tree = (CellTree(lin_nodes, lin_faces), lin_nodes, lin_faces)
+        # results found with the previous tree
+        self._cell_ind_memo_dict.clear()
+        self._log_ind_memo_dict.clear()
 
     def nearest_var_to_points(
         self,
-- 
2.43.0


From 28dc0b3afe4cd0f3cef5208958cf5bc90b52e078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 023/106] fix: SGrid interpolation gives the same shape (and
 honours unmask) when no point is on the grid

---
 gridded/pysgrid/sgrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index ccd59e7..d59f175 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1123,7 +1123,11 @@ class SGrid:
             # ind has to be writable
             ind = self.locate_faces(points, _memo, _copy, _hash)
             if (ind.mask).all():
-                return np.ma.masked_all((points.shape[0], 1))
+                if location in center_alternate_names:
+                    result = np.ma.masked_all((points.shape[0], 1))
+                else:
+                    result = np.ma.masked_all((points.shape[0],))
+                return result.filled(fill_value) if unmask else result
 
         if self._l_coeffs is None:
             self._compute_transform_coeffs()
-- 
2.43.0


From 91fa51cb8bff596aee0c4d5f80a31910d52c8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:05 +0000
Subject: [PATCH 024/106] fix: a file's grid_type attribute naming a
 rectangular grid is honoured, in any case

---
 gridded/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 8c36d60..dfd477d 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -603,7 +603,7 @@ class Grid:
                 return Grid_S
         else:
             # no topology, so search dataset for grid_type variable
-            if hasattr(dataset, "grid_type") and dataset.grid_type in sgrid_names + ugrid_names:
+            if hasattr(dataset, "grid_type") and dataset.grid_type.lower() in sgrid_names + ugrid_names + rgrid_names:
                 if dataset.grid_type.lower() in ugrid_names:
                     return Grid_U
                 elif dataset.grid_type.lower() in rgrid_names:
-- 
2.43.0


From 08076afbfe56f869e8fd782f0fe432d13b362768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 025/106] fix: ordering boundary segments that meet at their
 first points (verdat)

---
 gridded/io/verdat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index e215f17..b598fd1 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -175,7 +175,7 @@ def order_boundary_segments(bound_segs):
                     bound.append(p0)
                     bound_segs.pop(i)
                 elif p0 == bound[0]:
-                    bound.insert(p1)
+                    bound.insert(0, p1)
                     bound_segs.pop(i)
                 elif p1 == bound[0]:
                     bound.insert(0, p0)
-- 
2.43.0


From 9185d34e5ec613489fa89b780fb666c7787160d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 026/106] fix: reading a verdat boundary of a single point

---
 gridded/io/verdat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index b598fd1..b9c5f8d 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -62,7 +62,7 @@ def load_verdat(filename):
             bound = []
             for i in range(start_point, end_point - 1):
                 bound.append((i, i + 1))
-            bound.append(((i + 1), start_point))
+            bound.append((end_point - 1, start_point))
             start_point = end_point
             bounds.extend(bound)
 
-- 
2.43.0


From 0ef35bfa9e26f28123f0d48fddd1213b622ab0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:27 +0000
Subject: [PATCH 027/106] fix: at the ends of the time axis, data ordered depth
 before time is sliced by both

---
 gridded/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 81907c5..bf5fa35 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -699,9 +699,9 @@ class Variable:
 
         if time == self.time.min_time or (extrapolate and time < self.time.min_time):
             # min or before
-            return val_func(points, time, extrapolate, slices=(0,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (0,), **kwargs)
         elif time == self.time.max_time or (extrapolate and time > self.time.max_time):
-            return val_func(points, time, extrapolate, slices=(-1,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (-1,), **kwargs)
         else:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
-- 
2.43.0


From ac53e112e4baf847eeb13d8efc42a0e53f6d2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 028/106] fix: Variable.at() never returns results cached for
 another grid or depth

---
 gridded/variable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index bf5fa35..5d6da2e 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -104,6 +104,7 @@ class Variable:
         #                 raise ValueError('Data must be able to fit to the grid')
 
         self._memo_token = object()
+        self._memo_parts = (None, None)
         self.grid = grid
         self.depth = depth
         self.name = self._units = self._time = self._data = None
@@ -438,6 +439,10 @@ class Variable:
         What a memoized result depends on besides the arguments of at(): it is
         part of the key, so that results from before a change are never reused.
         """
+        parts = (self.grid, self.depth)
+        if any(new is not old for new, old in zip(parts, self._memo_parts)):
+            self._memo_parts = parts
+            self._memo_token = object()
         return (
             self._memo_token,
             None if self.time is None else self.time.min_time,
-- 
2.43.0


From 80f122f2552a9fad11f576e83e06b8578c1f6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:48 +0000
Subject: [PATCH 029/106] fix: Variable.at() follows its time axis when the
 axis' times are replaced

---
 gridded/variable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 5d6da2e..8d17e1d 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -104,7 +104,7 @@ class Variable:
         #                 raise ValueError('Data must be able to fit to the grid')
 
         self._memo_token = object()
-        self._memo_parts = (None, None)
+        self._memo_parts = (None, None, None)
         self.grid = grid
         self.depth = depth
         self.name = self._units = self._time = self._data = None
@@ -439,13 +439,13 @@ class Variable:
         What a memoized result depends on besides the arguments of at(): it is
         part of the key, so that results from before a change are never reused.
         """
-        parts = (self.grid, self.depth)
+        # (Time.data is replaced by a new array whenever the axis is changed or shifted)
+        parts = (self.grid, self.depth, None if self.time is None else self.time.data)
         if any(new is not old for new, old in zip(parts, self._memo_parts)):
             self._memo_parts = parts
             self._memo_token = object()
         return (
             self._memo_token,
-            None if self.time is None else self.time.min_time,
             self.fill_value,
             self.surface_boundary_condition,
             self.bottom_boundary_condition,
-- 
2.43.0


From 117cf6c19ff969dfc06a0725489de2350973cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:01 +0000
Subject: [PATCH 030/106] fix: a rectangular grid with the same array for lon
 and lat does not swap the points' coordinates

---
 gridded/grids.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index dfd477d..70a805c 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -404,6 +404,9 @@ class Grid_R(GridBase):
         points_y = points[:, 1]  # lat
         points_x = points[:, 0]  # lon
         y, x = self.lonlat_to_yx(variable)
+        lon_first = y is self.node_lon
+        if self.node_lon is self.node_lat:  # the same array: only the names of the dimensions can tell
+            lon_first = variable.dimensions[-2] == self.dimensions[1]
 
         if slices is not None:
             variable = variable[slices]
@@ -431,7 +434,7 @@ class Grid_R(GridBase):
         #     return iv
 
         interp_func = RegularGridInterpolator((y, x), variable, method=method, bounds_error=False, fill_value=0)
-        if y is self.node_lon:
+        if lon_first:
             vals = interp_func(points, method=method)
         else:
             vals = interp_func(points[:, ::-1], method=method)
-- 
2.43.0


From 19b4128d7a4dcad5cac8c22ca74e60bbe23e3a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:07 +0000
Subject: [PATCH 031/106] fix: Grid_R.infer_location returns None for shapes
 that do not fit (it has no edges)

---
 gridded/grids.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 70a805c..b6d6591 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -461,10 +461,6 @@ class Grid_R(GridBase):
         difference = (var_shape - node_shape).tolist()
         if (difference == [1, 1] or difference == [-1, -1]) and self.center_lon is not None:
             return "center"
-        elif difference == [1, 0] and self.edge1_lon is not None:
-            return "edge1"
-        elif difference == [0, 1] and self.edge2_lon is not None:
-            return "edge2"
         elif difference == [0, 0] and self.node_lon is not None:
             return "node"
         else:
-- 
2.43.0


From 7962bec0815af445dd0251a206e20ed732e30b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:43 +0000
Subject: [PATCH 032/106] fix: UGrid.interpolate_var_to_points can infer the
 location of a plain array

---
 gridded/pyugrid/ugrid.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index c967a93..f625708 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -777,7 +777,6 @@ class UGrid:
         # (for compatibility with old code)
         if location is None:
             location = self.infer_location(variable)
-            variable.location = location
         if location is None:
             raise ValueError("Data is incompatible with grid nodes or faces")
 
-- 
2.43.0


From 67b1fc6f76640e721521d023e9001602e462d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:48 +0000
Subject: [PATCH 033/106] fix: point_in_tri (and the 'simple' face search)
 handle clockwise faces

---
 gridded/pyugrid/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/pyugrid/util.py b/gridded/pyugrid/util.py
index 16c2c8c..b663672 100644
--- a/gridded/pyugrid/util.py
+++ b/gridded/pyugrid/util.py
@@ -23,6 +23,7 @@ def point_in_tri(face_points, point, return_weights=False):
     sub_tri_areas[2] = _signed_area_tri(np.vstack((face_points[(0, 2), :], point)))
     tri_area = _signed_area_tri(face_points)
 
+    tri_area = abs(tri_area)  # the face may be clockwise
     if abs(np.abs(sub_tri_areas).sum() - tri_area) / tri_area <= epsilon:
         if return_weights:
             raise NotImplementedError
-- 
2.43.0


From 9d0059c4d49109e522d600a3e5067b7641a54a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:52 +0000
Subject: [PATCH 034/106] fix: deleting the nodes or faces of a UGrid drops the
 search results cached for them

---
 gridded/pyugrid/ugrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index f625708..a7e05f5 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -298,6 +298,7 @@ class UGrid:
         self._edges = None
         self._faces = None
         self._boundaries = None
+        self._clear_caches()
 
     @property
     def faces(self):
@@ -344,6 +345,7 @@ class UGrid:
         self._face_face_connectivity = None
         self._face_edge_connectivity = None
         self.edge_coordinates = None
+        self._clear_caches()
 
     @property
     def edges(self):
-- 
2.43.0


From cb00f1137dc75d8d99969b6bde5e6ed894c45b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:12 +0000
Subject: [PATCH 035/106] fix: SGrid interpolation on rotated grids (cells
 where x does not change with the column, or nearly parallelograms)

The logical position in a cell was solved with a quadratic formula that cancels
catastrophically for nearly parallelogram shaped cells (errors of percents on a
regular grid rotated by 10 degrees) and from the x equation alone (division by
zero when x does not change along the columns, e.g. transposed arrays).
---
 gridded/pysgrid/sgrid.py | 59 +++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index d59f175..ff6de0c 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1307,34 +1307,43 @@ class SGrid:
         (l,m) - coordinate in logical space to use for interpolation
 
         Eqns:
-        m = (-bb +- sqrt(bb^2 - 4*aa*cc))/(2*aa)
-        l = (l-a1 - a3*m)/(a2 + a4*m)
+        aa*m^2 + bb*m + cc = 0
+        l = (x - a1 - a3*m)/(a2 + a4*m) = (y - b1 - b3*m)/(b2 + b4*m)
         """
 
+        def solve_l(m, t):
+            """
+            l for a given m, from the x or the y equation: whichever is better conditioned
+            (the x equation says nothing about l if x does not change with l)
+            """
+            dx = a[1][t] + a[3][t] * m
+            dy = b[1][t] + b[3][t] * m
+            use_x = np.abs(dx) >= np.abs(dy)
+            num = np.where(use_x, x[t] - a[0][t] - a[2][t] * m, y[t] - b[0][t] - b[2][t] * m)
+            return num / np.where(use_x, dx, dy)
+
+        def outside(l, m):
+            """how far outside of the unit square (l, m) is"""
+            d = np.maximum(np.maximum(-l, l - 1), np.maximum(-m, m - 1))
+            return np.nan_to_num(np.maximum(d, 0), nan=np.inf)
+
         def quad_eqn(l, m, t, aa, bb, cc):
             """
-            solves the following eqns for m and l
-            m = (-bb +- sqrt(bb^2 - 4*aa*cc))/(2*aa)
-            l = (l-a1 - a3*m)/(a2 + a4*m)
+            solves the equations above for m and l, with the form of the quadratic formula
+            that does not cancel when aa is very small (almost parallelogram shaped cells)
             """
             if len(aa) == 0:
                 return
-            k = bb * bb - 4 * aa * cc
-            k = np.ma.masked_less(k, 0)
-
-            det = np.ma.sqrt(k)
-            m1 = (-bb - det) / (2 * aa)
-            l1 = (x[t] - a[0][t] - a[2][t] * m1) / (a[1][t] + a[3][t] * m1)
-
-            m2 = (-bb + det) / (2 * aa)
-            l2 = (x[t] - a[0][t] - a[2][t] * m2) / (a[1][t] + a[3][t] * m2)
-
-            t1 = np.logical_or(l1 < 0, l1 > 1)
-            t2 = np.logical_or(m1 < 0, m1 > 1)
-            t3 = np.logical_or(t1, t2)
+            det = np.sqrt(np.maximum(bb * bb - 4 * aa * cc, 0))
+            q = -0.5 * (bb + np.where(bb < 0, -det, det))
+            m1 = cc / q
+            l1 = solve_l(m1, t)
+            m2 = q / aa
+            l2 = solve_l(m2, t)
 
-            m[t] = np.choose(t3, (m1, m2))
-            l[t] = np.choose(t3, (l1, l2))
+            second = outside(l2, m2) < outside(l1, m1)
+            m[t] = np.where(second, m2, m1)
+            l[t] = np.where(second, l2, l1)
 
         a = a.T
         b = b.T
@@ -1346,12 +1355,12 @@ class SGrid:
 
         t = aa[:] == 0
 
-        # Attempts to solve the simpler linear case first.
-        with np.errstate(invalid="ignore"):
+        with np.errstate(all="ignore"):
+            # Attempts to solve the simpler linear case first.
             m[t] = -cc[t] / bb[t]
-            l[t] = (x[t] - a[0][t] - a[2][t] * m[t]) / (a[1][t] + a[3][t] * m[t])
-        # now solve the quadratic cases
-        quad_eqn(l, m, ~t, aa[~t], bb[~t], cc[~t])
+            l[t] = solve_l(m[t], t)
+            # now solve the quadratic cases
+            quad_eqn(l, m, ~t, aa[~t], bb[~t], cc[~t])
 
         return (l, m)
 
-- 
2.43.0


From f11374cea1023ab3f056b1120aac0ab217c8264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 036/106] fix: SGrid.nearest_var_to_points works with data that
 is not a masked array

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index ff6de0c..c47cc3d 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -779,7 +779,7 @@ class SGrid:
         """
         Given a list of 2D indices, return the value of var at each index
         """
-        var = var[:]
+        var = np.ma.asarray(var[:])
         rv = np.ma.zeros((index.shape[0], 1), dtype=np.float64)
         mask = np.ma.zeros((index.shape[0], 1), dtype=bool)
         raw = np.ravel_multi_index(index.T, var.shape, mode="clip")
-- 
2.43.0


From abedf1ab2adcb836a9f814e5e080e9b40c0bf78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:17 +0000
Subject: [PATCH 037/106] fix: masked data on a Grid_R counts as zero, not as
 what lies under the mask, without slices too

---
 gridded/grids.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index b6d6591..4f40229 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -408,10 +408,9 @@ class Grid_R(GridBase):
         if self.node_lon is self.node_lat:  # the same array: only the names of the dimensions can tell
             lon_first = variable.dimensions[-2] == self.dimensions[1]
 
-        if slices is not None:
-            variable = variable[slices]
-            if np.ma.isMA(variable):
-                variable = variable.filled(0)  # eventually should use Variable fill value
+        variable = variable[:] if slices is None else variable[slices]
+        if np.ma.isMA(variable):
+            variable = variable.filled(0)  # eventually should use Variable fill value
 
         # idx_y = np.digitize(points_y, y) - 1
         # idx_x = np.digitize(points_x, x) - 1
-- 
2.43.0


From 0b94c1c309c46ea51bfc21449488e153deb38da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 038/106] fix: points without a depth are at the surface of a
 Variable with depth levels

---
 gridded/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index 8d17e1d..7adaf5f 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -735,6 +735,9 @@ class Variable:
         """
         surface_boundary_condition = kwargs.pop("surface_boundary_condition", self.surface_boundary_condition)
         bottom_boundary_condition = kwargs.pop("bottom_boundary_condition", self.bottom_boundary_condition)
+        if points.shape[1] == 2:
+            # no depth given: at the surface
+            points = np.column_stack((points, np.zeros(len(points))))
         order = self.dimension_ordering
         dim_idx = order.index("depth")
         if order[dim_idx + 1] != "time":
-- 
2.43.0


From 3f1cc61308a63cdc58d5bd20406267b39e87a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:30 +0000
Subject: [PATCH 039/106] fix: every point of a query gets its own vertical
 interpolation for data on the centers of a Grid_S

---
 gridded/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 7adaf5f..4416b1d 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -677,7 +677,9 @@ class Variable:
             slices=slices,
             _memo=True,
         )
-        return value
+        # one value per point: data on cell centers comes back as a column, which
+        # would not line up with the depth alphas of the points.
+        return value.reshape(-1)
 
     def _time_interp(self, points, time, extrapolate, slices=(), **kwargs):
         """
-- 
2.43.0


From c74c10f3fe56775ab04638023e65a8f79802b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 040/106] fix: sigma depths work on grids whose interpolation
 gives plain arrays

---
 gridded/depth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 200619c..f49f527 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -707,8 +707,9 @@ class S_Depth(DepthBase):
 
         # depth_profile mask is True where the point is outside the grid horizontally
         # so it must be reapplied
-        indices = np.ma.array(indices, mask=depth_profiles.mask[:, 0].copy())
-        alphas.mask = depth_profiles.mask[:, 0].copy()
+        off_grid = np.ma.getmaskarray(depth_profiles)[:, 0]
+        indices = np.ma.array(indices, mask=off_grid.copy())
+        alphas.mask = off_grid.copy()
         indices, alphas, oob_mask = self._apply_boundary_conditions(
             indices, alphas, surface_index, bottom_index, surface_boundary_condition, bottom_boundary_condition
         )
-- 
2.43.0


From 61de931c314a9d90fd777f063ac8403cbd6b2d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:35 +0000
Subject: [PATCH 041/106] fix: UGrid.save keeps the names the variables have in
 the Dataset

---
 gridded/pyugrid/ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index a7e05f5..e8fa8df 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1207,7 +1207,7 @@ class UGrid:
             print("var data is:", var.data)
             print("var data shape is:", var.data.shape)
             data_var = nclocal.createVariable(
-                var.name,
+                name,
                 var.data.dtype,
                 shape,
                 chunksizes=chunksizes,
-- 
2.43.0


From 219b299ed42e2ea0dff4b57a23bf2a4d64daf030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 042/106] fix: Dataset.save writes the global attributes

---
 gridded/gridded.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a7735a1..a74b872 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -219,6 +219,7 @@ class Dataset:
 
         # Save the grid and variables
         self.grid.save(ncds, format="netcdf4", variables=self.variables)
+        ncds.setncatts(self.attributes)
 
         ncds.close()
 
-- 
2.43.0


From 0056d24dbfe7672e4c201eb298bc500a914d9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:00 +0000
Subject: [PATCH 043/106] fix: the face and edge dimensions declared by a mesh
 tell how its connectivity is stored

---
 gridded/pyugrid/read_netcdf.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 3c143f9..3f31029 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -219,10 +219,15 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
                 continue
             array = var[:, :]
             # Fortran order, instead of C order, transpose the array
+            # the dimension declared by the mesh decides, if there is one. Otherwise
             # a square array (3 faces, 2 edges, ..) is taken to be in C order: the UGRID default
-            if array.shape[0] == defs["num_ind"] and array.shape[1] != defs["num_ind"]:
-                in_order = getattr(mesh_var, "face_dimension", None) == var.dimensions[0]
-                array = array if in_order else array.T
+            location = "edge" if defs["grid_attr"] == "edges" else "face"
+            dimension = getattr(mesh_var, f"{location}_dimension", None)
+            if defs["grid_attr"] != "boundaries" and dimension in var.dimensions:
+                transpose = var.dimensions[0] != dimension
+            else:
+                transpose = array.shape[0] == defs["num_ind"] and array.shape[1] != defs["num_ind"]
+            array = array.T if transpose else array
             try:
                 start_index = int(var.start_index)
             except AttributeError:
-- 
2.43.0


From 447a6c44d1a72c592d8a4e391a0ad2ee30ed13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 044/106] fix: a grid_topology may name variables with capitals
 and composite nodes

---
 gridded/grids.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 4f40229..b53b5eb 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -50,7 +50,7 @@ class GridBase:
         create a valid instance.
         """
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = {**{k.lower(): v for k, v in gf_vars.items()}, **gf_vars}
         init_args = {}
         gt = {}
         init_args["filename"] = filename
@@ -80,7 +80,7 @@ class GridBase:
                 if n in node_attrs:
                     init_args[n] = gf_vars[v][:]
                 if n in composite_node_names:
-                    v = gf_vars[n][:].reshape(-1, 2)
+                    v = gf_vars[v][:].reshape(-1, 2)
                     init_args[node_attrs[0]] = v[:, 0]
                     init_args[node_attrs[1]] = v[:, 1]
             gt = grid_topology
@@ -116,7 +116,7 @@ class Grid_U(GridBase, UGrid):
     def _find_required_grid_attrs(cls, filename, dataset=None, grid_topology=None):
 
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = {**{k.lower(): v for k, v in gf_vars.items()}, **gf_vars}
         # Get superset attributes
         init_args, gt = super()._find_required_grid_attrs(
             filename=filename, dataset=dataset, grid_topology=grid_topology
@@ -170,7 +170,7 @@ class Grid_S(GridBase, SGrid):
         # Get superset attributes
         # get_datset is not defined -- this must not be used
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = {**{k.lower(): v for k, v in gf_vars.items()}, **gf_vars}
         init_args, gt = super()._find_required_grid_attrs(filename, dataset=dataset, grid_topology=grid_topology)
 
         # These are the attributes to search for, the keys in a grid_topology
@@ -276,7 +276,7 @@ class Grid_R(GridBase):
         # are dealt with
         # Get superset attributes
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = {**{k.lower(): v for k, v in gf_vars.items()}, **gf_vars}
         init_args, gt = super()._find_required_grid_attrs(filename, dataset=dataset, grid_topology=grid_topology)
 
         # Grid_R only needs node_lon and node_lat.
-- 
2.43.0


From ce583841fa364cea8a3cdb5ed60183604a50d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:34 +0000
Subject: [PATCH 045/106] fix: UGrid.save keeps the values of packed variables
 and those with a fill value

---
 gridded/pyugrid/ugrid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index e8fa8df..51e323f 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1206,16 +1206,18 @@ class UGrid:
             print("name is:", var.name)
             print("var data is:", var.data)
             print("var data shape is:", var.data.shape)
+            # the fill value can only be set when the variable is created
+            fill_value = var.attributes.get("_FillValue")
             data_var = nclocal.createVariable(
                 name,
                 var.data.dtype,
                 shape,
                 chunksizes=chunksizes,
+                fill_value=fill_value,
                 # zlib=False,
                 # complevel=0,
             )
             print("new dat var shape:", shape)
-            data_var[:] = var.data[:]
             # Add the standard attributes:
             data_var.location = var.location
             data_var.mesh = mesh_name
@@ -1223,4 +1225,7 @@ class UGrid:
                 data_var.coordinates = coordinates
             # Add the extra attributes.
             for att_name, att_value in var.attributes.items():
-                setattr(data_var, att_name, att_value)
+                if att_name != "_FillValue":
+                    setattr(data_var, att_name, att_value)
+            # after the attributes: they may say how the data are packed
+            data_var[:] = var.data[:]
-- 
2.43.0


From df2b72f33ce166c9bcbbe9469456d4cc851fbb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:40 +0000
Subject: [PATCH 046/106] fix: UGrid.save writes the units of the variables

---
 gridded/pyugrid/ugrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 51e323f..ad82b00 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1227,5 +1227,7 @@ class UGrid:
             for att_name, att_value in var.attributes.items():
                 if att_name != "_FillValue":
                     setattr(data_var, att_name, att_value)
+            if var.units is not None:
+                data_var.units = var.units
             # after the attributes: they may say how the data are packed
             data_var[:] = var.data[:]
-- 
2.43.0


From 489b72e6f8bd9ba43adbc8fc5dfa10d4eb033fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 047/106] fix: Dataset.get_variables_by_attribute works with
 array attributes

---
 gridded/gridded.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a74b872..0d592c8 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -10,6 +10,8 @@ The core class that encapsulates the gridded data model
 
 import warnings
 
+import numpy as np
+
 from gridded.grids import Grid
 from gridded.utilities import (
     get_dataset,
@@ -236,7 +238,8 @@ class Dataset:
         variables = []
         for var in self.variables.values():
             try:
-                if var.attributes[attr] == value:
+                # attributes may be arrays, too
+                if np.array_equal(var.attributes[attr], value):
                     variables.append(var)
             except KeyError:
                 pass
-- 
2.43.0


From f9a5539736ff67a636b2ea8fbb6eac9477da3706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 048/106] fix: save_verdat works for depths without units

---
 gridded/io/verdat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index b9c5f8d..379c91a 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -19,6 +19,8 @@ FEET = ("foot", "ft", "feet")
 METER = ("meter", "m", "meters", "metre")
 UNITS_MAP = {u: "FEET" for u in FEET}
 UNITS_MAP.update({u: "METERS" for u in METER})
+# a file may not say
+UNITS_MAP[""] = ""
 
 
 def load_verdat(filename):
@@ -106,7 +108,7 @@ def save_verdat(ds, filename, depth_var="depth"):
         depth_units = ""
     else:
         depth = ds[depth_var]
-        depth_units = UNITS_MAP[depth.units.strip().lower()]
+        depth_units = UNITS_MAP[(depth.units or "").strip().lower()]
     f_string = "{0:4d}, {1:10.6f}, {2:10.6f}, {3:8.3f}\n"
 
     with open(filename, "w") as outfile:
-- 
2.43.0


From 78b59ed69f8c80b9600586823953d28c6abb7944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:36 +0000
Subject: [PATCH 049/106] fix: SGrid files need no vertical dimensions and no
 face dimensions

---
 gridded/pysgrid/sgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index c47cc3d..9db2711 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -253,7 +253,7 @@ class SGrid:
         return msg
 
     def get_all_face_padding(self):
-        if self.face_padding is not None:
+        if self._face_padding is not None:
             all_face_padding = self._face_padding
         else:
             all_face_padding = []
@@ -269,7 +269,7 @@ class SGrid:
 
     def all_padding(self):
         all_padding = self.get_all_face_padding() + self.get_all_edge_padding()
-        if self.vertical_padding is not None:
+        if self._vertical_padding is not None:
             all_padding += self._vertical_padding
         return all_padding
 
-- 
2.43.0


From 6c6161ce4dc729f60173d2cc2fab395ea0caa374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:42 +0000
Subject: [PATCH 050/106] fix: SGrid files without coordinates of the cell
 centers can be loaded and saved

---
 gridded/pysgrid/sgrid.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 9db2711..4b69e7e 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -418,13 +418,21 @@ class SGrid:
             dim_name, dim_size = grid_dim
             nc_file.createDimension(dim_name, dim_size)
         # Create variables.
-        center_lon, center_lat = self.face_coordinates
-        center_lon_obj = getattr(self, center_lon)
-        center_lat_obj = getattr(self, center_lat)
-        center_lon = nc_file.createVariable(center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions)
-        center_lat = nc_file.createVariable(center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions)
-        center_lon[:] = self.center_lon[:]
-        center_lat[:] = self.center_lat[:]
+        try:
+            center_lon, center_lat = self.face_coordinates
+        except TypeError:
+            pass
+        else:
+            center_lon_obj = getattr(self, center_lon)
+            center_lat_obj = getattr(self, center_lat)
+            center_lon = nc_file.createVariable(
+                center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions
+            )
+            center_lat = nc_file.createVariable(
+                center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions
+            )
+            center_lon[:] = self.center_lon[:]
+            center_lat[:] = self.center_lat[:]
         try:
             node_lon, node_lat = self.node_coordinates
         except TypeError:
@@ -1442,6 +1450,8 @@ class SGridAttributes:
         if not angles:
             # FIXME: Get rid of pair_arrays.
             center_lon, center_lat = self.get_cell_center_lat_lon()
+            if center_lon is None:
+                return None
             cell_centers = pair_arrays(center_lon, center_lat)
             centers_start = cell_centers[..., :-1, :]
             centers_end = cell_centers[..., 1:, :]
-- 
2.43.0


From 6a47ddf723086fc85009059dffa68f8ffd9db8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:48 +0000
Subject: [PATCH 051/106] fix: saving an SGrid writes the coordinates of the
 edges, the masks and the locations of the variables

---
 gridded/pysgrid/sgrid.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 4b69e7e..5d209e0 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -9,7 +9,7 @@ import warnings
 from collections import OrderedDict
 
 import numpy as np
-from netCDF4 import Dataset
+from netCDF4 import Dataset, Variable
 
 from gridded.pysgrid.read_netcdf import NetCDFDataset, find_grid_topology_var, parse_padding
 from gridded.pysgrid.utils import GridPadding, calculate_angle_from_true_east, pair_arrays
@@ -491,6 +491,21 @@ class SGrid:
                     axes.append(z_axis)
                 if axes:
                     dataset_grid_var.axes = " ".join(axes)
+                if hasattr(dataset_var_obj.data, "location"):
+                    dataset_grid_var.location = dataset_var_obj.data.location
+        # the coordinates of the edges and the masks are part of the grid
+        for names, arrays in (
+            (self.edge1_coordinates, (self.edge1_lon, self.edge1_lat)),
+            (self.edge2_coordinates, (self.edge2_lon, self.edge2_lat)),
+        ):
+            if names is not None:
+                for name, array in zip(names, arrays):
+                    nc_file.variables[name][:] = array[:]
+        for mask in (self.node_mask, self.center_mask, self.edge1_mask, self.edge2_mask):
+            if isinstance(mask, Variable):
+                mask_var = nc_file.variables[mask.name]
+                mask_var.setncatts({k: mask.getncattr(k) for k in mask.ncattrs() if k != "_FillValue"})
+                mask_var[:] = mask[:]
         return grid_vars
 
     def _get_geo_mask(self, name):
-- 
2.43.0


From c0057b32025f3d08d6c45aa6dcc724635aac9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:53 +0000
Subject: [PATCH 052/106] fix: the padding of an SGrid's faces is that of the
 axes of its arrays

---
 gridded/pysgrid/sgrid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 5d209e0..0e8a693 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -316,7 +316,13 @@ class SGrid:
     def face_padding(self):
         if hasattr(self, "_face_padding") and self._face_padding:
             if isinstance(self._face_padding[0], GridPadding):
-                return (self._face_padding[0].padding, self._face_padding[1].padding)
+                paddings = self._face_padding[:2]
+                if self.face_coordinates is not None:
+                    # in the order of the axes of the arrays: the file may list the dimensions in any order
+                    dims = getattr(self, self.face_coordinates[0]).dimensions
+                    if all(p.face_dim in dims for p in paddings):
+                        paddings = sorted(paddings, key=lambda p: dims.index(p.face_dim))
+                return tuple(p.padding for p in paddings)
             else:
                 return self._face_padding
         elif hasattr(self, "center_lon") and self.center_lon is not None:
-- 
2.43.0


From 027ab827ef408134ca30bd3da2a9db8778b3bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 053/106] fix: axes of an SGrid variable may have digits in
 their names

---
 gridded/pysgrid/read_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index 03d5869..95d253d 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -86,7 +86,7 @@ def parse_padding(padding_str, mesh_topology_var):
 
 
 def parse_axes(axes_attr):
-    p = re.compile("([a-zA-Z]: [a-zA-Z_]+)")
+    p = re.compile("([a-zA-Z]: [a-zA-Z0-9_]+)")
     matches = p.findall(axes_attr)
     x_axis = None
     y_axis = None
-- 
2.43.0


From c85067dfd31f265ccab90abeaefac3ffcceeeec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:58 +0000
Subject: [PATCH 054/106] fix: a mask on an SGrid's own dimensions is preferred
 to one elsewhere of the same shape

---
 gridded/pysgrid/sgrid.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 0e8a693..653cf52 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1529,16 +1529,25 @@ class SGridAttributes:
             for var in self.nc.variables.values()
             if "mask" in var.name or (hasattr(var, "long_name") and "mask" in var.long_name)
         ]
-        node_mask = center_mask = edge1_mask = edge2_mask = None
-        for mc in mask_candidates:
-            if node_shape and self.nc.variables[mc].shape == node_shape and node_mask is None:
-                node_mask = self.nc.variables[mc]  # do not [:] mask variables. They contain important metadata
-            if center_shape and self.nc.variables[mc].shape == center_shape and center_mask is None:
-                center_mask = self.nc.variables[mc]
-            if edge1_shape and self.nc.variables[mc].shape == edge1_shape and edge1_mask is None:
-                edge1_mask = self.nc.variables[mc]
-            if edge2_shape and self.nc.variables[mc].shape == edge2_shape and edge2_mask is None:
-                edge2_mask = self.nc.variables[mc]
+        node_coords = self.get_node_coordinates()[1]
+        center_coords, edge1_coords, edge2_coords = (
+            self.get_attr_coordinates(name + "_coordinates") for name in ("face", "edge1", "edge2")
+        )
+
+        def find_mask(coordinates, shape):
+            if shape is None:
+                return None
+            candidates = [self.nc.variables[mc] for mc in mask_candidates]
+            candidates = [var for var in candidates if var.shape == shape]
+            # a mask on the dimensions of the coordinates, rather than just one of the same shape
+            dims = self.nc.variables[coordinates[0]].dimensions
+            candidates.sort(key=lambda var: var.dimensions != dims)
+            return candidates[0] if candidates else None  # do not [:] mask variables. They contain important metadata
+
+        node_mask = find_mask(node_coords, node_shape)
+        center_mask = find_mask(center_coords, center_shape)
+        edge1_mask = find_mask(edge1_coords, edge1_shape)
+        edge2_mask = find_mask(edge2_coords, edge2_shape)
 
         return node_mask, center_mask, edge1_mask, edge2_mask
 
-- 
2.43.0


From fec686618b88d5479d98f5844654342f394548da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:03 +0000
Subject: [PATCH 055/106] fix: indexing an SGridVariable gives the values at
 the index, whatever was done to earlier results

---
 gridded/pysgrid/variables.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 202793e..d53977b 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -170,6 +170,10 @@ class SGridVariable:
 
         if not hasattr(self, "_cache"):
             self._cache = OrderedDict()
+        items = item if isinstance(item, tuple) else (item,)
+        if not all(isinstance(i, (slice, int, type(Ellipsis))) for i in items):
+            # the text of an array need not show all of it
+            return self._data.__getitem__(item)
         rv = None
         if str(item) in self._cache:
             rv = self._cache[str(item)]
@@ -178,7 +182,7 @@ class SGridVariable:
             self._cache[str(item)] = rv
             if len(self._cache) > 3:
                 self._cache.popitem(last=False)
-        return rv
+        return rv.copy()
 
     def __str__(self):
         return f"SGridVariable object: {self.standard_name:s}, on the {self.location:s}s"
-- 
2.43.0


From d3cceeea9071a45e79c60dece1dd9dceee7e3abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:19 +0000
Subject: [PATCH 056/106] fix: saving an SGrid with packed coordinates keeps
 their values

---
 gridded/pysgrid/sgrid.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 653cf52..732e392 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -432,10 +432,10 @@ class SGrid:
             center_lon_obj = getattr(self, center_lon)
             center_lat_obj = getattr(self, center_lat)
             center_lon = nc_file.createVariable(
-                center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions
+                center_lon_obj.variable, self.center_lon.dtype, center_lon_obj.dimensions
             )
             center_lat = nc_file.createVariable(
-                center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions
+                center_lat_obj.variable, self.center_lat.dtype, center_lat_obj.dimensions
             )
             center_lon[:] = self.center_lon[:]
             center_lat[:] = self.center_lat[:]
@@ -445,9 +445,9 @@ class SGrid:
             pass
         else:
             node_lon_obj = getattr(self, node_lon)
-            grid_node_lon = nc_file.createVariable(node_lon_obj.variable, node_lon_obj.dtype, node_lon_obj.dimensions)
+            grid_node_lon = nc_file.createVariable(node_lon_obj.variable, self.node_lon.dtype, node_lon_obj.dimensions)
             node_lat_obj = getattr(self, node_lat)
-            grid_node_lat = nc_file.createVariable(node_lat_obj.variable, node_lat_obj.dtype, node_lat_obj.dimensions)
+            grid_node_lat = nc_file.createVariable(node_lat_obj.variable, self.node_lat.dtype, node_lat_obj.dimensions)
             grid_node_lon[:] = self.node_lon[:]
             grid_node_lat[:] = self.node_lat[:]
         grid_var_obj = getattr(self, grid_var)
@@ -470,11 +470,20 @@ class SGrid:
             grid_angle = nc_file.createVariable(angle_obj.variable, angle_obj.dtype, angle_obj.dimensions)
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
+        edge_coords = {}
+        for names, arrays in (
+            (self.edge1_coordinates, (self.edge1_lon, self.edge1_lat)),
+            (self.edge2_coordinates, (self.edge2_lon, self.edge2_lat)),
+        ):
+            if names is not None:
+                edge_coords.update(zip(names, arrays))
         for dataset_variable in self.variables:
             dataset_var_obj = getattr(self, dataset_variable)
+            # packed coordinates are saved unpacked
+            dtype = getattr(edge_coords.get(dataset_variable), "dtype", dataset_var_obj.dtype)
             try:
                 dataset_grid_var = nc_file.createVariable(
-                    dataset_var_obj.variable, dataset_var_obj.dtype, dataset_var_obj.dimensions
+                    dataset_var_obj.variable, dtype, dataset_var_obj.dimensions
                 )
             except RuntimeError:
                 continue
@@ -500,13 +509,8 @@ class SGrid:
                 if hasattr(dataset_var_obj.data, "location"):
                     dataset_grid_var.location = dataset_var_obj.data.location
         # the coordinates of the edges and the masks are part of the grid
-        for names, arrays in (
-            (self.edge1_coordinates, (self.edge1_lon, self.edge1_lat)),
-            (self.edge2_coordinates, (self.edge2_lon, self.edge2_lat)),
-        ):
-            if names is not None:
-                for name, array in zip(names, arrays):
-                    nc_file.variables[name][:] = array[:]
+        for name, array in edge_coords.items():
+            nc_file.variables[name][:] = array[:]
         for mask in (self.node_mask, self.center_mask, self.edge1_mask, self.edge2_mask):
             if isinstance(mask, Variable):
                 mask_var = nc_file.variables[mask.name]
-- 
2.43.0


From 066278646edcd4d4edf49e9b0d607f3dc6d96292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:54 +0000
Subject: [PATCH 057/106] fix: the topology of a grid found by conventional
 names holds the names the variables have

---
 gridded/grids.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index b53b5eb..18f4842 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -62,8 +62,8 @@ class GridBase:
                 if n1 in gf_vars and n2 in gf_vars:
                     init_args[node_attrs[0]] = gf_vars[n1][:]
                     init_args[node_attrs[1]] = gf_vars[n2][:]
-                    gt[node_attrs[0]] = n1
-                    gt[node_attrs[1]] = n2
+                    gt[node_attrs[0]] = gf_vars[n1].name
+                    gt[node_attrs[1]] = gf_vars[n2].name
                     break
             if node_attrs[0] not in init_args:
                 for n in composite_node_names:
@@ -71,7 +71,7 @@ class GridBase:
                         v = gf_vars[n][:].reshape(-1, 2)
                         init_args[node_attrs[0]] = v[:, 0]
                         init_args[node_attrs[1]] = v[:, 1]
-                        gt["node_coordinates"] = n
+                        gt["node_coordinates"] = gf_vars[n].name
                         break
             if node_attrs[0] not in init_args:
                 raise ValueError("Unable to find node coordinates.")
@@ -128,7 +128,7 @@ class Grid_U(GridBase, UGrid):
             for n in face_var_names:
                 if n in gf_vars:
                     init_args[face_attrs[0]] = gf_vars[n][:]
-                    gt[face_attrs[0]] = n
+                    gt[face_attrs[0]] = gf_vars[n].name
                     break
             if face_attrs[0] not in init_args:
                 raise ValueError("Unable to find face connectivity array.")
@@ -211,16 +211,16 @@ class Grid_S(GridBase, SGrid):
                         init_args[attr[1]] = a2
                         if maskname[0] in gf_vars:
                             init_args[maskattr] = gf_vars[maskname[0]]
-                            gt[maskattr] = maskname[0]
-                        gt[attr[0]] = n1
-                        gt[attr[1]] = n2
+                            gt[maskattr] = gf_vars[maskname[0]].name
+                        gt[attr[0]] = gf_vars[n1].name
+                        gt[attr[1]] = gf_vars[n2].name
                         break
             if "node_lon" in init_args and "node_lat" in init_args:
                 mask = False  # fixme -- is mask used??
                 for name in node_mask_names:
                     if name in gf_vars:
                         init_args[node_mask] = gf_vars[name]
-                gt[node_mask] = name
+                        gt[node_mask] = gf_vars[name].name
 
         else:
             for n, v in grid_topology.items():
-- 
2.43.0


From b605ea11ac08132f1c1f4568510e8cd8942b35ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:58 +0000
Subject: [PATCH 058/106] fix: Grid_R interpolates variables from files whose
 dimensions are not named as the coordinates

---
 gridded/grids.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 18f4842..38e7a5e 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -254,7 +254,8 @@ class Grid_R(GridBase):
         :param node_lon=None: vector of the node longitudes
         :param node_lat=None: vector of the node latitudes
         :param grid_topology=None: ``????``
-        :param node_dimensions=None: (should only be required for netcdf)
+        :param node_dimensions=None: names of the dimensions of node_lat and node_lon
+                                     (should only be required for netcdf)
         :param node_coordinates=None:  ``?????``
         """
         self.node_lon = node_lon
@@ -264,6 +265,8 @@ class Grid_R(GridBase):
             self.dimensions = [grid_topology["node_lat"], grid_topology["node_lon"]]
         else:
             self.dimensions = ["lat", "lon"]
+        if node_dimensions is not None:
+            self.dimensions = list(node_dimensions)
         self.node_dimensions = node_dimensions
         self.node_coordinates = node_coordinates
 
@@ -287,6 +290,9 @@ class Grid_R(GridBase):
             raise ValueError(f"Too many dimensions in node_lon. Must be 1D, was {len(node_lon.shape)}D")
         if len(node_lat.shape) != 1:
             raise ValueError(f"Too many dimensions in node_lat. Must be 1D, was {len(node_lat.shape)}D")
+        if "node_lat" in gt and "node_lon" in gt:
+            # they need not be named as the coordinates are
+            init_args["node_dimensions"] = [gf_vars[gt[n]].dimensions[0] for n in ("node_lat", "node_lon")]
         return init_args, gt
 
     @property
-- 
2.43.0


From 51e849810af4a839bccc70631e71a847f97d7d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:04 +0000
Subject: [PATCH 059/106] fix: variables of fewer than two dimensions have no
 location on a Grid_R

---
 gridded/grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/grids.py b/gridded/grids.py
index 38e7a5e..b3a0a74 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -459,6 +459,8 @@ class Grid_R(GridBase):
         if hasattr(variable, "location"):
             return variable.location
 
+        if len(variable.shape) < 2:
+            return None
         x_len = len(self.node_lon)
         y_len = len(self.node_lat)
         node_shape = np.array((y_len, x_len))
-- 
2.43.0


From 3de090680fa61668435e4946d45cfe047e4a7fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:09 +0000
Subject: [PATCH 060/106] fix: Grid_R infers the location of variables stored
 with longitude first

---
 gridded/grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/grids.py b/gridded/grids.py
index b3a0a74..8ccba68 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -464,6 +464,8 @@ class Grid_R(GridBase):
         x_len = len(self.node_lon)
         y_len = len(self.node_lat)
         node_shape = np.array((y_len, x_len))
+        if list(getattr(variable, "dimensions", ()))[-2:] == self.dimensions[::-1]:
+            node_shape = node_shape[::-1]  # stored [lon, lat]
         var_shape = np.array(variable.shape[-2:])
         difference = (var_shape - node_shape).tolist()
         if (difference == [1, 1] or difference == [-1, -1]) and self.center_lon is not None:
-- 
2.43.0


From f212438922278f0b9a1756af7a09303baf80339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:02 +0000
Subject: [PATCH 061/106] fix: the variables of a file do not replace an
 SGrid's own attributes of the same name

---
 gridded/pysgrid/sgrid.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 732e392..c653fa6 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -104,6 +104,8 @@ class SGrid:
         is used as the 'masked_behavior' parameter in compute_interpolant if not provided directly.
         """
 
+        # the variables of the file the grid was loaded from, by name
+        self._file_variables = {}
         self.node_lon = node_lon
         self.node_lat = node_lat
         self.node_mask = node_mask
@@ -317,9 +319,9 @@ class SGrid:
         if hasattr(self, "_face_padding") and self._face_padding:
             if isinstance(self._face_padding[0], GridPadding):
                 paddings = self._face_padding[:2]
-                if self.face_coordinates is not None:
+                if self.face_coordinates is not None and self.face_coordinates[0] in self._file_variables:
                     # in the order of the axes of the arrays: the file may list the dimensions in any order
-                    dims = getattr(self, self.face_coordinates[0]).dimensions
+                    dims = self._file_variables[self.face_coordinates[0]].dimensions
                     if all(p.face_dim in dims for p in paddings):
                         paddings = sorted(paddings, key=lambda p: dims.index(p.face_dim))
                 return tuple(p.padding for p in paddings)
@@ -429,8 +431,8 @@ class SGrid:
         except TypeError:
             pass
         else:
-            center_lon_obj = getattr(self, center_lon)
-            center_lat_obj = getattr(self, center_lat)
+            center_lon_obj = self._file_variables[center_lon]
+            center_lat_obj = self._file_variables[center_lat]
             center_lon = nc_file.createVariable(
                 center_lon_obj.variable, self.center_lon.dtype, center_lon_obj.dimensions
             )
@@ -444,13 +446,13 @@ class SGrid:
         except TypeError:
             pass
         else:
-            node_lon_obj = getattr(self, node_lon)
+            node_lon_obj = self._file_variables[node_lon]
             grid_node_lon = nc_file.createVariable(node_lon_obj.variable, self.node_lon.dtype, node_lon_obj.dimensions)
-            node_lat_obj = getattr(self, node_lat)
+            node_lat_obj = self._file_variables[node_lat]
             grid_node_lat = nc_file.createVariable(node_lat_obj.variable, self.node_lat.dtype, node_lat_obj.dimensions)
             grid_node_lon[:] = self.node_lon[:]
             grid_node_lat[:] = self.node_lat[:]
-        grid_var_obj = getattr(self, grid_var)
+        grid_var_obj = self._file_variables[grid_var]
         grid_vars = nc_file.createVariable(grid_var_obj.variable, grid_var_obj.dtype)
         grid_vars.cf_role = "grid_topology"
         grid_vars.topology_dimension = self.topology_dimension
@@ -465,8 +467,8 @@ class SGrid:
             grid_vars.edge1_coordinates = " ".join(self.edge1_coordinates)
         if self.edge2_coordinates is not None:
             grid_vars.edge2_coordinates = " ".join(self.edge2_coordinates)
-        if hasattr(self, "angle"):
-            angle_obj = getattr(self, "angle", None)
+        if "angle" in self._file_variables:
+            angle_obj = self._file_variables["angle"]
             grid_angle = nc_file.createVariable(angle_obj.variable, angle_obj.dtype, angle_obj.dimensions)
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
@@ -478,7 +480,7 @@ class SGrid:
             if names is not None:
                 edge_coords.update(zip(names, arrays))
         for dataset_variable in self.variables:
-            dataset_var_obj = getattr(self, dataset_variable)
+            dataset_var_obj = self._file_variables[dataset_variable]
             # packed coordinates are saved unpacked
             dtype = getattr(edge_coords.get(dataset_variable), "dtype", dataset_var_obj.dtype)
             try:
@@ -1463,7 +1465,10 @@ class SGridAttributes:
         for nc_variable in nc_variables:
             nc_var = nc_variables[nc_variable]
             sgrid_var = SGridVariable.create_variable(nc_var, sgrid)
-            setattr(sgrid, sgrid_var.variable, sgrid_var)
+            sgrid._file_variables[nc_variable] = sgrid_var
+            if not hasattr(type(sgrid), nc_variable) and nc_variable not in vars(sgrid):
+                # a variable does not replace what the grid has under this name
+                setattr(sgrid, nc_variable, sgrid_var)
             dataset_variables.append(nc_var.name)
             if hasattr(nc_var, "grid"):
                 grid_variables.append(nc_var.name)
-- 
2.43.0


From 1b38d889155f0fb6be1fe38754b7622ff6d4c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:02 +0000
Subject: [PATCH 062/106] fix: Grid_R infers the location of variables whose
 location attribute is none

---
 gridded/grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 8ccba68..7d66cf8 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from gridded import VALID_LOCATIONS
 from gridded.pysgrid.sgrid import SGrid
 from gridded.pyugrid.ugrid import UGrid
 from gridded.utilities import get_dataset, parse_filename_dataset_args
@@ -456,7 +457,7 @@ class Grid_R(GridBase):
         But now we are checking variable dimensions to which part
         of the grid it is on.
         """
-        if hasattr(variable, "location"):
+        if getattr(variable, "location", None) in VALID_LOCATIONS - {None}:
             return variable.location
 
         if len(variable.shape) < 2:
-- 
2.43.0


From e22d3aed43d581ebd1c71cb352943ec4607a9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 063/106] fix: a dataset, data_file or grid_file takes
 precedence over filename, as documented

---
 gridded/pyugrid/ugrid.py | 6 +++---
 gridded/utilities.py     | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index ad82b00..77f3d9f 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -164,12 +164,12 @@ class UGrid:
                                Will be raised
         """
         grid = klass()
-        if filename is not None:
-            read_netcdf.load_grid_from_ncfilename(filename, grid, mesh_name)
-            return grid
         if dataset is not None:
             read_netcdf.load_grid_from_nc_dataset(dataset, grid, mesh_name)
             return grid
+        if filename is not None:
+            read_netcdf.load_grid_from_ncfilename(filename, grid, mesh_name)
+            return grid
 
     @classmethod
     def from_nc_dataset(klass, nc, mesh_name=None):  # , load_data=False):
diff --git a/gridded/utilities.py b/gridded/utilities.py
index ab5dafc..0fdde96 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -411,12 +411,14 @@ def parse_filename_dataset_args(
     """
     ds = None
     dg = None
-    if filename is not None:
+    if filename is not None and dataset is None:
+        # only a default: what is more specific takes precedence
         try:
             filename = os.fspath(filename)
         except TypeError:
             pass
-        data_file = grid_file = filename
+        data_file = filename if data_file is None else data_file
+        grid_file = filename if grid_file is None else grid_file
     if dataset is None:
         if grid_file == data_file:
             ds = dg = get_dataset(grid_file)
-- 
2.43.0


From cb5070e3d63f8b6a8f5f67b5d3971a91b1b31b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:55 +0000
Subject: [PATCH 064/106] fix: variables found by name take precedence over
 those that share a standard name

---
 gridded/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 0fdde96..16d5972 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -470,11 +470,12 @@ def search_netcdf_vars(cls=None, ds=None, dg=None):
     """
     vn_search = search_dataset_for_variables_by_varname(ds, cls.default_names)
     ds_search = search_dataset_for_variables_by_longname(ds, cls.cf_names)
-    found_vars = merge_var_search_dicts(ds_search, vn_search)
+    # several variables may share a standard name: the name of a variable is more specific
+    found_vars = merge_var_search_dicts(vn_search, ds_search)
     if ds != dg:
         dg_vn_search = search_dataset_for_variables_by_varname(dg, cls.default_names)
         dg_ln_search = search_dataset_for_variables_by_longname(dg, cls.cf_names)
-        dg_search = merge_var_search_dicts(dg_ln_search, dg_vn_search)
+        dg_search = merge_var_search_dicts(dg_vn_search, dg_ln_search)
         found_vars = merge_var_search_dicts(found_vars, dg_search)
     return found_vars
 
-- 
2.43.0


From 4037ea241ede2d0766332b446446aa89c21a100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:05 +0000
Subject: [PATCH 065/106] fix: L_Depth finds depth levels by their standard
 name

---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index f49f527..5165305 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -151,7 +151,7 @@ class DepthBase:
 class L_Depth(DepthBase):
     default_terms = [("depth_levels")]
     default_names = {"depth_levels": ["depth", "depth_levels", "Depth"]}
-    cf_names = {"depth_levels": "depth"}
+    cf_names = {"depth_levels": ["depth"]}
 
     def __init__(self, terms=None, **kwargs):
         super().__init__(**kwargs)
-- 
2.43.0


From 4f07917499f013d563c0c609fa360da37ff3e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:10 +0000
Subject: [PATCH 066/106] fix: VectorVariable takes the first of the default
 names that the file has, as Variable does

---
 gridded/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 4416b1d..d4f949f 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1104,7 +1104,7 @@ class VectorVariable:
             for n in v:
                 if n in df.variables.keys():
                     rd[k] = n
-                    continue
+                    break
             if k not in rd.keys():
                 rd[k] = None
         for k in cls.comp_order:
@@ -1120,6 +1120,8 @@ class VectorVariable:
                         ):
                             rd[k] = var.name
                             break
+                    if rd[k] is not None:
+                        break
         return collections.namedtuple("varnames", cls.comp_order)(**rd)
 
     def __str__(self):
-- 
2.43.0


From 784c817b10ba015596372729df50ed7fd9f59604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:18 +0000
Subject: [PATCH 067/106] fix: terms of sigma depths may be given as names of
 variables, and partially, as documented

---
 gridded/depth.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 5165305..77d400b 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -484,6 +484,12 @@ class S_Depth(DepthBase):
 
         # Do a comprehensive search for netCDF4 Variables all at once
         nc_vars = search_netcdf_vars(cls, ds, dg)
+        terms = {} if terms is None else dict(terms)
+        # terms given as the name of a variable
+        for term, tname in list(terms.items()):
+            if isinstance(tname, str):
+                nc_vars[term] = ds.variables[tname] if tname in ds.variables else dg.variables[tname]
+                del terms[term]
 
         if time is None:
             if zeta is None:
@@ -553,16 +559,14 @@ class S_Depth(DepthBase):
                     psi_z = (z[:,:,0:-1] + z[:,:,1:]) /2
                     zeta = Zeta(data=psi_z, grid=grid, time=time, name="zeta")
 
-        if terms is None:
-            terms = {}
-            for term, tvar in nc_vars.items():
-                if term in ["bathymetry", "zeta"]:
-                    # skip these because they're done separately...
-                    continue
-                if tvar is not None:
-                    terms[term] = tvar[:]
-                else:
-                    warnings.warn('term not found in netCDF dataset: ' + term)
+        for term, tvar in nc_vars.items():
+            if term in ["bathymetry", "zeta"] or term in terms:
+                # skip these because they're done separately...
+                continue
+            if tvar is not None:
+                terms[term] = tvar[:]
+            else:
+                warnings.warn('term not found in netCDF dataset: ' + term)
         if vtransform is None:
             vtransform = 2  # default for ROMS
             #  messing about trying to detect this.
-- 
2.43.0


From e022c083ed99032c96df559c9c0a91d50dbcc88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:20 +0000
Subject: [PATCH 068/106] fix: where the free surface of a sigma depth is does
 not depend on where its bathymetry is

---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 77d400b..1ecf0d7 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -550,7 +550,7 @@ class S_Depth(DepthBase):
                 warnings.warn(warn)
                 zeta = Zeta.constant(0)
             else:
-                if 'node' in grid.infer_location(bathy_var):
+                if 'node' in grid.infer_location(zeta_var):
                     zeta = Zeta(data=zeta_var, grid=grid, time=time, name="zeta")
                 else:
                     #zeta data is on cell centers, but needs to be averaged to the nodes in order
-- 
2.43.0


From 5f3fae6c5a8475a780a92c9fcce7dca698f36e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:37 +0000
Subject: [PATCH 069/106] fix: Variable and VectorVariable load from filename
 only what dataset, data_file and grid_file do not give, as documented

---
 gridded/variable.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index d4f949f..c233af7 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -222,8 +222,10 @@ class Variable:
         Time = cls._default_component_types["time"]
         Depth = cls._default_component_types["depth"]
         if filename is not None:
-            data_file = filename
-            grid_file = filename
+            # only a default: what is more specific takes precedence
+            data_file = filename if data_file is None else data_file
+            if grid_file is None and dataset is None:
+                grid_file = filename
 
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
@@ -986,8 +988,10 @@ class VectorVariable:
         Variable = cls._default_component_types["variable"]
         Depth = cls._default_component_types["depth"]
         if filename is not None:
-            data_file = filename
-            grid_file = filename
+            # only a default: what is more specific takes precedence
+            data_file = filename if data_file is None else data_file
+            if grid_file is None and dataset is None:
+                grid_file = filename
 
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
-- 
2.43.0


From 8ae93b9597fb317808118dd261ed1c583326d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:53 +0000
Subject: [PATCH 070/106] fix: a query for no points at all gives no values on
 every kind of grid

---
 gridded/pysgrid/sgrid.py | 3 ++-
 gridded/pyugrid/ugrid.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index c653fa6..57c3808 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -689,7 +689,8 @@ class SGrid:
         rev_arrs = None
         if self._cell_tree_mask is not None:
             rev_arrs = self._cell_tree_mask[1]
-        indices = tree.locate(points)
+        # the tree cannot be asked for no points at all
+        indices = tree.locate(points) if len(points) else np.zeros((0,), dtype=np.int32)
         if rev_arrs is not None:
             indices = rev_arrs[indices]
         lon, lat = self.node_lon, self.node_lat
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 77f3d9f..2c6c5b6 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -638,7 +638,8 @@ class UGrid:
                 )
             if self._cell_tree is None:
                 self.build_celltree()
-            indices = self._cell_tree.locate(points)
+            # the tree cannot be asked for no points at all
+            indices = self._cell_tree.locate(points) if len(points) else np.zeros((0,), dtype=IND_DT)
         elif method == "simple":
             indices = np.zeros((points.shape[0]), dtype=IND_DT)
             for n, point in enumerate(points):
-- 
2.43.0


From 71889b375a28ec9459344ffccdc6e87ded7c90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:58 +0000
Subject: [PATCH 071/106] fix: no points at all are not turned into as many
 points as they have coordinates

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 16d5972..51e0cca 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -255,7 +255,7 @@ def _reorganize_spatial_data(points):
         """
         if shp[0] > 3 and shp[1] > 3:
             raise ValueError("Too many coordinate dimensions in input array")
-        if shp[0] > shp[1]:
+        if shp[0] > shp[1] or shp[0] == 0:
             #'correct' shape
             return points_arr
         else:
-- 
2.43.0


From a02f744dc9ea3f72f804679f7721c5c06e1457d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:37 +0000
Subject: [PATCH 072/106] fix: SGrid interpolates to points given as lists, as
 the other grids do

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 57c3808..2c4ff60 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1145,7 +1145,7 @@ class SGrid:
 
         """
         # eventually should remove next line once celltree can support it
-        points = points.reshape(-1, 2)
+        points = np.asarray(points, dtype=np.float64).reshape(-1, 2)
 
         ind = indices
         if hash is None:
-- 
2.43.0


From 7bcc72534b69f3a0adde49e1df3cf3186b93935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:51 +0000
Subject: [PATCH 073/106] fix: masks with a single flag value are understood

---
 gridded/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 51e0cca..1a0db5e 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -39,7 +39,8 @@ def convert_mask_to_numpy_mask(mask_var):
         try:
             fv = fv.split()
         except AttributeError:
-            pass
+            # a single value is no sequence
+            fv = np.atleast_1d(fv)
         else:
             # flag_values arrived as a string, so its tokens are strings too.
             # Coerce them to the mask data's dtype so '0' compares equal to a
-- 
2.43.0


From 705c0a1a0ad812153c9f4a60530c91f268e58e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:58 +0000
Subject: [PATCH 074/106] fix: rivers of masks are water, as documented

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 1a0db5e..4291d28 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -53,7 +53,7 @@ def convert_mask_to_numpy_mask(mask_var):
         # CF Conventions 3.5 places no case requirement on flag_meanings, so
         # "Land Water" is valid metadata. Lowercase before the substring test
         # so capitalized words are recognized as water/lake.
-        meaning_mask = [False if ("water" in s.lower() or "lake" in s.lower()) else True for s in fm]
+        meaning_mask = [not any(w in s.lower() for w in ("water", "lake", "river")) for s in fm]
         tfmap = dict(zip(fv, meaning_mask))
         for k, v in tfmap.items():
             ret_mask[mask_data == k] = v
-- 
2.43.0


From 625249b0d340932c7c5d3eb0bd6879e4f573169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:35 +0000
Subject: [PATCH 075/106] fix: no point is in a cell of an SGrid whose cells
 are all masked

---
 gridded/pysgrid/sgrid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 2c4ff60..016b489 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -689,8 +689,11 @@ class SGrid:
         rev_arrs = None
         if self._cell_tree_mask is not None:
             rev_arrs = self._cell_tree_mask[1]
-        # the tree cannot be asked for no points at all
-        indices = tree.locate(points) if len(points) else np.zeros((0,), dtype=np.int32)
+        # the tree cannot be asked for no points at all, and there is none without cells
+        if tree is not None and len(points):
+            indices = tree.locate(points)
+        else:
+            indices = np.full((len(points),), -1, dtype=np.int32)
         if rev_arrs is not None:
             indices = rev_arrs[indices]
         lon, lat = self.node_lon, self.node_lat
@@ -950,7 +953,9 @@ class SGrid:
         else:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
-        self._cell_tree = (CellTree(lin_nodes, lin_faces), lin_nodes, lin_faces)
+        # all cells may be masked
+        tree = CellTree(lin_nodes, lin_faces) if len(lin_faces) else None
+        self._cell_tree = (tree, lin_nodes, lin_faces)
         # results found with the previous tree
         self._cell_ind_memo_dict.clear()
         self._log_ind_memo_dict.clear()
-- 
2.43.0


From 9387c3585ba5e687a5ee514e374559e78337656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:40 +0000
Subject: [PATCH 076/106] fix: data with depth but without time are
 interpolated in depth, not in time

---
 gridded/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index c233af7..9e9df06 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -529,7 +529,9 @@ class Variable:
             if diff == 0:
                 return order
             elif diff == 1:
-                if self.time is not None:
+                # the constant time of data without a time axis does not count
+                # when there is a depth axis of another length
+                if self.time is not None and (self.depth is None or len(self.time) == self.data.shape[0]):
                     del order[1]
                 elif self.depth is not None:
                     del order[0]
-- 
2.43.0


From b6fffb030f78bbc505ce53939790eed5d488fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 077/106] fix: times of several files are read with the
 reference time of each file

---
 gridded/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridded/time.py b/gridded/time.py
index 1422817..97b609a 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -253,6 +253,10 @@ class Time:
         if isinstance(varname, str):
             tvar = dataset.variables[varname]
 
+        if isinstance(dataset, nc4.MFDataset):
+            # the files may each have their own reference time
+            tvar = nc4.MFTime(tvar, calendar=getattr(tvar, "calendar", "standard"))
+
         offset_in_units = None
         # figure out the timezone_offset
         if isinstance(tz_offset, str) and tz_offset.lower() == "naive":
-- 
2.43.0


From 27434c79685ecb6da131e57a8a8070181f18cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 078/106] fix: a Dataset can be created from a list of files

---
 gridded/gridded.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index 0d592c8..d36db92 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -96,7 +96,10 @@ class Dataset:
             raise NotImplementedError("Loading from separate netcdf files is not yet supported")
 
         self.nc_dataset = get_dataset(filename)
-        self.filename = self.nc_dataset.filepath()
+        try:
+            self.filename = self.nc_dataset.filepath()
+        except RuntimeError:  # several files have no path of their own
+            self.filename = filename
         self.grid = Grid.from_netCDF(filename=self.filename,
                                      dataset=self.nc_dataset,
                                      grid_topology=grid_topology)
-- 
2.43.0


From b9c478507db2a2e8df919cb19fa20b1adc5e7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:00 +0000
Subject: [PATCH 079/106] fix: Dataset(ncfile, grid_topology=...) uses the
 given topology

---
 gridded/gridded.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index d36db92..e99d7d2 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -75,7 +75,7 @@ class Dataset:
         if ncfile is not None:
             if grid is not None or variables is not None or attributes is not None:
                 raise ValueError("You can create a Dataset from a file, or from raw databut not both.")
-            self._init_from_netCDF(ncfile)
+            self._init_from_netCDF(ncfile, grid_topology=grid_topology)
         else:  # Create from grid and variables -- this is what should usually happen.
             self.filename = None
             self.grid = grid
-- 
2.43.0


From 9153cb954d0d772fa170ef71dc108c569691446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:00 +0000
Subject: [PATCH 080/106] fix: times of several files are read with the units
 of each file, too

---
 gridded/time.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gridded/time.py b/gridded/time.py
index 97b609a..1ec1ef2 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -253,10 +253,6 @@ class Time:
         if isinstance(varname, str):
             tvar = dataset.variables[varname]
 
-        if isinstance(dataset, nc4.MFDataset):
-            # the files may each have their own reference time
-            tvar = nc4.MFTime(tvar, calendar=getattr(tvar, "calendar", "standard"))
-
         offset_in_units = None
         # figure out the timezone_offset
         if isinstance(tz_offset, str) and tz_offset.lower() == "naive":
@@ -275,7 +271,16 @@ class Time:
         if tz_offset_name is None:
             tz_offset_name = name
 
-        tdata = nc4.num2date(tvar[:], units=tvar.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+        # several files may each have their own units and reference time
+        parts = zip(tvar._recVar, tvar._recLen) if isinstance(dataset, nc4.MFDataset) else [(tvar, None)]
+        tdata = np.concatenate(
+            [
+                np.atleast_1d(
+                    nc4.num2date(v[:n], units=v.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+                )
+                for v, n in parts
+            ]
+        )
         if offset_in_units:
             # num2date() converts to UTC when it understands the offset in the units,
             # but the times are labeled with that offset, so they have to be expressed in it.
-- 
2.43.0


From 6d90dbbad917a85e65538781bb7fc8774fe42191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:05 +0000
Subject: [PATCH 081/106] fix: a Variable read from several files has the
 attributes of the netCDF variable

---
 gridded/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 9e9df06..a8b2889 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -126,7 +126,8 @@ class Variable:
         # if the data is a netcdf variable, pull the attributes from there
         try:
             for attr in self.data.ncattrs():
-                self.attributes[attr] = data.getncattr(attr)
+                # (the variables of several files have no getncattr)
+                self.attributes[attr] = getattr(data, attr)
         except AttributeError:  # must not be a netcdf variable
             pass  # so just use what was passed in.
         self.surface_boundary_condition = surface_boundary_condition
-- 
2.43.0


From 57d682527566e43315c86741bb69d112917cf740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:10 +0000
Subject: [PATCH 082/106] fix: Variable.from_netCDF(load_all=True) keeps the
 attributes

---
 gridded/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index a8b2889..4b25af1 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -280,6 +280,9 @@ class Variable:
             if hasattr(data, "location"):
                 location = data.location
         if load_all:
+            if kwargs.get("attributes") is None:
+                # the array has none
+                kwargs["attributes"] = {attr: getattr(data, attr) for attr in data.ncattrs()}
             data = data[:]
         return cls(
             name=name,
-- 
2.43.0


From 31f9c29b20d1130dfefe96f3d77f2f618f048709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:15 +0000
Subject: [PATCH 083/106] fix: VectorVariable.units of one letter repeated
 ("mm") is not shortened

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 4b25af1..cd75713 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1187,7 +1187,7 @@ class VectorVariable:
 
         :rtype: string
         """
-        if hasattr(self._units, "__iter__"):
+        if hasattr(self._units, "__iter__") and not isinstance(self._units, str):
             if len(set(self._units)) > 1:
                 return self._units
             else:
-- 
2.43.0


From 3e105c650799ec8e460574c5f08df27027a77420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:48 +0000
Subject: [PATCH 084/106] fix: data of a variable with a constant time axis can
 be replaced

---
 gridded/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index cd75713..1d07aa3 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -390,7 +390,8 @@ class Variable:
         self._memo_token = object()
         d = asarraylike(d)
         # Fixme: maybe all this checking should be done when it gets added to the Dataset??
-        if self.time is not None and len(d) != len(self.time):
+        # (a single time is constant: such data may have no time dimension)
+        if self.time is not None and len(d) != len(self.time) and len(self.time) > 1:
             raise ValueError("Data/time interval mismatch")
         ## fixme: we should check Depth, too.
         if self.grid is not None:  # if there is not a grid, we can't check this
-- 
2.43.0


From 61bc3edffdfda66cad2d1349a7212d5fe78de958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:23 +0000
Subject: [PATCH 085/106] fix: cached values are not reused after a grid or
 depth was edited

---
 gridded/variable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 1d07aa3..0f49884 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -448,7 +448,11 @@ class Variable:
         """
         # (Time.data is replaced by a new array whenever the axis is changed or shifted)
         parts = (self.grid, self.depth, None if self.time is None else self.time.data)
-        if any(new is not old for new, old in zip(parts, self._memo_parts)):
+        # ... and so are the attributes of a grid or depth that is edited
+        for obj in (self.grid, self.depth):
+            for part in getattr(obj, "__dict__", {}).values():
+                parts += (part._memo_state()[0] if isinstance(part, Variable) else part,)
+        if len(parts) != len(self._memo_parts) or any(new is not old for new, old in zip(parts, self._memo_parts)):
             self._memo_parts = parts
             self._memo_token = object()
         return (
-- 
2.43.0


From 441d4f3c3e03e85be5b94c2b3fa9f033420e1ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:26 +0000
Subject: [PATCH 086/106] fix: drop the face-edge connectivity when the edges
 that it numbers are replaced

---
 gridded/pyugrid/read_netcdf.py | 11 ++++++-----
 gridded/pyugrid/ugrid.py       |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 3f31029..f0e5d86 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -72,11 +72,6 @@ grid_defs = [
         "role": "face_face_connectivity",  # Name in mesh variable.
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
     },
-    {
-        "grid_attr": "face_edge_connectivity",  # Name in UGrid object.
-        "role": "face_edge_connectivity",  # Name in mesh variable.
-        "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
-    },
     {
         "grid_attr": "boundaries",  # Name in UGrid object.
         "role": "boundary_node_connectivity",  # Name in mesh var.
@@ -87,6 +82,12 @@ grid_defs = [
         "role": "edge_node_connectivity",  # Name in mesh variable.
         "num_ind": 2,  # Number of idx (3 for faces, 2 for segments).
     },
+    {
+        # After the edges that it numbers: setting the edges drops it.
+        "grid_attr": "face_edge_connectivity",  # Name in UGrid object.
+        "role": "face_edge_connectivity",  # Name in mesh variable.
+        "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
+    },
 ]
 # definitions for various coordinate arrays
 coord_defs = [
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 2c6c5b6..69091af 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -359,7 +359,8 @@ class UGrid:
             self._edges = np.asanyarray(edges_indexes, dtype=IND_DT)
         else:
             self._edges = None
-            self._face_edge_connectivity = None
+        # It numbers the edges: no longer valid.
+        self._face_edge_connectivity = None
 
     @edges.deleter
     def edges(self):
@@ -873,7 +874,7 @@ class UGrid:
                 if edge[0] > edge[1]:  # Flip them
                     edge = (edge[1], edge[0])
                 edges.add(edge)
-        self._edges = np.array(list(edges), dtype=IND_DT)
+        self.edges = np.array(list(edges), dtype=IND_DT)
 
     def build_boundaries(self):
         """
-- 
2.43.0


From 210079f555dd36589cd4ce08f55c5efabf8301d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:43 +0000
Subject: [PATCH 087/106] fix: faces are optional when a mesh is loaded by a
 mapping of names

---
 gridded/pyugrid/grid_io/utils.py | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/gridded/pyugrid/grid_io/utils.py b/gridded/pyugrid/grid_io/utils.py
index 9f6b863..5f05870 100644
--- a/gridded/pyugrid/grid_io/utils.py
+++ b/gridded/pyugrid/grid_io/utils.py
@@ -61,24 +61,24 @@ def load_from_varnames(filename, names_mapping, attribute_check=None, post_proce
     ug.nodes[:, 0] = lon[:]
     ug.nodes[:, 1] = lat[:]
 
-    # Faces.
-    faces = nc.variables[names_mapping["faces"]]
-    # FIXME: This logic assumes there are more than three triangles.
-    if faces.shape[0] <= faces.shape[1]:
-        # Fortran order.
-        faces = faces[:].T
-    else:
-        faces = faces[:]
-
-    # One-indexed?
-    if faces.min() == 1:
-        one_indexed = True
-    else:
-        one_indexed = False
-
-    if one_indexed:
-        faces -= 1
-    ug.faces = faces
+    # Faces (optional).
+    one_indexed = False
+    if "faces" in names_mapping:
+        faces = nc.variables[names_mapping["faces"]]
+        # FIXME: This logic assumes there are more than three triangles.
+        if faces.shape[0] <= faces.shape[1]:
+            # Fortran order.
+            faces = faces[:].T
+        else:
+            faces = faces[:]
+
+        # One-indexed?
+        if faces.min() == 1:
+            one_indexed = True
+
+        if one_indexed:
+            faces -= 1
+        ug.faces = faces
 
     # Connectivity (optional).
     if "face_face_connectivity" in names_mapping:
-- 
2.43.0


From 6dc6bd2b7b84354201298075b07d590554df675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:49 +0000
Subject: [PATCH 088/106] fix: face coordinates loaded by a mapping of names do
 not take the type of the node coordinates in the file

---
 gridded/pyugrid/grid_io/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/grid_io/utils.py b/gridded/pyugrid/grid_io/utils.py
index 5f05870..72b082d 100644
--- a/gridded/pyugrid/grid_io/utils.py
+++ b/gridded/pyugrid/grid_io/utils.py
@@ -95,7 +95,7 @@ def load_from_varnames(filename, names_mapping, attribute_check=None, post_proce
 
     # Center (optional).
     if "face_coordinates_lon" in names_mapping and "face_coordinates_lat" in names_mapping:
-        ug.face_coordinates = np.zeros((len(ug.faces), 2), dtype=lon.dtype)
+        ug.face_coordinates = np.zeros((len(ug.faces), 2), dtype=ug.nodes.dtype)
         ug.face_coordinates[:, 0] = nc.variables[names_mapping["face_coordinates_lon"]][:]  # noqa
         ug.face_coordinates[:, 1] = nc.variables[names_mapping["face_coordinates_lat"]][:]  # noqa
 
-- 
2.43.0


From 826a8c0fde48cf6324af3d1871718d0e39249db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 089/106] fix: plot_ugrid draws other triangles when a mesh has
 exactly three of them

---
 gridded/plotting/mpl_plotting.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index ef09bc4..360b18f 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -49,10 +49,6 @@ def plot_ugrid(axes, grid, nodes=False, node_numbers=False, face_numbers=False):
     nodes_lon, nodes_lat = grid.node_lon, grid.node_lat
     faces = grid.faces
 
-    if faces.shape[0] == 3:
-        # swap order for mpl triangulation
-        faces = faces.T
-
     mpl_tri = Triangulation(nodes_lon, nodes_lat, faces)
 
     axes.triplot(mpl_tri)
-- 
2.43.0


From bc2ceb55695b45c14f89099e48d30532f7641b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 090/106] fix: plot_sgrid ignores rho_points and edge_points

---
 gridded/plotting/mpl_plotting.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index 360b18f..af026ef 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -145,6 +145,17 @@ def plot_sgrid(axes, grid, nodes=False, rho_points=False, edge_points=False):
     if nodes:
         axes.plot(nodes_lon, nodes_lat, "ok")
 
+    # plot the centers of the cells
+    if rho_points and grid.center_lon is not None:
+        axes.plot(np.asarray(grid.center_lon), np.asarray(grid.center_lat), "or")
+
+    # plot the centers of the edges
+    if edge_points:
+        if grid.edge1_lon is not None:
+            axes.plot(np.asarray(grid.edge1_lon), np.asarray(grid.edge1_lat), "^b")
+        if grid.edge2_lon is not None:
+            axes.plot(np.asarray(grid.edge2_lon), np.asarray(grid.edge2_lat), ">g")
+
     # from ugrid -- needs changes -- maybe (i, j)?
     # if face_numbers:
     #     try:
-- 
2.43.0


From 61bf16c231f40b9555bd4a7bee9c1a12e69bc272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 091/106] fix: locate_faces honours use_mask whatever the cell
 tree was built with

---
 gridded/pysgrid/sgrid.py | 52 +++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 016b489..fd26098 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -151,6 +151,9 @@ class SGrid:
         self._log_ind_memo_dict = OrderedDict()
         self._cell_ind_memo_dict = OrderedDict()
         self._cell_tree_mask = None
+        # what the cell tree is built with; the one with the other setting is built when asked for
+        self._cell_tree_use_mask = True
+        self._other_cell_tree = None
         self.grid_topology = grid_topology
         self.masked_interpolant_behavior = masked_interpolant_behavior
         super().__init__(*args, **kwargs)
@@ -649,7 +652,7 @@ class SGrid:
         y_slice = slice(ymin, ymax)
         return (x_slice, y_slice)
 
-    def locate_faces(self, points, _memo=False, _copy=False, _hash=None, use_mask=True):
+    def locate_faces(self, points, _memo=False, _copy=False, _hash=None, use_mask=None):
         """
         Given a list of points, returns a list of x, y indices of the cell
         that contains each respective point
@@ -668,13 +671,19 @@ class SGrid:
         :param grid: The grid on which you want to locate the points
         :type grid: Name of the grid ('node', 'center', 'edge1', 'edge2)
 
+        :param use_mask: Whether masked cells are left out. By default as the celltree was
+                         built by `build_celltree`, or True.
+
         This version utilizes the CellTree data structure.
 
         """
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
         points = points.reshape(-1, 2)
-        _memo = _memo and not just_one  # only the results for arrays of points are memoized
+        if use_mask is None:
+            use_mask = self._cell_tree_use_mask
+        # only the results for arrays of points are memoized
+        _memo = _memo and not just_one and bool(use_mask) == self._cell_tree_use_mask
 
         if _memo:
             if _hash is None:
@@ -683,12 +692,11 @@ class SGrid:
             if result is not None:
                 return result
 
-        if self._cell_tree is None:
-            self.build_celltree(use_mask=use_mask)
-        tree = self._cell_tree[0]
+        cell_tree, cell_tree_mask = self._get_celltree(use_mask)
+        tree = cell_tree[0]
         rev_arrs = None
-        if self._cell_tree_mask is not None:
-            rev_arrs = self._cell_tree_mask[1]
+        if cell_tree_mask is not None:
+            rev_arrs = cell_tree_mask[1]
         # the tree cannot be asked for no points at all, and there is none without cells
         if tree is not None and len(points):
             indices = tree.locate(points)
@@ -711,7 +719,7 @@ class SGrid:
                 self._add_memo(points, res, self._cell_ind_memo_dict, _copy, _hash)
             return res
 
-    def index_of(self, points, _memo=False, _copy=False, _hash=None, use_mask=True):
+    def index_of(self, points, _memo=False, _copy=False, _hash=None, use_mask=None):
         return self.locate_faces(points=points, _memo=_memo, _copy=_copy, _hash=_hash, use_mask=use_mask)
 
     def locate_nearest(self, points, grid, _memo=False, _copy=False, _hash=None):
@@ -858,7 +866,26 @@ class SGrid:
                          arrays. Does nothing if self.node_mask or self.center_mask are not
                          present
         """
+        self._cell_tree, self._cell_tree_mask = self._make_celltree(use_mask)
+        self._cell_tree_use_mask = bool(use_mask)
+        self._other_cell_tree = None
+        # results found with the previous tree
+        self._cell_ind_memo_dict.clear()
+        self._log_ind_memo_dict.clear()
 
+    def _get_celltree(self, use_mask):
+        """
+        The celltree (and its mask) with or without the masked cells
+        """
+        if bool(use_mask) == self._cell_tree_use_mask:
+            if self._cell_tree is None:
+                self.build_celltree(use_mask=use_mask)
+            return self._cell_tree, self._cell_tree_mask
+        if self._other_cell_tree is None:
+            self._other_cell_tree = self._make_celltree(use_mask)
+        return self._other_cell_tree
+
+    def _make_celltree(self, use_mask):
         try:
             from cell_tree2d import CellTree
         except ImportError:
@@ -933,9 +960,9 @@ class SGrid:
                     ),
                 )
             )
-            self._cell_tree_mask = (node_mask, reversal_array)
+            tree_mask = (node_mask, reversal_array)
         else:
-            self._cell_tree_mask = None
+            tree_mask = None
             y_size = lon.shape[0]
             x_size = lon.shape[1]
             lin_faces = np.array(
@@ -955,10 +982,7 @@ class SGrid:
 
         # all cells may be masked
         tree = CellTree(lin_nodes, lin_faces) if len(lin_faces) else None
-        self._cell_tree = (tree, lin_nodes, lin_faces)
-        # results found with the previous tree
-        self._cell_ind_memo_dict.clear()
-        self._log_ind_memo_dict.clear()
+        return (tree, lin_nodes, lin_faces), tree_mask
 
     def nearest_var_to_points(
         self,
-- 
2.43.0


From 584e7871fc8ecc32b1d2ccc75a0fc0f43153e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 092/106] fix: the cell tree finds every point, also in large
 cells among small ones

---
 gridded/pysgrid/sgrid.py | 3 ++-
 gridded/pyugrid/ugrid.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index fd26098..cc4bbd8 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -981,7 +981,8 @@ class SGrid:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
         # all cells may be masked
-        tree = CellTree(lin_nodes, lin_faces) if len(lin_faces) else None
+        # with more than two buckets the tree misses points in large cells among small ones
+        tree = CellTree(lin_nodes, lin_faces, num_buckets=2) if len(lin_faces) else None
         return (tree, lin_nodes, lin_faces), tree_mask
 
     def nearest_var_to_points(
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 69091af..232780b 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -674,7 +674,8 @@ class UGrid:
 
         if self.nodes is None or self.faces is None:
             raise ValueError("Nodes and faces must be defined in order to create and use CellTree")
-        self._cell_tree = CellTree(self.nodes, self.faces)
+        # with more buckets the tree misses points in large faces among small ones
+        self._cell_tree = CellTree(self.nodes, self.faces, num_buckets=2)
 
     def interpolation_alphas(self, points, indices=None, _copy=False, _memo=True, _hash=None):
         """
-- 
2.43.0


From a30a08ec30533061996184ee1a2414c250e6fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 093/106] fix: points off a triangular mesh get 0, also when
 the last face has missing data

---
 gridded/pyugrid/ugrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 232780b..15d4aef 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -795,7 +795,7 @@ class UGrid:
         inds = self.locate_faces(points, "celltree", _copy, _memo, _hash)
         if location == "face":
             vals = variable[inds]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return vals
         #             raise NotImplementedError("Currently does not support interpolation of a "
         #                                       "variable defined on the faces")
@@ -804,7 +804,7 @@ class UGrid:
             vals = variable.take(self.faces[inds], axis=0)
             if len(vals.shape) == (len(pos_alphas.shape) + 1):
                 pos_alphas = pos_alphas[:, :, np.newaxis]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return np.sum(vals * pos_alphas, axis=1)
         return None
 
-- 
2.43.0


From f6ab331dc379eae9c126c70755c157c2e38d3b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:32 +0000
Subject: [PATCH 094/106] fix: the value at one of the times does not depend on
 data missing at the time before

---
 gridded/variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 0f49884..fc5a9ef 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -726,9 +726,12 @@ class Variable:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
             s0 = slices + (ind - 1,)
-            v0 = val_func(points, time, extrapolate, slices=s0, **kwargs)
             v1 = val_func(points, time, extrapolate, slices=s1, **kwargs)
             alphas = self.time.interp_alpha(time, extrapolate)
+            if alphas == 1:
+                # exactly at a time: data missing at the time before do not matter
+                return v1
+            v0 = val_func(points, time, extrapolate, slices=s0, **kwargs)
 
             return v0 + (v1 - v0) * alphas
 
-- 
2.43.0


From c8f85a8b3e271027e34c2d3a01d31512994323de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:37 +0000
Subject: [PATCH 095/106] fix: the value at one of the levels does not depend
 on data missing at the next one

---
 gridded/variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index fc5a9ef..b8e8563 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -812,7 +812,10 @@ class Variable:
                     values.put(lay_idxs, v1)
                     continue
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
-                sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
+                alphas = np.ma.getdata(d_alphas[lay_idxs])
+                sub_vals = v0 + (v1 - v0) * alphas
+                # exactly at a level: data missing at the other one do not matter
+                sub_vals = np.ma.where(alphas == 0, v0, np.ma.where(alphas == 1, v1, sub_vals))
                 # partially fill the values array for this layer
                 values.put(lay_idxs, sub_vals)
         return values
-- 
2.43.0


From dee6e2bf5bd4fe3bce14c7c32af6f1a23491c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 096/106] fix: precomputed alphas and unmasked indices can be
 passed to interpolate_var_to_points

---
 gridded/pysgrid/sgrid.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index cc4bbd8..51b73ca 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1188,21 +1188,23 @@ class SGrid:
         if ind is None:
             # ind has to be writable
             ind = self.locate_faces(points, _memo, _copy, _hash)
-            if (ind.mask).all():
-                if location in center_alternate_names:
-                    result = np.ma.masked_all((points.shape[0], 1))
-                else:
-                    result = np.ma.masked_all((points.shape[0],))
-                return result.filled(fill_value) if unmask else result
+        else:
+            ind = np.ma.masked_less(ind, 0)
+        if np.ma.getmaskarray(ind).all():
+            if location in center_alternate_names:
+                result = np.ma.masked_all((points.shape[0], 1))
+            else:
+                result = np.ma.masked_all((points.shape[0],))
+            return result.filled(fill_value) if unmask else result
 
         if self._l_coeffs is None:
             self._compute_transform_coeffs()
 
-        logical_coords = self.geo_to_logical(points, indices=ind)
-
         if alphas is None:
             # Better name for this would be per_cell_logical_offset
-            alphas = per_cell_log_offset = logical_coords - ind
+            alphas = self.geo_to_logical(points, indices=ind) - ind
+        # (a copy: the caller's alphas are not to be changed)
+        per_cell_log_offset = np.ma.masked_where(np.ma.getmaskarray(ind), alphas)
 
         if padding is None:
             padding = self.get_padding_by_location(location)
-- 
2.43.0


From 625145d61036f397fa697970c2f7fe66ab1fd006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 097/106] fix: vector_sum of short integers no longer wraps
 around

---
 gridded/pysgrid/processing_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/processing_2d.py b/gridded/pysgrid/processing_2d.py
index b538b15..2f819dc 100644
--- a/gridded/pysgrid/processing_2d.py
+++ b/gridded/pysgrid/processing_2d.py
@@ -5,7 +5,6 @@ Created on Apr 2, 2015
 """
 
 import numpy as np
-import numpy.ma as ma
 
 
 def vector_sum(x_arr, y_arr):
@@ -21,7 +20,8 @@ def vector_sum(x_arr, y_arr):
     :rtype: numpy.array
 
     """
-    return ma.sqrt(x_arr**2 + y_arr**2)
+    # squares of short integers are no short integers
+    return np.hypot(x_arr, y_arr)
 
 
 def rotate_vectors(x_arr, y_arr, angle_arr):
-- 
2.43.0


From 0eb623e9c4ec7f84a7bf13543f2c720ced716ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:11 +0000
Subject: [PATCH 098/106] fix: avg_to_cell_center of short integers no longer
 wraps around

---
 gridded/pysgrid/processing_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/processing_2d.py b/gridded/pysgrid/processing_2d.py
index 2f819dc..abb8568 100644
--- a/gridded/pysgrid/processing_2d.py
+++ b/gridded/pysgrid/processing_2d.py
@@ -67,7 +67,8 @@ def avg_to_cell_center(data_array, avg_dim):
         da = data_array
     da_trim_low = da[:, 1:]
     da_trim_high = da[:, :-1]
-    da_avg_raw = 0.5 * (da_trim_low + da_trim_high)
+    # halved first: the sum of two short integers may be none
+    da_avg_raw = 0.5 * da_trim_low + 0.5 * da_trim_high
     if avg_dim == 0:
         da_avg = np.transpose(da_avg_raw)
     else:
-- 
2.43.0


From 9b2be122c029a547e2904525ee9d0f449fd3ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 099/106] fix: interpolating short integers in time or depth no
 longer wraps around

---
 gridded/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index b8e8563..6f581ca 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -733,6 +733,8 @@ class Variable:
                 return v1
             v0 = val_func(points, time, extrapolate, slices=s0, **kwargs)
 
+            # the difference of two short integers may be none
+            v0 = v0 * 1.0
             return v0 + (v1 - v0) * alphas
 
     def _depth_interp(self, points, time, extrapolate, slices=(), **kwargs):
@@ -813,6 +815,7 @@ class Variable:
                     continue
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                 alphas = np.ma.getdata(d_alphas[lay_idxs])
+                v0 = v0 * 1.0
                 sub_vals = v0 + (v1 - v0) * alphas
                 # exactly at a level: data missing at the other one do not matter
                 sub_vals = np.ma.where(alphas == 0, v0, np.ma.where(alphas == 1, v1, sub_vals))
-- 
2.43.0


From c602d4d7fe35af8583c57cdb506ffe10f6c91cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 100/106] fix: saving with format='netcdf3' writes a netCDF3
 file

---
 gridded/gridded.py       | 2 +-
 gridded/pyugrid/ugrid.py | 4 ++--
 gridded/utilities.py     | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index e99d7d2..448e1ca 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -220,7 +220,7 @@ class Dataset:
             raise ValueError(f"format: {format} not supported. Options are: {format_options}")
 
         # create an ncdataset
-        ncds = get_writable_dataset(filename)
+        ncds = get_writable_dataset(filename, format=format)
 
         # Save the grid and variables
         self.grid.save(ncds, format="netcdf4", variables=self.variables)
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 15d4aef..01a69fd 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -998,7 +998,7 @@ class UGrid:
         :param format: format to save -- 'netcdf3' or 'netcdf4'
                        are the only options at this point.
         """
-        self.save(filename, format="netcdf4")
+        self.save(filename, format=format)
 
     def save(self, filepath, format="netcdf4", variables={}):
         """
@@ -1022,7 +1022,7 @@ class UGrid:
 
         mesh_name = self.mesh_name
 
-        nclocal = get_writable_dataset(filepath)
+        nclocal = get_writable_dataset(filepath, format=format)
 
         nclocal.createDimension(mesh_name + "_num_node", len(self.nodes))
         if self._edges is not None:
diff --git a/gridded/utilities.py b/gridded/utilities.py
index 4291d28..5b5feba 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -449,7 +449,8 @@ def get_writable_dataset(ncfile, format="netcdf4"):
         return ncfile
     elif isstring(ncfile):  # Fixme: should be pathlike...
         print("filename is:", ncfile)
-        return nc4.Dataset(ncfile, mode="w", clobber=True, format="NETCDF4")
+        nc_format = {"netcdf3": "NETCDF3_64BIT_OFFSET", "netcdf4": "NETCDF4"}[format]
+        return nc4.Dataset(ncfile, mode="w", clobber=True, format=nc_format)
     else:
         raise ValueError("Must be a string path or a netcdf4 Dataset")
 
-- 
2.43.0


From cd0fee4ed79c1fd99eafbbf6846eabb829816277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:45 +0000
Subject: [PATCH 101/106] fix: deleting the nodes of a UGrid deletes everything
 derived from its faces

---
 gridded/pyugrid/ugrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 01a69fd..08aafad 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -298,6 +298,8 @@ class UGrid:
         self._edges = None
         self._faces = None
         self._boundaries = None
+        self._face_face_connectivity = None
+        self._face_edge_connectivity = None
         self._clear_caches()
 
     @property
-- 
2.43.0


From 5e92eb9576e6bbf06b484462a0aa099dad8211f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:08 +0000
Subject: [PATCH 102/106] fix: interpolation weights on a UGrid are those of
 the faces found

---
 gridded/pyugrid/ugrid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 08aafad..39a1f9a 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -694,15 +694,18 @@ class UGrid:
         TODO: mask the indices that aren't on the grid properly.
         """
 
+        if indices is None:
+            indices = self.locate_faces(points, "celltree", _memo, _copy, _hash)
+
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
+            # a point between faces has other alphas in each of them
+            _hash = (_hash, self._hash_of_pts(np.asarray(indices, dtype=IND_DT)))
             result = self._get_memoed(points, self._alpha_memo_dict, _copy, _hash)
             if result is not None:
                 return result
 
-        if indices is None:
-            indices = self.locate_faces(points, "celltree", _copy, _memo, _hash)
         node_positions = self.nodes[self.faces[indices]]
 
         (lon1, lon2, lon3) = node_positions[:, :, 0].T
@@ -794,7 +797,7 @@ class UGrid:
 
         _hash = self._hash_of_pts(points)
 
-        inds = self.locate_faces(points, "celltree", _copy, _memo, _hash)
+        inds = self.locate_faces(points, "celltree", _memo, _copy, _hash)
         if location == "face":
             vals = variable[inds]
             vals[inds == -1] = 0
-- 
2.43.0


From 804a0cde8405d2470cdce8fe27f3be4c6a0636d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 103/106] fix: indexing UVar and UMVar gives the current data

---
 gridded/pyugrid/uvar.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index b4713ea..0d788ac 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -60,7 +60,7 @@ class UVar:
 
         # FixMe: we need a separate attribute dict -- we really do'nt want all this
         #        getting mixed up with the python object attributes
-        self.attributes = {} if attributes is None else attributes
+        self.attributes = {} if attributes is None else dict(attributes)
         # if the data is a netcdf variable, pull the attributes from there
         try:
             for attr in data.ncattrs():
@@ -89,10 +89,12 @@ class UVar:
     @data.setter
     def data(self, data):
         self._data = asarraylike(data)
+        self._cache.clear()
 
     @data.deleter
     def data(self):
         self._data = self._data = np.zeros((0,), dtype=np.float64)
+        self._cache.clear()
 
     @property
     def shape(self):
@@ -125,6 +127,10 @@ class UVar:
         """
         Transfers responsibility to the data's __getitem__ if not cached
         """
+        items = item if isinstance(item, tuple) else (item,)
+        if isinstance(self._data, np.ndarray) or not all(isinstance(i, (slice, int, type(Ellipsis))) for i in items):
+            # nothing to gain -- and the text of an array need not show all of it
+            return self._data.__getitem__(item)
         rv = None
         if str(item) in self._cache:
             rv = self._cache[str(item)]
@@ -133,7 +139,7 @@ class UVar:
             self._cache[str(item)] = rv
             if len(self._cache) > 3:
                 self._cache.popitem(last=False)
-        return rv
+        return rv.copy()
 
     def __str__(self):
         print("in __str__, data is:", self.data)
@@ -188,7 +194,6 @@ class UMVar:
             setattr(self, d.name, d)
 
         self.variables = [d.name for d in data]
-        self._cache = OrderedDict()
 
     def add_var(self, var):
         if var.shape != self.shape:
@@ -199,14 +204,8 @@ class UMVar:
         setattr(self, var.name, var)
 
     def __getitem__(self, item):
-        if str(item) in self._cache:
-            return self._cache[str(item)]
-        else:
-            rv = np.ma.column_stack([self.__getattribute__(var).__getitem__(item) for var in self.variables])
-            self._cache[str(item)] = rv
-            if len(self._cache) > 3:
-                self._cache.popitem(last=False)
-            return rv
+        # not cached: the variables, and what they hold, may change
+        return np.ma.column_stack([self.__getattribute__(var).__getitem__(item) for var in self.variables])
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 5924c0247eb23a79398fe72e7c75a7fac00bdefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:06 +0000
Subject: [PATCH 104/106] fix: max and min of variables in files leave missing
 data out

---
 gridded/pysgrid/variables.py | 4 ++--
 gridded/pyugrid/uvar.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index d53977b..b6bb692 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -148,11 +148,11 @@ class SGridVariable:
 
     @property
     def max(self):
-        return np.max(self._data)
+        return np.max(self._data[:])
 
     @property
     def min(self):
-        return np.min(self._data)
+        return np.min(self._data[:])
 
     @property
     def ndim(self):
diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index 0d788ac..3c69eeb 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -106,12 +106,12 @@ class UVar:
     @property
     def max(self):
         """maximum value of the variable"""
-        return np.max(self._data)
+        return np.max(self._data[:])
 
     @property
     def min(self):
         """minimum value of the variable"""
-        return np.min(self._data)
+        return np.min(self._data[:])
 
     @property
     def dtype(self):
-- 
2.43.0


From 766f57ebc3fbcdfc93b0f4f3a5b94b307aa9adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:15 +0000
Subject: [PATCH 105/106] fix: meshes with faces of different numbers of nodes
 can be compared

---
 gridded/pyugrid/ugrid.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 39a1f9a..deb0cd6 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -219,10 +219,22 @@ class UGrid:
         # maybe too strict?
         if self.__class__ is not other.__class__:
             return False
+
+        def same(a, b):
+            # what is under the mask of a flexible mesh does not count
+            masked = [isinstance(x, np.ma.MaskedArray) for x in (a, b)]
+            if not any(masked):
+                return np.array_equal(a, b)
+            if a is None or b is None:
+                return False
+            return np.array_equal(
+                np.ma.getmaskarray(a), np.ma.getmaskarray(b)
+            ) and np.array_equal(np.ma.filled(a, 0), np.ma.filled(b, 0))
+
         if (
-            np.array_equal(self.nodes, other.nodes)
-            and np.array_equal(self.faces, other.faces)
-            and np.array_equal(self.boundaries, other.boundaries)
+            same(self.nodes, other.nodes)
+            and same(self.faces, other.faces)
+            and same(self.boundaries, other.boundaries)
         ):
             return True
         return False
-- 
2.43.0


From a9d63f84ba126c72f10a4e199262a74d6ae7948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:47 +0000
Subject: [PATCH 106/106] fix: points are located and topology is built in
 meshes with faces of different numbers of nodes

---
 gridded/pyugrid/ugrid.py | 67 ++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index deb0cd6..55dc0fc 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -658,7 +658,7 @@ class UGrid:
         elif method == "simple":
             indices = np.zeros((points.shape[0]), dtype=IND_DT)
             for n, point in enumerate(points):
-                for i, face in enumerate(self._faces):
+                for i, face in enumerate(self._filled_faces()):
                     f = self._nodes[face]
                     if point_in_tri(f, point):
                         indices[n] = i
@@ -679,6 +679,16 @@ class UGrid:
     def index_of(self, points, method="celltree", _memo=False, _copy=False, _hash=None, use_mask=True):
         return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash)
 
+    def _filled_faces(self):
+        """
+        The faces, in a flexible mesh with the first node of the face in place of
+        the nodes it does not have: that repeats a corner, and adds nothing to the face.
+        """
+        if not np.ma.is_masked(self.faces):
+            return np.ma.getdata(self.faces)
+        data = np.ma.getdata(self.faces)
+        return np.where(np.ma.getmaskarray(self.faces), data[:, :1], data)
+
     def build_celltree(self):
         """
         Tries to build the celltree for the current UGrid. Will fail if nodes
@@ -689,7 +699,7 @@ class UGrid:
         if self.nodes is None or self.faces is None:
             raise ValueError("Nodes and faces must be defined in order to create and use CellTree")
         # with more buckets the tree misses points in large faces among small ones
-        self._cell_tree = CellTree(self.nodes, self.faces, num_buckets=2)
+        self._cell_tree = CellTree(self.nodes, self._filled_faces(), num_buckets=2)
 
     def interpolation_alphas(self, points, indices=None, _copy=False, _memo=True, _hash=None):
         """
@@ -841,9 +851,12 @@ class UGrid:
 
         # Loop through all the faces to find the matching edges:
         edges = {}  # dict to store the edges.
-        for i, face in enumerate(self.faces):
+        missing = np.ma.getmaskarray(self.faces)
+        for i, face in enumerate(self._filled_faces()):
             # Loop through edges of the cell:
             for j in range(num_vertices):
+                if missing[i, j]:
+                    continue
                 if j < self.num_vertices - 1:
                     edge = (face[j], face[j + 1])
                 else:
@@ -858,6 +871,8 @@ class UGrid:
                     face_face[face_num, edge_num] = i
                 else:
                     edges[edge] = (i, j)  # face num, edge_num.
+        if missing.any():
+            face_face = np.ma.MaskedArray(face_face, missing)
         self._face_face_connectivity = face_face
 
     def get_lines(self):
@@ -885,10 +900,13 @@ class UGrid:
 
         # Loop through all the faces to find all the edges:
         edges = set()  # Use a set so no duplicates.
-        for i, face in enumerate(self.faces):
+        missing = np.ma.getmaskarray(self.faces)
+        for i, face in enumerate(self._filled_faces()):
             # Loop through edges:
             for j in range(num_vertices):
-                edge = (face[j - 1], face[j])
+                if missing[i, j]:
+                    continue
+                edge = (face[j], face[(j + 1) % num_vertices])
                 if edge[0] > edge[1]:  # Flip them
                     edge = (edge[1], edge[0])
                 edges.add(edge)
@@ -910,13 +928,15 @@ class UGrid:
         boundaries = []
         if self.face_face_connectivity is None:
             self.build_face_face_connectivity()
+        faces = self._filled_faces()
+        missing = np.ma.getmaskarray(self.faces)
         for i, face in enumerate(self.face_face_connectivity):
             for j, neighbor in enumerate(face):
-                if neighbor == -1:
+                if neighbor == -1 and not missing[i, j]:
                     if j == self.num_vertices - 1:
-                        bound = (self.faces[i, -1], self.faces[i, 0])
+                        bound = (faces[i, -1], faces[i, 0])
                     else:
-                        bound = (self.faces[i, j], self.faces[i, j + 1])
+                        bound = (faces[i, j], faces[i, j + 1])
                     boundaries.append(bound)
         self.boundaries = boundaries
 
@@ -933,11 +953,9 @@ class UGrid:
         except ImportError:
             raise ImportError("The scipy package is required to use UGrid.locatbuild_face_edge_connectivity")
 
-        faces = self.faces
+        faces = self._filled_faces()
         edges = self.edges.copy()
         face_edges = np.dstack([faces, np.roll(faces, 1, 1)])
-        if np.ma.isMA(faces) and np.ndim(faces.mask):
-            face_edges.mask = np.dstack([faces.mask, np.roll(faces.mask, 1, 1)])
         face_edges.sort(axis=-1)
         edges.sort(axis=-1)
 
@@ -945,17 +963,13 @@ class UGrid:
 
         face_edge_2d = face_edges.reshape((-1, 2))
 
-        if np.ma.isMA(faces) and faces.mask.any():
-            mask = face_edge_2d.mask.any(-1)
-            connectivity = np.ma.ones(
-                len(face_edge_2d),
-                dtype=face_edge_2d.dtype,
-            )
-            connectivity.mask = mask
-            connectivity[~mask] = tree.query(face_edge_2d[~mask])[1]
-        else:
-            connectivity = tree.query(face_edge_2d)[1]
-        self.face_edge_connectivity = np.roll(connectivity.reshape(faces.shape), -1, -1)
+        distance, connectivity = tree.query(face_edge_2d)
+        connectivity = np.roll(connectivity.reshape(faces.shape), -1, -1)
+        if np.ma.is_masked(self.faces):
+            # the sides that are not there, or not among the edges
+            unknown = np.roll(distance.reshape(faces.shape) > 0, -1, -1)
+            connectivity = np.ma.MaskedArray(connectivity, np.ma.getmaskarray(self.faces) | unknown)
+        self.face_edge_connectivity = connectivity
 
     def build_face_coordinates(self):
         """
@@ -971,7 +985,14 @@ class UGrid:
         Useful if you want this in the output file.
 
         """
-        self.face_coordinates = self.nodes[self.faces].mean(axis=1)
+        corners = self.nodes[self._filled_faces()]
+        if np.ma.is_masked(self.faces):
+            missing = np.ma.getmaskarray(self.faces)[:, :, np.newaxis]
+            corners = np.ma.MaskedArray(corners, np.ma.getmaskarray(corners) | missing)
+            means = corners.mean(axis=1)
+            self.face_coordinates = means if np.ma.isMA(self.nodes) else means.data
+        else:
+            self.face_coordinates = corners.mean(axis=1)
 
     def build_edge_coordinates(self):
         """
-- 
2.43.0

