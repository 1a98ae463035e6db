From 0f655ac4b972f491169e2047142d8a35837a8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 001/130] fix: geodetic azimuth between points on one meridian
 was NaN

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ececdc1..7aa8a1a 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -173,7 +173,7 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
         else:
             lon0, lat0 = self.crs.project(self.x, self.y, inverse=True)
             lon1, lat1 = other.crs.project(other.x, other.y, inverse=True)
-            if (lon0 != lon1) or (lat0 == lat1):
+            if (lon0 != lon1) or (lat0 != lat1):
                 az, _, _ = self.crs.inverse(lon0, lat0, lon1, lat1)
         return az
 
-- 
2.43.0


From 457e8bf9537cae31316015356b42ab0e703af957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 002/130] fix: reprojecting the vertices of rank 3 geometries
 failed

---
 karta/vector/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 7aa8a1a..8740ca9 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -413,14 +413,14 @@ class MultiVertexMixin(object):
         drop_z : bool, optional
             whether to discard third dimension for rank 3 geometries
         """
-        if (crs is None) or (crs is self.crs):
+        if (crs is None) or (crs == self.crs):
             if not drop_z:
                 return self._vertices.asarray()
             else:
                 return self._vertices.asarray()[:,:2]
         else:
             v = self._vertices.vectors(drop_z=drop_z)
-            vt = _reproject(v[:2], self.crs, crs)
+            vt = list(_reproject(v[:2], self.crs, crs))
             if len(v) == 3:
                 vt.append(v[2])
             return np.vstack(vt).T
-- 
2.43.0


From 28732baf59f546a5f1ffc4739e1cc986652f3daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 003/130] fix: line intersections ignored the other geometry's
 coordinate system

---
 karta/vector/geometry.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 8740ca9..56082f7 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -675,6 +675,21 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         return ((self._vertices[i], self._vertices[i+1])
                 for i in range(len(self._vertices)-1))
 
+    def _vertices_in(self, crs):
+        """ Return the vertices as a CoordString in coordinate system *crs*. """
+        if crs == self.crs:
+            return self._vertices
+        return CoordString(self.vertices(crs=crs, drop_z=True),
+                           ring=bool(self._vertices.ring))
+
+    def _segment_tuples_in(self, crs):
+        """ Return a generator of adjacent line segments as coordinate tuples
+        in coordinate system *crs*. """
+        vertices = self._vertices_in(crs)
+        first = 0 if vertices.ring else 1
+        return ((vertices[i-1], vertices[i])
+                for i in range(first, len(vertices)))
+
     def intersects(self, other):
         """ Return whether an intersection exists with another geometry.
 
@@ -688,10 +703,11 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         - If CRS is Geographical, uses a spherical approximation.
         """
         if _cintersection.bboxes_overlap(self.bbox(), other.bbox(self.crs)):
+            other_vertices = other._vertices_in(self.crs)
             if isinstance(self.crs, GeographicalCRS):
-                return _cintersection.intersects_sph(self._vertices, other._vertices)
+                return _cintersection.intersects_sph(self._vertices, other_vertices)
             else:
-                return _cintersection.intersects(self._vertices, other._vertices)
+                return _cintersection.intersects(self._vertices, other_vertices)
         else:
             return False
 
@@ -710,14 +726,15 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         - If CRS is Geographical, uses a spherical approximation.
         """
         if isinstance(self.crs, CartesianCRS):
-            interx = _cintersection.all_intersections(self._vertices, other._vertices)
+            interx = _cintersection.all_intersections(self._vertices,
+                                                      other._vertices_in(self.crs))
             if not keep_duplicates:
                 interx = list(set(interx))
             return Multipoint(interx, crs=self.crs)
         else:
             interx = (geodesy.intersection_spherical(a, b)
                             for a in self.segment_tuples
-                            for b in other.segment_tuples)
+                            for b in other._segment_tuples_in(self.crs))
             if not keep_duplicates:
                 interx = list(set(interx))
             return Multipoint(interx, crs=self.crs)
-- 
2.43.0


From 45ac81dad7e8b75a260e894b55020db780403ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 004/130] fix: Line.extend mixed coordinate systems and broke
 its vertex storage

---
 karta/vector/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 56082f7..58e5041 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -879,13 +879,14 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         """
         if len(self._vertices[0]) != len(other._vertices[0]):
             raise ValueError("Rank mismatch ({0} != "
-                    "{1})".format(self._vertices.shape[1],
-                                  other._vertices.shape[1]))
+                    "{1})".format(self._vertices.rank,
+                                  other._vertices.rank))
         if self._geotype != other._geotype:
             raise TypeError("Geometry mismatch ({0} != "
                     "{1})".format(self._geotype, other._geotype))
 
-        self._vertices = np.vstack([self._vertices, other._vertices])
+        self._vertices = CoordString(np.vstack([self.vertices(),
+                                                other.vertices(crs=self.crs)]))
         self._cache = {}
         return self
 
-- 
2.43.0


From c82f01a93dcb7e85a58b1bcafcd8c5387766d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 005/130] fix: Multipoint.within_radius searched around
 unprojected coordinates

---
 karta/vector/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 58e5041..f6a0c79 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1379,7 +1379,9 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
         -------
         Multipoint
         """
-        if hasattr(self, "quadtree"):
+        if (hasattr(self, "quadtree") and point.crs == self.crs and
+                isinstance(self.crs, CartesianCRS)):
+            # *radius* is in the units of the coordinates
             candidate_indices = self.quadtree.search_within(point.x-radius,
                                                             point.y-radius,
                                                             point.x+radius,
-- 
2.43.0


From aaa92a5143428830a96040a1402b3ad655e52716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 006/130] fix: geometries built from Points ignored the Points'
 coordinate systems

---
 karta/vector/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index f6a0c79..5e6f94c 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -348,9 +348,10 @@ class MultiVertexBase(Geometry):
         elif not isinstance(vertices[0], Point):
             self._vertices = CoordString(_flatten(vertices), ring=ring)
         else:
-            self._vertices = CoordString([point._vertex for point in vertices], ring=ring)
             if "crs" not in kwargs:
                 self.crs = vertices[0].crs
+            self._vertices = CoordString([point.vertex(self.crs) for point in vertices],
+                                         ring=ring)
         return
 
     def __eq__(self, other):
-- 
2.43.0


From d10e29c88a6c9b0742053f4239442b6f49f32609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 007/130] fix: flat_distances_to ignored the point's coordinate
 system

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 5e6f94c..50018ef 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -565,7 +565,7 @@ class MultiVertexMixin(object):
     def flat_distances_to(self, pt):
         """ Return the "flat Earth" distance from each vertex to a point. """
         A = self._vertices.asarray()
-        P = np.tile(np.array(pt._vertex), (A.shape[0], 1))
+        P = np.tile(np.array(pt.vertex(self.crs)), (A.shape[0], 1))
         d = np.sqrt(np.sum((A-P)**2, 1))
         return d
 
-- 
2.43.0


From 337937704964eccbc1a66f9fe06c79a402d5eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 008/130] fix: within_distance required every segment to be
 within the distance

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 50018ef..d4b3404 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -821,7 +821,7 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         -----
         - If CRS is Geographical, uses distance defined by the CRS instance.
         """
-        return all(distance >= seg.shortest_distance_to(point)
+        return any(distance >= seg.shortest_distance_to(point)
                     for seg in self.segments)
 
     def crosses_dateline(self):
-- 
2.43.0


From 4a9f3b473cdd5e0b20bec56325e752f16d40d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 009/130] fix: Polygons built from a CoordString were not
 closed rings

---
 karta/vector/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index d4b3404..d90c080 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -337,7 +337,10 @@ class MultiVertexBase(Geometry):
         super(MultiVertexBase, self).__init__(**kwargs)
 
         if isinstance(vertices, CoordString):
-            self._vertices = vertices
+            if bool(vertices.ring) == bool(ring):
+                self._vertices = vertices
+            else:
+                self._vertices = CoordString(vertices, ring=ring)
             return
 
         if hasattr(vertices, "__next__"):
-- 
2.43.0


From 0fb4f283307b59fc8ad534fbf30eb4e0b6952ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 010/130] fix: Multipolygon stored sub-polygons as geometries
 instead of rings

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index d90c080..f994b38 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1710,7 +1710,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             for polygon in inputs:
                 rings = [CoordString(polygon.vertices(crs=crs))]
                 for sub in polygon.subs:
-                    rings.append(sub)
+                    rings.append(CoordString(sub.vertices(crs=crs)))
                 self._vertices.append(rings)
             data = merge_properties([polygon.properties for polygon in inputs])
             kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
-- 
2.43.0


From 8473b9f73fd9b068aad84db9cd47ce322cc49939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 011/130] fix: Multipolygon.merge failed on geometries of
 different rank

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index f994b38..ecd9866 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1788,7 +1788,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
         rankmax = max(arr.shape[1] for arr in itertools.chain(*vertices))
         if rankmin != rankmax:
             for i, v in enumerate(vertices):
-                vertices[i] = [ring[:,:imin] for ring in vertices]
+                vertices[i] = [ring[:,:rankmin] for ring in v]
 
         data = table.merge(mappings)
         return Multipolygon(vertices, data=data, crs=crs)
-- 
2.43.0


From d9a3f48816c65988e52112d6c333344d5a41c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 012/130] fix: multipart geometries built from geometries had
 fewer data rows than parts

---
 karta/vector/geometry.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ecd9866..54ed6c6 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1279,7 +1279,9 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             crs = kwargs.get("crs", inputs[0].crs)
             self._vertices = CoordString([point.vertex(crs=crs) for point in inputs])
             data = merge_properties([point.properties for point in inputs])
-            kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            kwargs["data"] = Table(kwargs.get("data") or {}).updated(data)
+            if len(kwargs["data"].fields) == 0:
+                kwargs["data"] = Table(size=len(inputs))
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = CoordString(inputs)
@@ -1591,7 +1593,9 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             self._vertices = [CoordString(line.vertices(crs=crs))
                              for line in inputs]
             data = merge_properties([line.properties for line in inputs])
-            kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            kwargs["data"] = Table(kwargs.get("data") or {}).updated(data)
+            if len(kwargs["data"].fields) == 0:
+                kwargs["data"] = Table(size=len(inputs))
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = [CoordString(part) for part in inputs]
@@ -1713,7 +1717,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
                     rings.append(CoordString(sub.vertices(crs=crs)))
                 self._vertices.append(rings)
             data = merge_properties([polygon.properties for polygon in inputs])
-            kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            kwargs["data"] = Table(kwargs.get("data") or {}).updated(data)
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = []
-- 
2.43.0


From 45b6678a03bbcc37be03e59f3beee7f86b58fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 013/130] fix: data columns of geometry subsets could be
 mislabelled

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 54ed6c6..5d1e129 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -560,7 +560,7 @@ class MultiVertexMixin(object):
         """ Return a subset defined by indices. """
         vertices = [self._vertices[i] for i in idxs]
         if hasattr(self, "data"):
-            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data.fields)
+            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data._fields)
             return type(self)(vertices, properties=self.properties, data=data, crs=self.crs)
         else:
             return type(self)(vertices, properties=self.properties, crs=self.crs)
-- 
2.43.0


From 5830e86b3e8ab0bacec14da2689003aa1ec72e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 014/130] fix: assigning to a Multipoint left stale caches,
 index and data

---
 karta/vector/geometry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 5d1e129..1f55d86 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1308,9 +1308,11 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
     def __setitem__(self, key, value):
         if isinstance(key, numbers.Integral):
             if hasattr(value, "vertex"):
-                self._vertices[key] = np.array(value.vertex(self.crs), dtype=np.float64)
+                verts = self._vertices.asarray()
+                verts[key] = value.vertex(self.crs)
+                self._vertices = CoordString(verts)
                 row = []
-                for field in self.data.fields:
+                for field in self.data._fields:
                     row.append(value.properties.get(field, None))
                 self.data[key] = tuple(row)
             else:
@@ -1318,7 +1320,10 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
                     verts = self._vertices.asarray()
                     verts[key] = value
                     self._vertices = CoordString(verts)
-                self.data[key] = (None for _ in self.data.fields)
+                self.data[key] = tuple(None for _ in self.data._fields)
+            self._cache = {}
+            if hasattr(self, "quadtree"):
+                self.quadtree = QuadTree(self._vertices, leaf_capacity=50)
 
     @property
     def geomdict(self):
-- 
2.43.0


From 2ca7e6722a6814432513bdfe759d22506cc82c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 015/130] fix: bounding box and containment queries lost the
 coordinate system

---
 karta/vector/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 1f55d86..4057920 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1510,7 +1510,8 @@ class MultiVertexMultipartMixin(object):
             (xmin, ymin, xmax, ymax)
         """
         indices = self.rtree.search_within(bbox, max_results=max_results)
-        return type(self)([self[i] for i in indices])
+        return type(self)([self[i] for i in indices],
+                          properties=self.properties, crs=self.crs)
 
     def touching_bbox(self, bbox, max_results=-1):
         """ Return Multipart geometry representing member geometries that touch
@@ -1522,7 +1523,8 @@ class MultiVertexMultipartMixin(object):
             (xmin, ymin, xmax, ymax)
         """
         indices = self.rtree.search_overlapping(bbox, max_results=max_results)
-        return type(self)([self[i] for i in indices])
+        return type(self)([self[i] for i in indices],
+                          properties=self.properties, crs=self.crs)
 
     def touching(self, geom):
         """ Return a Multipart geometry representing member geometries that
@@ -1553,7 +1555,7 @@ class MultiVertexMultipartMixin(object):
                     results.append(test_geom)
         else:
             raise TypeError("argument must be Line or Polygon")
-        return type(self)(results)
+        return type(self)(results, properties=self.properties, crs=self.crs)
 
     def within(self, geom):
         """ Return a Multipart geometry representing member geometries
@@ -1572,7 +1574,7 @@ class MultiVertexMultipartMixin(object):
             pt = test_geom[0]
             if geom.contains(pt) and not geom.intersects(test_geom):
                 results.append(test_geom)
-        return type(self)(results)
+        return type(self)(results, properties=self.properties, crs=self.crs)
 
 class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
                 ShapefileOutMixin):
-- 
2.43.0


From 0fa2e87f8d420d19d8300ad6db78d4467af4748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 016/130] fix: GeoJSON features of multipart geometries dropped
 properties

---
 karta/vector/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 4057920..3961ad0 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1631,7 +1631,8 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
 
     @property
     def __geo_interface__(self):
-        p = dict(_karta_proj4=self.crs.get_proj4())
+        p = self.properties.copy()
+        p["_karta_proj4"] = self.crs.get_proj4()
         return {"type": "Feature",
                 "geometry": self.geomdict,
                 "properties": p}
@@ -1760,7 +1761,8 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
 
     @property
     def __geo_interface__(self):
-        p = dict(_karta_proj4=self.crs.get_proj4())
+        p = self.properties.copy()
+        p["_karta_proj4"] = self.crs.get_proj4()
         return {"type": "Feature",
                 "geometry": self.geomdict,
                 "properties": p}
-- 
2.43.0


From 447f61e323492f87cce467ac66425baa3ac65e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 017/130] fix: affine transforms dropped the sub-polygons of
 Polygons

---
 karta/vector/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 3961ad0..18005e7 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -539,6 +539,9 @@ class MultiVertexMixin(object):
 
         if hasattr(self, "data"):
             return type(self)(new_xy, properties=self.properties, data=self.data, crs=self.crs)
+        elif hasattr(self, "subs"):
+            return type(self)(new_xy, subs=[sub.apply_transform(M) for sub in self.subs],
+                              properties=self.properties, crs=self.crs)
         else:
             return type(self)(new_xy, properties=self.properties, crs=self.crs)
 
-- 
2.43.0


From dde2f55e54dc69b629dcde96e0c492ced8b692d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 018/130] fix: adding Polygons dropped their sub-polygons

---
 karta/vector/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 18005e7..a7d70b8 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1032,8 +1032,9 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         return super(Polygon, self).__getitem__(key)
 
     def __add__(self, other):
-        return Multipolygon([[self._vertices], [other.vertices(self.crs)]],
-                            crs=self.crs)
+        rings = [[poly.vertices(self.crs)] + [sub.vertices(self.crs) for sub in poly.subs]
+                 for poly in (self, other)]
+        return Multipolygon(rings, crs=self.crs)
 
     @property
     def __geo_interface__(self):
-- 
2.43.0


From efd650519e069c98c782a0a686ec8de8ae4b7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 019/130] fix: Polygon.to_line failed

---
 karta/vector/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index a7d70b8..f15851f 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1201,8 +1201,7 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
 
     def to_line(self):
         """ Returns a self-closing polyline. Discards sub-polygons. """
-        v = self._vertices + self._vertices[0]
-        return Line(v, properties=self.properties, crs=self.crs)
+        return Line(self.vertices_ring, properties=self.properties, crs=self.crs)
 
 class Multipart(Geometry):
     """ Base for objects consisting of multiple singular types. """
-- 
2.43.0


From 361ab7db1656437126925c88d887ac9d0b83bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 020/130] fix: equal geometries could have different hashes

---
 karta/vector/geometry.py  | 12 ++++++------
 karta/vector/utilities.py |  6 ++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index f15851f..a2d3185 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -15,7 +15,7 @@ from .decorators import cache_decorator
 from ._geojson import GeoJSONOutMixin
 from ._shp import ShapefileOutMixin
 from .table import Table
-from .utilities import _reproject, _flatten, _as_nested_lists
+from .utilities import _reproject, _flatten, _as_nested_lists, _as_nested_tuples
 from .rtree import RTree
 from .quadtree import QuadTree
 from . import vectorgeo as _cvectorgeo
@@ -102,7 +102,7 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
     def __hash__(self):
         ht = hash(self._geotype)
         hd = hash(self._vertex)
-        hc = hash(str(self.crs))
+        hc = hash(self.crs)
         return ht + (hd << 1) + hd + hc
 
     def __add__(self, other):
@@ -372,8 +372,8 @@ class MultiVertexBase(Geometry):
 
     def __hash__(self):
         ht = hash(self._geotype)
-        hd = hash(self._vertices.asarray().tostring())
-        hc = hash(str(self.crs))
+        hd = hash(_as_nested_tuples(self._vertices))
+        hc = hash(self.crs)
         return ht + (hd << 1) + hd + hc
 
     def __getitem__(self, key):
@@ -1241,8 +1241,8 @@ class Multipart(Geometry):
 
     def __hash__(self):
         ht = hash(self._geotype)
-        hd = hash(self._vertices.asarray().tostring())
-        hc = hash(str(self.crs))
+        hd = hash(_as_nested_tuples(self._vertices))
+        hc = hash(self.crs)
         return ht + (hd << 1) + hd + hc
 
     def __contains__(self, other):
diff --git a/karta/vector/utilities.py b/karta/vector/utilities.py
index d8aedc1..8831fe2 100644
--- a/karta/vector/utilities.py
+++ b/karta/vector/utilities.py
@@ -21,6 +21,12 @@ def _as_nested_lists(vertices):
             out.append(list(part))
     return out
 
+def _as_nested_tuples(vertices):
+    """ Convert a nested structure such as a CoordString into (hashable) nested
+    tuples. """
+    return tuple(_as_nested_tuples(part) if hasattr(part, "__len__") else part
+                 for part in vertices)
+
 def _reproject(xy, crs1, crs2):
     """ Reproject a coordinate (or 2-tuple of x and y vectors) from *crs1* to
     *crs2*. """
-- 
2.43.0


From c6c640b69c206652c86630af30ea653020bc5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 021/130] fix: ProjectedCRS instances were not hashable

---
 karta/crs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/crs.py b/karta/crs.py
index 6fe55ce..90c9ffc 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -278,6 +278,10 @@ class ProjectedCRS(CartesianCRS):
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def __hash__(self):
+        return hash((getattr(self._proj, "srs", 0),
+                     getattr(self._geod, "initstring", 0)))
+
     def project(self, x, y, inverse=False):
         return self._proj(x, y, inverse=inverse)
 
-- 
2.43.0


From 8a599bd235b0305b4804378969c4be4be6eafbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 022/130] fix: the carthage datum named an unknown ellipsoid

---
 karta/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/crs.py b/karta/crs.py
index 90c9ffc..b9a47d5 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -27,7 +27,7 @@ osgeo.osr.UseExceptions()
 
 # proj.4 keys for ellipsoids used by named datum definitions
 DATUM_ELLIPSOIDS = {"WGS84": "WGS84", "GGRS87": "GRS80", "NAD83": "GRS80",
-                    "NAD27": "clrk66", "potsdam": "bessel", "carthage": "clark80",
+                    "NAD27": "clrk66", "potsdam": "bessel", "carthage": "clrk80",
                     "hermannskogel": "bessel", "ire65": "mod_airy",
                     "nzgd49": "intl", "OSGB36": "airy"}
 
-- 
2.43.0


From 0084f8bc01ddbc3981e65b28a59c39ab91a8f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 023/130] fix: GeoJSON output without a URN raised NameError

---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index 7e784ac..ef9dd34 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -40,7 +40,7 @@ class GeoJSONOutMixin(object):
         if kwargs.get("urn", None) is not None:
             crs = crs_from_urn(kwargs["urn"])
         else:
-            crs = crs_from_karta(geoms[0].crs)
+            crs = crs_from_karta(geom.crs)
 
         if geom._geotype == "Point":
             g = picogeojson.Point(geom.vertex(), crs)
-- 
2.43.0


From e8ba897bb737a03823aa837eaef7a53b06b48dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 024/130] fix: GeoJSON output modified the properties of the
 geometry

---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index ef9dd34..a31e8a7 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -65,7 +65,7 @@ class GeoJSONOutMixin(object):
             for field in geom.data.fields:
                 data[field] = geom.d[field]
 
-        properties = geom.properties
+        properties = dict(geom.properties)
         properties.update(data)
         return picogeojson.Feature(g, properties, None, g.crs)
 
-- 
2.43.0


From 06f846bf341b4b829698c5c25c665d398cb86e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 025/130] fix: GeoJSON sub-polygon rings were not closed

---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index a31e8a7..c8313f6 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -49,7 +49,7 @@ class GeoJSONOutMixin(object):
         elif geom._geotype == "Polygon":
             verts = [_as_nested_lists(geom.vertices_ring)]
             for sub in geom.subs:
-                verts.append(_as_nested_lists(sub.vertices()))
+                verts.append(_as_nested_lists(sub.vertices_ring))
             g = picogeojson.Polygon(verts, crs)
         elif geom._geotype == "Multipoint":
             g = picogeojson.MultiPoint(_as_nested_lists(geom.vertices()), crs)
-- 
2.43.0


From be7efc18bc66a67074624a826d2539b322421e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 026/130] fix: GeoJSON output in WGS84 dropped sub-polygons

---
 karta/vector/_geojson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index c8313f6..d411f3b 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -91,6 +91,9 @@ class GeoJSONOutMixin(object):
             kw = dict(properties=self.properties, crs=LonLatWGS84)
             if hasattr(self, "data"):
                 kw["data"] = self.data
+            if hasattr(self, "subs"):
+                kw["subs"] = [type(sub)(sub.vertices(crs=LonLatWGS84), crs=LonLatWGS84)
+                              for sub in self.subs]
             if hasattr(self, "vertices"):
                 vertices = self.vertices(crs=LonLatWGS84)
             else:
-- 
2.43.0


From 3211c7f41e8ec68c90af72af1252e0ef7875eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 027/130] fix: to_geojson hid the error when a file could not
 be opened

---
 karta/vector/_geojson.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index d411f3b..9ede406 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -123,11 +123,11 @@ class GeoJSONOutMixin(object):
         urn : str, optional
             overrides GeoJSON CRS with provided URN string
         """
+        if not hasattr(f, "write"):
+            fobj = open(f, "w")
+        else:
+            fobj = f
         try:
-            if not hasattr(f, "write"):
-                fobj = open(f, "w")
-            else:
-                fobj = f
             fobj.write(self.as_geojson(indent=indent, urn=urn,
                                        force_wgs84=force_wgs84))
         finally:
-- 
2.43.0


From be8ad26c4371ef3453d04a5312f6a19926941157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 028/130] fix: sub-polygons read from GeoJSON were not
 geometries

---
 karta/vector/read.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 05411a2..8014aab 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -88,9 +88,8 @@ def read_geojson(f, crs=LonLatWGS84):
             kw.setdefault("data", {})
             kw["properties"].update(kw["data"])
             del kw["data"]
-            return geometry.Polygon(geom.coordinates[0],
-                                    subs=geom.coordinates[1:],
-                                    **kw)
+            subs = [geometry.Polygon(ring, crs=crs) for ring in geom.coordinates[1:]]
+            return geometry.Polygon(geom.coordinates[0], subs=subs, **kw)
         elif isinstance(geom, picogeojson.MultiPoint):
             return geometry.Multipoint(geom.coordinates, **kw)
         elif isinstance(geom, picogeojson.MultiLineString):
-- 
2.43.0


From 85c7c069934c09f70b65ed49491791928667d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 029/130] fix: from_shape ignored the properties argument

---
 karta/vector/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 8014aab..138a94d 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -18,7 +18,7 @@ from .. import errors
 def from_shape(obj, properties=None):
     """ Read a __geo_interface__ dictionary and return an appropriate karta
     object """
-    return _from_shape(obj.__geo_interface__, None)
+    return _from_shape(obj.__geo_interface__, properties)
 
 def _from_shape(d, properties):
     if d is None:
-- 
2.43.0


From 51a2d3ccbd8efbdc6ed69a769aa85ffadb1b81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 030/130] fix: sub-polygons read from shapefiles lacked the
 coordinate system

---
 karta/vector/read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 138a94d..8b02604 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -185,6 +185,8 @@ def ogr_read_shapefile(stem):
             geoms.append(g)
         elif g is not None:
             g.crs = crs
+            for sub in getattr(g, "subs", ()):
+                sub.crs = crs
             geoms.append(g)
     return geoms
 
-- 
2.43.0


From 562c3ee6292be5ebeceb59a857df60860caa7ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 031/130] fix: Multipolygons could not be written to shapefiles

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 4e3d21f..f560085 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -332,7 +332,7 @@ def ogr_asMultiLineString(gi):
     return geom
 
 def ogr_asMultiPolygon(gi):
-    geom = ogr.Geometry(5)
+    geom = ogr.Geometry(6)
     for polygon in gi["coordinates"]:
         ogr_polygon = ogr.Geometry(3)
         for ring in polygon:
-- 
2.43.0


From 7d9b4c860d77b5322a5a04bab08f6822924a6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 032/130] fix: MultiLineStringZ shapefile geometries were
 rejected

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index f560085..040e310 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -125,7 +125,7 @@ def ogr_read_geometry(geom):
         jsontype = 'MultiPoint'
         pts = [geom.GetGeometryRef(i).GetPoints()[0]
                for i in range(geom.GetGeometryCount())]
-    elif wkbtype in ('MultiLineString', 'MultiLineString25D', 'MultiLinStringZ', 
+    elif wkbtype in ('MultiLineString', 'MultiLineString25D', 'MultiLineStringZ',
                      'MultiLineStringM', 'MultiLineStringZM'):
         jsontype = 'MultiLineString'
         pts = [geom.GetGeometryRef(i).GetPoints()
-- 
2.43.0


From 4ee780edcdcd2e8ca54ce856cebc6c2d4f238bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 033/130] fix: GPX waypoints could not be read

---
 karta/vector/_gpx.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 598a4a7..856307b 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -151,10 +151,8 @@ class GPX(object):
         return
 
     def parse_wpt(self, wpt):
-        """ Parse a <wpt> node, updating self.waypoints. """
-        point = self._readwpt(wpt)
-        name = wpt.properties.get("name", "waypoint_" + str(len(self.waypoints)))
-        self.waypoints[name] = point
+        """ Parse a <wpt> node, updating self.waypts. """
+        self.waypts.append(self._readwpt(wpt))
         return
 
     def parse_trk(self, trk):
-- 
2.43.0


From 50ed1b2b8849b1c46186bf1c363c38bd859da0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 034/130] fix: GPX routes with point data could not be added

---
 karta/vector/_gpx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 856307b..095a206 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -276,9 +276,9 @@ class GPX(object):
         points = []
         for i, vertex in enumerate(route.vertices()):
             prop = {}
-            if route.data is not None:
+            if getattr(route, "data", None) is not None:
                 for k in route.data.fields:
-                    prop[k] = route.data[k][i]
+                    prop[k] = route.d[k][i]
             points.append(Point((vertex[0], vertex[1]), prop, {}))
         self.routes.append(Route(points, route.properties, {}))
         return
-- 
2.43.0


From 1602797ebeff8cf221e073ac70c0186a7cef0f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 035/130] fix: GPX tracks confused properties and extensions
 and rejected Lines

---
 karta/vector/_gpx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 095a206..cbc2357 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -220,7 +220,7 @@ class GPX(object):
                 if key in VALID_PROPERTIES:
                     properties[key] = str(attributes[key])
                 else:
-                    properties[key] = str(attributes[key])
+                    extensions[key] = str(attributes[key])
 
         for line in tracks:
             points = []
@@ -233,7 +233,7 @@ class GPX(object):
                 else:
                     sg_extensions[key] = str(line.properties[key])
 
-            if line.data is not None:
+            if getattr(line, "data", None) is not None:
                 pt_properties = [k for k in line.data.fields if k in VALID_PROPERTIES]
                 pt_extensions = [k for k in line.data.fields if k not in VALID_PROPERTIES]
             else:
@@ -246,8 +246,8 @@ class GPX(object):
                 ptexte = {}
                 for key in pt_properties:
                     ptprop[key] = line.d[key][i]
-                    if len(xy) == 3:
-                        ptprop["ele"] = xy[2]
+                if len(xy) == 3:
+                    ptprop["ele"] = xy[2]
                 for key in pt_extensions:
                     ptexte[key] = line.d[key][i]
 
-- 
2.43.0


From 54a0d2ad8029d2ee8efd5bcb068228f71886afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 036/130] fix: GPX extensions were read back as properties

---
 karta/vector/_gpx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index cbc2357..0e1c50e 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -158,13 +158,13 @@ class GPX(object):
     def parse_trk(self, trk):
         """ Parse a <trk> node, updating self.tracks. """
         segments = []
-        trkproperties = self._readproperties(trk, exclude=("trkseg",))
+        trkproperties = self._readproperties(trk, exclude=("trkseg", "extensions"))
         trkextensions = self._readextensions(trk)
 
         for trkseg in trk.findall(ns + "trkseg"):
 
             points = [self._readwpt(trkpt) for trkpt in trkseg.findall(ns + "trkpt")]
-            properties = self._readproperties(trkseg, exclude=("trkpt",))
+            properties = self._readproperties(trkseg, exclude=("trkpt", "extensions"))
             extensions = self._readextensions(trkseg)
             segments.append(Trkseg(points, properties, extensions))
 
@@ -172,7 +172,7 @@ class GPX(object):
         return
 
     def parse_rte(self, rte):
-        properties = self._readproperties(rte, exclude=("rtept",))
+        properties = self._readproperties(rte, exclude=("rtept", "extensions"))
         extensions = self._readextensions(rte)
         points = [self._readwpt(rtept) for rtept in rte.findall(ns + "rtept")]
         self.routes.append(Route(points, properties, extensions))
-- 
2.43.0


From 041ac2053d85ef97cfdb686bd0e607c4634e3741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 037/130] fix: karta.vector exported a name that does not exist

---
 karta/vector/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/karta/vector/__init__.py b/karta/vector/__init__.py
index 656b2ca..2e3c034 100644
--- a/karta/vector/__init__.py
+++ b/karta/vector/__init__.py
@@ -27,7 +27,6 @@ from ._shp import write_shapefile
 __all__ = ["geometry", "geojson", "gpx",
            "Point", "Line", "Polygon",
            "Multipoint", "Multiline", "Multipolygon",
-           "multipart_from_singleparts",
            "Table",
            "read_geojson", "read_shapefile", "write_shapefile"]
 
-- 
2.43.0


From fdff56a2ccd879dd6cca814aa0bd01ff1813658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 038/130] fix: bilinear sampling of integer grids read outside
 the grid

---
 karta/raster/crfuncs.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karta/raster/crfuncs.pyx b/karta/raster/crfuncs.pyx
index de7b055..cc0de43 100644
--- a/karta/raster/crfuncs.pyx
+++ b/karta/raster/crfuncs.pyx
@@ -109,10 +109,13 @@ def sample_bilinear_int(double[:] I not None, double[:] J not None,
             j0 = int(j)
             j1 = int(j + 1.0)
 
-        out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
-                     + float(Z[i1,j0]) * (i-i0) * (j1-j) \
-                     + float(Z[i0,j1]) * (i1-i) * (j-j0) \
-                     + float(Z[i1,j1]) * (i-i0) * (j-j0))
+        if i0 >= 0 and i1 < m and j0 >= 0 and j1 < n:
+            out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
+                         + float(Z[i1,j0]) * (i-i0) * (j1-j) \
+                         + float(Z[i0,j1]) * (i1-i) * (j-j0) \
+                         + float(Z[i1,j1]) * (i-i0) * (j-j0))
+        else:
+            out[cnt] = na
     return out
 
 def sample_bilinear_double(double[:] I not None, double[:] J not None,
-- 
2.43.0


From 8a56844a9199c2bb8e5acc14263230c1a03f6800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 039/130] fix: data_extent initialized an x bound from a y
 coordinate

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ea5ba91..779a334 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -419,7 +419,7 @@ class RegularGrid(Grid):
         ty = y0
         lx = x0 + nx*dx
         ly = y0
-        rx = y0
+        rx = x0
         ry = y0
 
         jvec = np.arange(nx)
-- 
2.43.0


From 8c2982396321ce0fad5af5c49e3e783c348d32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 040/130] fix: aschunks never ended on grids with fewer than
 four rows or columns

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 779a334..f5c845c 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -498,7 +498,7 @@ class RegularGrid(Grid):
         """
         ny, nx = self.size
         if size == (-1, -1):
-            size = (nx//4, ny//4)
+            size = (max(nx//4, 1), max(ny//4, 1))
 
         i0 = 0
         j0 = 0
-- 
2.43.0


From 68db3598685d3959bba26661eaf30f1b4256ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 041/130] fix: clipping to a box beyond the grid returned
 misplaced cells

---
 karta/raster/grid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index f5c845c..f79378c 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -550,10 +550,11 @@ class RegularGrid(Grid):
         ul = self.positions(xmin, ymax)
         ur = self.positions(xmax, ymax)
 
-        i0 = int(np.ceil(min(ll[0], lr[0], ul[0], ur[0])))
-        i1 = int(np.floor(max(ll[0], lr[0], ul[0], ur[0]))) + 1
-        j0 = int(np.ceil(min(ll[1], lr[1], ul[1], ur[1])))
-        j1 = int(np.floor(max(ll[1], lr[1], ul[1], ur[1]))) + 1
+        ny, nx = self.size
+        i0 = max(int(np.ceil(min(ll[0], lr[0], ul[0], ur[0]))), 0)
+        i1 = min(int(np.floor(max(ll[0], lr[0], ul[0], ur[0]))) + 1, ny)
+        j0 = max(int(np.ceil(min(ll[1], lr[1], ul[1], ur[1]))), 0)
+        j1 = min(int(np.floor(max(ll[1], lr[1], ul[1], ur[1]))) + 1, nx)
 
         values = self[i0:i1,j0:j1].copy()
         x0 = t[0] + j0*t[2] + i0*t[4]
-- 
2.43.0


From 10e614790a4883cd294aa76377acef7786d22d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 042/130] fix: merged grids could be offset by one cell

---
 karta/raster/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index f79378c..f833f3c 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1209,8 +1209,8 @@ def merge(grids, weights=None):
 
         for grid, weight in zip(grids, normalizedweights):
             _xmin, _xmax, _ymin, _ymax = grid.extent(reference='edge')
-            offx = int((_xmin-xmin) / T[2])
-            offy = int((_ymin-ymin) / T[3])
+            offx = int(round((_xmin-xmin) / T[2]))
+            offy = int(round((_ymin-ymin) / T[3]))
             _ny, _nx = grid.size
 
             mask = grid.data_mask
-- 
2.43.0


From 24d5b5f764419ee744a6727b8c0f1d51d2aeb9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 043/130] fix: merging grids discarded cells with nodata in any
 other band

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index f833f3c..a0e71a4 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1213,7 +1213,7 @@ def merge(grids, weights=None):
             offy = int(round((_ymin-ymin) / T[3]))
             _ny, _nx = grid.size
 
-            mask = grid.data_mask
+            mask = grid.data_mask_full[:,:,iband]
             counts[offy:offy+_ny,offx:offx+_nx][mask] += weight
             _bnd = grid.bands[iband]
             values[offy:offy+_ny,offx:offx+_nx][mask] += typ(_bnd.getblock(0, 0, *_bnd.size)[mask]) * weight
-- 
2.43.0


From 8e556fd685f747ec3fdd8a6047f0e43282486a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 044/130] fix: nearest sampling scrambled the bands of
 multi-band grids

---
 karta/raster/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index a0e71a4..2a8d30a 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -888,9 +888,9 @@ class RegularGrid(Grid):
         data[~out_of_bounds_mask, :] = self[Imn:Imx,Jmn:Jmx,:][I,J].reshape(sum(~out_of_bounds_mask), self.nbands)
 
         if x.ndim == 1:
-            return data.reshape(self.nbands, x.shape[0])
+            return data.T.reshape(self.nbands, x.shape[0])
         else:
-            return data.reshape(self.nbands, x.shape[0], x.shape[1])
+            return data.T.reshape(self.nbands, x.shape[0], x.shape[1])
 
     def sample_bilinear(self, x, y):
         """ Return the value nearest to coordinates using a bi-linear sampling
-- 
2.43.0


From 91cfc76cc67535077ac723d5973c95cf932abcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 045/130] fix: nearest sampling failed when no point is on the
 grid

---
 karta/raster/grid.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 2a8d30a..3dfd8ea 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -868,24 +868,25 @@ class RegularGrid(Grid):
         I = I[~out_of_bounds_mask]
         J = J[~out_of_bounds_mask]
 
-        Imn = int(np.floor(I.min())-1)
-        Imx = int(np.ceil(I.max()+1))
-        Jmn = int(np.floor(J.min())-1)
-        Jmx = int(np.ceil(J.max()+1))
+        data = np.empty((out_of_bounds_mask.shape[0], self.nbands),
+                        dtype=self.bands[0].dtype)
+        data[out_of_bounds_mask, :] = self.nodata_value
 
-        Imn = max(Imn, 0)
-        Jmn = max(Jmn, 0)
-        Imx = min(Imx, self.size[0])
-        Jmx = min(Jmx, self.size[1])
+        if len(I) != 0:
+            Imn = int(np.floor(I.min())-1)
+            Imx = int(np.ceil(I.max()+1))
+            Jmn = int(np.floor(J.min())-1)
+            Jmx = int(np.ceil(J.max()+1))
 
-        I -= Imn
-        J -= Jmn
+            Imn = max(Imn, 0)
+            Jmn = max(Jmn, 0)
+            Imx = min(Imx, self.size[0])
+            Jmx = min(Jmx, self.size[1])
 
-        data = np.empty((out_of_bounds_mask.shape[0], self.nbands),
-                        dtype=self.bands[0].dtype)
+            I -= Imn
+            J -= Jmn
 
-        data[out_of_bounds_mask, :] = self.nodata_value
-        data[~out_of_bounds_mask, :] = self[Imn:Imx,Jmn:Jmx,:][I,J].reshape(sum(~out_of_bounds_mask), self.nbands)
+            data[~out_of_bounds_mask, :] = self[Imn:Imx,Jmn:Jmx,:][I,J].reshape(sum(~out_of_bounds_mask), self.nbands)
 
         if x.ndim == 1:
             return data.T.reshape(self.nbands, x.shape[0])
-- 
2.43.0


From 62796260725f5e5a9537cfee2ec4c33f0fc5bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 046/130] fix: to_geotiff ignored the tiled argument

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 3dfd8ea..7d31def 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1075,7 +1075,7 @@ class RegularGrid(Grid):
         compress: str or None, optional
             "PACKBITS" (default), "DEFLATE", "LZW", "LZMA", or None
         """
-        return _gdal.write(fnm, self, compress=compress, **kw)
+        return _gdal.write(fnm, self, compress=compress, tiled=tiled, **kw)
 
     def to_gtiff(self, *args, **kwargs):
         """ Alias for to_geotiff """
-- 
2.43.0


From fbdd005ccaef2630db02cdc9c26467fa86f42f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 047/130] fix: vertex_coords left the last row of vertices
 unset

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 7d31def..ab9767e 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -314,7 +314,7 @@ class RegularGrid(Grid):
         xcoords = np.empty((ny+1, nx+1))
         ycoords = np.empty((ny+1, nx+1))
         icol = np.arange(0, self.size[1]+1)
-        for i in range(self.size[0]):
+        for i in range(self.size[0]+1):
             xcoords[i,:] = t[0] + icol*t[2] + i*t[4]
             ycoords[i,:] = (t[1] + i*t[3] + icol*t[5])
         return xcoords, ycoords
-- 
2.43.0


From e57846121549d1880839047f978194b2ebfc5f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 048/130] fix: ASCII grids were written upside down, with
 brackets around values

---
 karta/raster/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ab9767e..bdfa868 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1119,7 +1119,9 @@ class RegularGrid(Grid):
             f = open(f, "w")
 
         try:
-            data_a = self[:,:].copy()
+            # rows are stored from north to south
+            data_a = np.where(self.data_mask_full[::-1,:,0], self[::-1,:,0],
+                              nodata_value)
             data_a[np.isnan(data_a)] = nodata_value
 
             f.write("NCOLS {0}\n".format(nx))
-- 
2.43.0


From 8d2cdec77cb41c247862602014a7e20cbb50a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 049/130] fix: grids with equal skews were written as unskewed
 ASCII grids

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index bdfa868..15cfef6 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1110,7 +1110,7 @@ class RegularGrid(Grid):
             raise errors.GridError("ESRI ASCII grids require isometric grid cells")
 
         sx, sy = self.skew
-        if sx != sy != 0.0:
+        if (sx != 0.0) or (sy != 0.0):
             raise errors.GridError("skewed grids cannot be written as ESRI ASCII")
 
         ny, nx = self.bands[0].size
-- 
2.43.0


From 57d80f33bf3f43ddee032ec7bed38bde15162cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 050/130] fix: nearest sampling outside the grid returned one
 value for all bands

---
 karta/raster/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 15cfef6..ce4d07e 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -857,7 +857,8 @@ class RegularGrid(Grid):
             if (0 <= i < m) and (0 <= j < n):
                 return np.atleast_1d(self[i,j])
             else:
-                return self.nodata_value
+                return np.full(self.nbands, self.nodata_value,
+                               dtype=self.bands[0].dtype)
 
         if not isinstance(x, np.ndarray):
             x = np.array(x)
-- 
2.43.0


From bb8915e7bee5768d0704d4972607c382c0946c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 051/130] fix: skewed GeoTIFFs were read with a wrong
 geotransform

---
 karta/raster/read.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index fd9279b..28fce94 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -43,12 +43,12 @@ def read_geotiff(fnm, in_memory=True, ibands=_gdal.ALL, **kw):
     """
     bands, hdr = _gdal.read(fnm, in_memory, ibands, **kw)
 
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if len(hdr["srs"]["proj4"]) == 0:
         # invalid or missing SRS information
@@ -95,12 +95,12 @@ def from_geotiffs(*fnms, **kw):
         hdrs.append(_h)
 
     hdr = hdrs[0]
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-- 
2.43.0


From 6478022222a723b1cfedfa9ecf5c0bb50741e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 052/130] fix: GeoTIFFs in geographical coordinates were read
 with a wrong ellipsoid

---
 karta/raster/_gdal.py | 4 ++--
 karta/raster/read.py  | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 8b2f906..88801d9 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -155,12 +155,12 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
         if sr is not None:
             hdr["srs"] = {"proj4": sr.ExportToProj4(),
                           "semimajor": sr.GetSemiMajor(),
-                          "flattening": sr.GetInvFlattening(),
+                          "semiminor": sr.GetSemiMinor(),
                           "name": sr.GetAttrValue('PROJCS')}
         else:
             hdr["srs"] = {"proj4": "",
                           "semimajor": 6370997.0,
-                          "flattening": 1.0 / 298.257223563,
+                          "semiminor": 6370997.0,
                           "name": "NA"}
 
         max_dtype = 0
diff --git a/karta/raster/read.py b/karta/raster/read.py
index 28fce94..1f3d545 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -54,8 +54,8 @@ def read_geotiff(fnm, in_memory=True, ibands=_gdal.ALL, **kw):
         # invalid or missing SRS information
         crs = Cartesian
     elif proj4_isgeodetic(hdr["srs"]["proj4"]):
-        geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-                                         f=hdr["srs"]["flattening"])
+        geodstr = "+a={a} +b={b}".format(a=hdr["srs"]["semimajor"],
+                                         b=hdr["srs"]["semiminor"])
         crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
     else:
         crs = ProjectedCRS(hdr["srs"]["proj4"], name=hdr["srs"]["name"])
@@ -103,8 +103,8 @@ def from_geotiffs(*fnms, **kw):
          'sy'       : hdr['sy']}
 
     if proj4_isgeodetic(hdr["srs"]["proj4"]):
-        geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-                                         f=hdr["srs"]["flattening"])
+        geodstr = "+a={a} +b={b}".format(a=hdr["srs"]["semimajor"],
+                                         b=hdr["srs"]["semiminor"])
         crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
     else:
         crs = ProjectedCRS(hdr["srs"]["proj4"], name=hdr["srs"]["name"])
-- 
2.43.0


From 29fd59fee8c09f41e3c9e642a713100b160cca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 053/130] fix: from_geotiffs ignored in_memory, mismatched
 files and missing coordinate systems

---
 karta/raster/read.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 1f3d545..a8fb015 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -77,7 +77,7 @@ def from_geotiffs(*fnms, **kw):
         if in_memory is True, this parameter is ignored and the returned grid
         will have bands of type karta.raster._gdal.GdalFileBand
     """
-    in_memory = kw.get("in_memory", True)
+    in_memory = kw.pop("in_memory", True)
     if len(fnms) == 0:
         raise ValueError("at least one filename must be provided")
     bands = []
@@ -85,12 +85,10 @@ def from_geotiffs(*fnms, **kw):
     for i, fnm in enumerate(fnms):
         _b, _h = _gdal.read(fnm, in_memory, 1, **kw)
         if (i != 0) and (len(hdrs) != 0):
-            for k, v in _h.items():
-                if (isinstance(v, float)
-                        and np.isnan(v) and not np.isnan(hdrs[-1].get(k, 0))):
-                    if v != hdrs[-1].get(k, np.nan):
-                        raise GridError("geotransform in {0} not equivalent to "
-                                        "a previous GeoTiff".format(fnm))
+            for k in ("xulcorner", "yulcorner", "dx", "dy", "sx", "sy", "srs"):
+                if _h[k] != hdrs[-1][k]:
+                    raise GridError("geotransform in {0} not equivalent to "
+                                    "a previous GeoTiff".format(fnm))
         bands.append(_b[0])
         hdrs.append(_h)
 
@@ -102,7 +100,10 @@ def from_geotiffs(*fnms, **kw):
          'sx'       : -hdr['sx'],
          'sy'       : hdr['sy']}
 
-    if proj4_isgeodetic(hdr["srs"]["proj4"]):
+    if len(hdr["srs"]["proj4"]) == 0:
+        # invalid or missing SRS information
+        crs = Cartesian
+    elif proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +b={b}".format(a=hdr["srs"]["semimajor"],
                                          b=hdr["srs"]["semiminor"])
         crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
-- 
2.43.0


From 60dba0707c55790ca736be41dcefda71d8bd7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 054/130] fix: GeoTIFF data types did not survive writing and
 reading

---
 karta/raster/_gdal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 88801d9..a9cdec1 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -96,6 +96,8 @@ def gdal_type(dtype):
         return osgeo.gdal.GDT_Byte
     elif dtype == np.uint16:
         return osgeo.gdal.GDT_UInt16
+    elif dtype == np.uint32:
+        return osgeo.gdal.GDT_UInt32
     elif dtype == np.int8:
         return osgeo.gdal.GDT_Byte      # transform -127 -- 127 to 0 -- 255
     elif dtype == np.int16:
@@ -107,6 +109,8 @@ def gdal_type(dtype):
     elif dtype == np.float64:
         return osgeo.gdal.GDT_Float64
     elif dtype == np.complex64:
+        return osgeo.gdal.GDT_CFloat32
+    elif dtype == np.complex128:
         return osgeo.gdal.GDT_CFloat64
     else:
         raise TypeError("GDAL equivalent to type {0} unknown".format(dtype))
-- 
2.43.0


From f9904f2b1f9904b3f6443e3a91afc6ed672fc24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 055/130] fix: iterating over a GDAL-backed band raised
 TypeError

---
 karta/raster/_gdal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index a9cdec1..b2f1dd8 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -45,8 +45,9 @@ class GdalFileBand(object):
         raise NotImplementedError()
 
     def __iter__(self):
-        for i in range(self.dataset.RasterYSize):
-            yield self[i,:]
+        ny, nx = self.size
+        for i in range(ny):
+            yield self.getblock(i, 0, 1, nx)[0]
 
     @property
     def size(self):
-- 
2.43.0


From 4b13c4b67dfca02d990907f4a68e6490ae8ad4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 056/130] fix: GeoTIFF data could remain unwritten after
 to_geotiff returned

---
 karta/raster/_gdal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index b2f1dd8..e5d8e75 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -250,6 +250,7 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
         band.SetNoDataValue(grid.nodata)
         band.WriteArray(grid[::-1,:,i])
 
+    dataset.FlushCache()
     band = None
     dataset = None
     return grid
-- 
2.43.0


From 63c94318335fe0e96dd95cc8ec06563d1e2bf688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 057/130] fix: R-tree splits left stale parents and bounding
 boxes

---
 karta/vector/rtree.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 32f1a42..e9cfa67 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -43,6 +43,7 @@ float maxf(float a, float b) {
 // forward declarations
 Node* rt_insert(Node*, Bbox*, int);
 Node* rt_choose_leaf(Node*, Bbox*);
+int rt_tighten_bbox(Node*);
 Node* rt_split(Node*);
 Node* rt_split_nonleaf(Node*);
 Node* rt_split_leaf(Node*);
@@ -223,6 +224,7 @@ Node* rt_insert(Node *root, Bbox *bbox, int index) {
         returned_root = rt_new_node(NONLEAF, root->strategy, root->maxchildren, NULL);
         add_node(returned_root, *outnode);
         add_node(returned_root, *outsibling);
+        rt_tighten_bbox(returned_root);
     } else {
         returned_root = *outnode;
     }
@@ -289,16 +291,16 @@ int rt_adjust_tree(Node *node, Node *sibling, Node **outnode, Node **outsibling)
 
         // if sibling provided, add it to parent
         if (sibling != NULL) {
-            addretval = add_node(node->parent, sibling);
+            addretval = add_node(parent, sibling);
             if (addretval == 1) {
-                sibling = rt_split(node->parent);
+                sibling = rt_split(parent);
             } else {
                 sibling = NULL;
             }
         }
 
         // propagate upward
-        node = node->parent;
+        node = parent;
     }
 
     if (sibling != NULL) {
@@ -474,6 +476,8 @@ Node* rt_split_leaf(Node *node) {
             }
         }
     }
+    rt_tighten_bbox(node);
+    rt_tighten_bbox(sibling);
 
     free(index_array);
     pool_destroy(pool);
@@ -586,6 +590,14 @@ Node* rt_split_nonleaf(Node *node) {
             }
         }
     }
+    for (i=0; i!=node->count; i++) {
+        ((Node**) node->children)[i]->parent = node;
+    }
+    for (i=0; i!=sibling->count; i++) {
+        ((Node**) sibling->children)[i]->parent = sibling;
+    }
+    rt_tighten_bbox(node);
+    rt_tighten_bbox(sibling);
 
     pool_destroy(pool);
     pool_destroy(node_pool);
-- 
2.43.0


From 3ead2622cf0eb44b661f7120dbbc1546c27334aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 058/130] fix: R-tree splits could seed both nodes with the
 same entry

---
 karta/vector/rtree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index e9cfa67..da7f2f2 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -663,6 +663,9 @@ int linear_pick_seeds(int nbboxes, Bbox **bboxes, int *seed0, int *seed1) {
         *seed0 = imaxymin;
         *seed1 = iminymax;
     }
+    if (*seed0 == *seed1) {
+        *seed1 = (*seed0 == 0) ? 1 : 0;
+    }
     return 0;
 }
 
-- 
2.43.0


From a62963c6d444bfcf76510b85a9dd805159374239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 059/130] fix: R-tree searches missed boxes without area or on
 the search boundary

---
 karta/vector/rtree.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index da7f2f2..9e41c82 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -697,8 +697,8 @@ float volume_expanded(Bbox *bbox0, Bbox *bbox1) {
 }
 
 int is_within(Bbox *outerbb, Bbox *testbb) {
-    if ((testbb->xmin > outerbb->xmin) && (testbb->xmax <= outerbb->xmax) &&
-        (testbb->ymin > outerbb->ymin) && (testbb->ymax <= outerbb->ymax)) {
+    if ((testbb->xmin >= outerbb->xmin) && (testbb->xmax <= outerbb->xmax) &&
+        (testbb->ymin >= outerbb->ymin) && (testbb->ymax <= outerbb->ymax)) {
         return 1;
     } else {
         return 0;
@@ -713,7 +713,8 @@ float bbox_intersection_area(Bbox *bb0, Bbox *bb1) {
 }
 
 int is_overlapping(Bbox *bb, Bbox *testbb) {
-    if (bbox_intersection_area(bb, testbb) > 0.0) {
+    if ((minf(bb->xmax, testbb->xmax) >= maxf(bb->xmin, testbb->xmin)) &&
+        (minf(bb->ymax, testbb->ymax) >= maxf(bb->ymin, testbb->ymin))) {
         return 1;
     } else {
         return 0;
-- 
2.43.0


From d2327fd4c2ac0b8c0f9d9f29b5fbf665b9a563e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 060/130] fix: R-tree searches ignored or overshot max_results

---
 karta/vector/rtree.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 9e41c82..896e036 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -138,7 +138,7 @@ Pool *rt_search_within(Node *node, Bbox *bbox, int max_results) {
     while (nfound != max_results) {
         active_node = (Node*) pool_pop(node_pool, node_pool->count-1);
         if (active_node->type == LEAF) {
-            for (j=0; j!=active_node->count; j++){
+            for (j=0; j!=active_node->count && nfound!=max_results; j++){
                 child_bbox = ((Bbox**) active_node->children)[j];
                 if (is_within(bbox, child_bbox) == 1) {
                     pool_add(index_pool, (char*) &(active_node->indices[j]));
@@ -170,15 +170,16 @@ Pool *rt_search_overlapping(Node *node, Bbox *bbox, int max_results) {
     Node *active_node = NULL;
     Node *child_node = NULL;
     Bbox *child_bbox = NULL;
-    int i = 0;
+    int nfound = 0;
     int j;
-    while (i != max_results) {
+    while (nfound != max_results) {
         active_node = (Node*) pool_pop(node_pool, node_pool->count-1);
         if (active_node->type == LEAF) {
-            for (j=0; j!=active_node->count; j++){
+            for (j=0; j!=active_node->count && nfound!=max_results; j++){
                 child_bbox = ((Bbox**) active_node->children)[j];
                 if (is_overlapping(bbox, child_bbox) == 1) {
                     pool_add(index_pool, (char*) &(active_node->indices[j]));
+                    nfound++;
                 }
             }
         } else if (active_node->type == NONLEAF) {
-- 
2.43.0


From 9ad42f88d01f9a29f9ea01bccddcb545e05fdb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 061/130] fix: freeing an R-tree leaked its nodes

---
 karta/vector/rtree.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 896e036..1ad8746 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -89,14 +89,15 @@ void rt_free(Node *node) {
         for (i=0; i!=node->count; i++) {
             free(((Bbox**) node->children)[i]);
         }
-        free(node->indices);
-        free(node->bbox);
-        free(node);
     } else if (node->type == NONLEAF) {
         for (i=0; i!=node->count; i++) {
             rt_free(((Node**) node->children)[i]);
         }
     }
+    free(node->children);
+    free(node->indices);
+    free(node->bbox);
+    free(node);
 }
 
 void print_bbox(Bbox *bb) {
-- 
2.43.0


From 81451d9a2ea3bb520f03ad9be6f0ae99ca0c9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 062/130] fix: R-tree searches leaked the search box

---
 karta/vector/rtree.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/vector/rtree.pyx b/karta/vector/rtree.pyx
index 51648b3..ced88de 100644
--- a/karta/vector/rtree.pyx
+++ b/karta/vector/rtree.pyx
@@ -1,5 +1,7 @@
 """ Cython wrapper for rtree """
 
+from libc.stdlib cimport free
+
 cdef extern from "rtree.h":
 
     cdef enum Strategy:
@@ -88,6 +90,7 @@ cdef class RTree:
         while result.count != 0:
             out.append((<int*> pool_pop(result, result.count-1))[0])
         pool_destroy(result)
+        free(bb)
         return out
 
     def search_overlapping(self, bbox, int max_results=-1):
@@ -105,5 +108,6 @@ cdef class RTree:
         while result.count != 0:
             out.append((<int*> pool_pop(result, result.count-1))[0])
         pool_destroy(result)
+        free(bb)
         return out
 
-- 
2.43.0


From 9f7735d451ec3282b73f88810bdeeac23f43d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 063/130] fix: R-trees of rank 3 geometries were indexed by
 their z coordinates

---
 karta/vector/rtree.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/rtree.pyx b/karta/vector/rtree.pyx
index ced88de..2bbcefb 100644
--- a/karta/vector/rtree.pyx
+++ b/karta/vector/rtree.pyx
@@ -57,8 +57,8 @@ cdef class RTree:
             bb = rt_new_bbox()
             bb.xmin = _bb[0]
             bb.ymin = _bb[1]
-            bb.xmax = _bb[2]
-            bb.ymax = _bb[3]
+            bb.xmax = _bb[len(_bb)//2]
+            bb.ymax = _bb[len(_bb)//2+1]
             root = rt_insert(root, bb, i)
             i += 1
 
-- 
2.43.0


From 6bf5ecdc31f28625b798653801c2b4f3c149aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 064/130] fix: quadtree searches leaked their result pool

---
 karta/vector/quadtree.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/quadtree.pyx b/karta/vector/quadtree.pyx
index 7769fd8..8cb202f 100644
--- a/karta/vector/quadtree.pyx
+++ b/karta/vector/quadtree.pyx
@@ -53,6 +53,7 @@ cdef extern from "quadtree.h":
     void qt_free_node(NodePtrUnion)
     Pool *qt_search_within(NodePtrUnion, Bbox*)
     char *pool_pop(Pool*, int)
+    void pool_destroy(Pool*)
 
 cdef class QuadTree:
     cdef int count
@@ -127,6 +128,7 @@ cdef class QuadTree:
             if idx[0] in self.duplicates:
                 out.extend(self.duplicates[idx[0]])
             out.append(idx[0])
+        pool_destroy(results)
         qt_free_bbox(bbox)
         return out
 
-- 
2.43.0


From 8e9181b1cfc508caa67bd0b91d7d99226fe4af55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 065/130] fix: divergence treated nodata values as data

---
 karta/raster/misc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/karta/raster/misc.py b/karta/raster/misc.py
index 7dd2140..aeee8c4 100644
--- a/karta/raster/misc.py
+++ b/karta/raster/misc.py
@@ -123,10 +123,9 @@ def divergence(grid, bands=(0, 1)):
     """
     if grid.skew != (0, 0):
         raise NotImplementedError("divergence calculations not implemented on skewed grids")
-    return RegularGrid(grid.transform,
-                       _div(grid[:,:,bands[0]],
-                            grid[:,:,bands[1]],
-                            grid.resolution),
+    U = np.where(grid.data_mask, grid[:,:,bands[0]].astype(np.float32), np.nan)
+    V = np.where(grid.data_mask, grid[:,:,bands[1]].astype(np.float32), np.nan)
+    return RegularGrid(grid.transform, _div(U, V, grid.resolution),
                        crs=grid.crs, nodata_value=np.nan)
 
 def _normed_potential_vectors(D, res=(1.0, 1.0)):
-- 
2.43.0


From ace4e0b1b5e32db39702b2aaddb6d38fa38da986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:19 +0000
Subject: [PATCH 066/130] fix: polar polygons contained the wrong points

---
 karta/vector/contains.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karta/vector/contains.pyx b/karta/vector/contains.pyx
index 0de0960..cc63b86 100644
--- a/karta/vector/contains.pyx
+++ b/karta/vector/contains.pyx
@@ -67,7 +67,7 @@ def contains_proj(double x, double y, CoordString poly, object crs):
         if az1 - az0 < -180:
             # ccw
             sum_az += (az1-az0) + 360
-        elif az0 - az1 > 180:
+        elif az1 - az0 > 180:
             # cc
             sum_az += (az1-az0) - 360
         else:
@@ -77,8 +77,9 @@ def contains_proj(double x, double y, CoordString poly, object crs):
         x0 = x1
         y0 = y1
 
-    if fabs(sum_az) > 1e-4:
-        return False
-    else:
+    # the azimuth makes a full turn only if the point is enclosed
+    if fabs(sum_az) > 180:
         return True
+    else:
+        return False
 
-- 
2.43.0


From 6912bde89f367aa3838a74d76a4ce0151574f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:42 +0000
Subject: [PATCH 067/130] fix: modifying a table changed the tables and lists
 it was made from

---
 karta/vector/geometry.py | 2 +-
 karta/vector/table.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index a2d3185..e99d8cd 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1209,7 +1209,7 @@ class Multipart(Geometry):
     def __init__(self, inputs, data=None, **kwargs):
         super(Multipart, self).__init__(**kwargs)
         if isinstance(data, Table):
-            self.data = data
+            self.data = Table(data)
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
         else:
diff --git a/karta/vector/table.py b/karta/vector/table.py
index 3e88582..b305167 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -36,7 +36,7 @@ class Table(Sequence):
             if hasattr(data, "_fields"):
                 # Data is Table-like
                 self._fields = data._fields
-                self._data = data._data
+                self._data = list(data._data)
             elif len(data) == 0:
                 # Data is empty dict or empty iterable
                 self._fields = ()
@@ -64,7 +64,7 @@ class Table(Sequence):
                     not isinstance(data[0], str) and (len(data[0]) != len(fields))):
                 raise ValueError("Length of data entries and fields don't match")
             self._fields = tuple(fields)
-            self._data = data
+            self._data = list(data)
 
         if checktypes:
             self._validatetypes()
-- 
2.43.0


From b38e4276a4659693ffe7c4ac9319967df135eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:35 +0000
Subject: [PATCH 068/130] fix: full slices of Polygons dropped their
 sub-polygons

---
 karta/vector/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index e99d8cd..3de2877 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1029,6 +1029,9 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
                 return Line(self._vertices.slice(start, stop, stride),
                             properties=self.properties,
                             crs=self.crs)
+            return Polygon(self._vertices.slice(start, stop, stride),
+                           subs=self.subs, properties=self.properties,
+                           crs=self.crs)
         return super(Polygon, self).__getitem__(key)
 
     def __add__(self, other):
-- 
2.43.0


From 20c244868cef71ec0c6debc39403b36c2125da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:08 +0000
Subject: [PATCH 069/130] fix: polygons read through the geo interface repeated
 their first vertex

---
 karta/vector/read.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 8b02604..0cd94d8 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -20,6 +20,12 @@ def from_shape(obj, properties=None):
     object """
     return _from_shape(obj.__geo_interface__, properties)
 
+def _open_ring(ring):
+    """ Return the vertices of a linear ring without the repeated final vertex """
+    if len(ring) > 1 and tuple(ring[0]) == tuple(ring[-1]):
+        return ring[:-1]
+    return ring
+
 def _from_shape(d, properties):
     if d is None:
         return None
@@ -35,13 +41,14 @@ def _from_shape(d, properties):
         elif d["type"] == "LineString":
             return geometry.Line(c, properties=properties)
         elif d["type"] == "Polygon":
-            subs = [geometry.Polygon(c[i]) for i in range(1, len(c))]
-            return geometry.Polygon(c[0], properties=properties, subs=subs)
+            subs = [geometry.Polygon(_open_ring(c[i])) for i in range(1, len(c))]
+            return geometry.Polygon(_open_ring(c[0]), properties=properties, subs=subs)
         elif d["type"] == "MultiPoint":
             return geometry.Multipoint(c, properties=properties)
         elif d["type"] == "MultiLineString":
             return geometry.Multiline(c, properties=properties)
         elif d["type"] == "MultiPolygon":
+            c = [[_open_ring(ring) for ring in part] for part in c]
             return geometry.Multipolygon(c, properties=properties)
         else:
             raise NotImplementedError("Geometry type {0} not "
-- 
2.43.0


From c725fa451a9e8b5ef2709aca808ad23723333c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:29 +0000
Subject: [PATCH 070/130] fix: extent of grids whose skew and cell size differ
 in sign

---
 karta/raster/grid.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ce4d07e..d0ece28 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -362,16 +362,10 @@ class RegularGrid(Grid):
         dx, dy = self._transform[2:4]
         sx, sy = self._transform[4:]
 
-        sgn = lambda a: 0 if a==0 else a/abs(a)
-        if sgn(dx) == sgn(sx):
-            x1 = x0 + dx*(nx+n) + sx*(ny+n)
-        else:
-            x1 = x0 + dx*(nx+n) - sx*(ny+n)
-
-        if sgn(dy) == sgn(sy):
-            y1 = y0 + dy*(ny+n) + sy*(nx+n)
-        else:
-            y1 = y0 + dy*(ny+n) - sy*(nx+n)
+        xs = [x0 + p*dx*(nx+n) + q*sx*(ny+n) for p in (0, 1) for q in (0, 1)]
+        ys = [y0 + p*dy*(ny+n) + q*sy*(nx+n) for p in (0, 1) for q in (0, 1)]
+        x0, x1 = min(xs), max(xs)
+        y0, y1 = min(ys), max(ys)
 
         if crs is None or (crs == self.crs):
             (a, b, c, d) = min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1)
-- 
2.43.0


From 487b7f9767cde72e589a52775af566e6842cb3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:47 +0000
Subject: [PATCH 071/130] fix: data_extent of grids with negative cell sizes,
 skew or several bands

---
 karta/raster/grid.py | 48 ++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index d0ece28..db39bbd 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -407,45 +407,37 @@ class RegularGrid(Grid):
         ny, nx = self.size
 
         # Reading a row is fast, so process from bottom to top
-        bx = x0
-        by = y0 + ny*dy
-        tx = x0
-        ty = y0
-        lx = x0 + nx*dx
-        ly = y0
-        rx = x0
-        ry = y0
+        bx = by = lx = ly = np.inf
+        tx = ty = rx = ry = -np.inf
 
         jvec = np.arange(nx)
 
         for i, row in enumerate(self[:,:]):
-            x = (x0 + jvec*dx + i*sx)[isdata(row.squeeze())]
-            y = (y0 + i*dy + jvec*sy)[isdata(row.squeeze())]
+            mask = isdata(row.reshape(nx, -1)).all(axis=-1)
+            x = (x0 + jvec*dx + i*sx)[mask]
+            y = (y0 + i*dy + jvec*sy)[mask]
 
             if len(x) != 0:
 
-                xmax, xmin = x.max(), x.min()
-                ymax, ymin = y.max(), y.min()
-                if ymin < by:
-                    by = ymin
-                    bx = x[y==ymin]
-                if ymax > ty:
-                    ty = ymax
-                    tx = x[y==ymax]
-                if xmin < lx:
-                    lx = xmin
-                    ly = y[x==xmin]
-                if xmax > rx:
-                    rx = xmax
-                    ry = y[x==xmax]
+                if y.min() < by:
+                    by, bx = y.min(), x[y.argmin()]
+                if y.max() > ty:
+                    ty, tx = y.max(), x[y.argmax()]
+                if x.min() < lx:
+                    lx, ly = x.min(), y[x.argmin()]
+                if x.max() > rx:
+                    rx, ry = x.max(), y[x.argmax()]
+
+        if not np.isfinite(lx):
+            return (np.nan, np.nan, np.nan, np.nan)
 
         if reference == 'center':
             pass
         elif reference == 'edge':
-            lx -= 0.5*dx - 0.5*sx
-            rx += 0.5*dx + 0.5*sx
-            by -= 0.5*dy - 0.5*sy
-            ty += 0.5*dy + 0.5*sy
+            lx -= 0.5*abs(dx) + 0.5*abs(sx)
+            rx += 0.5*abs(dx) + 0.5*abs(sx)
+            by -= 0.5*abs(dy) + 0.5*abs(sy)
+            ty += 0.5*abs(dy) + 0.5*abs(sy)
         else:
             raise errors.GridError("`reference` must be 'center' or 'edge'")
 
-- 
2.43.0


From aa437601794aa90b806f106fdb06ff406972ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 072/130] fix: resize of grids with negative cell sizes or skew

---
 karta/raster/grid.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index db39bbd..e2897ef 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -567,36 +567,40 @@ class RegularGrid(Grid):
             else:
                 return a//1+1
 
-        bb = self.bbox()
         bbnew = list(bboxnew)
-        dx, dy, sx, sy = self.transform[2:]
+        ox, oy, dx, dy, sx, sy = self.transform
 
         # Redefine output box dimensions to be an integer factor of dx, dy
-        bbnew[2] = bbnew[0] + dx*math.ceil((bbnew[2]-bbnew[0])/dx)
-        bbnew[3] = bbnew[1] + dy*math.ceil((bbnew[3]-bbnew[1])/dy)
-
         ny, nx = self.size
-        nxnew = int(_round((bbnew[2]-bbnew[0])/dx))
-        nynew = int(_round((bbnew[3]-bbnew[1])/dy))
-        Tnew = [bbnew[0], bbnew[1], dx, dy, sx, sy]
+        nxnew = int(math.ceil((bbnew[2]-bbnew[0])/abs(dx)))
+        nynew = int(math.ceil((bbnew[3]-bbnew[1])/abs(dy)))
+
+        # Corner at the first row and column of the new grid
+        x0 = bbnew[0] if dx > 0 else bbnew[0] + nxnew*abs(dx)
+        y0 = bbnew[1] if dy > 0 else bbnew[1] + nynew*abs(dy)
+
+        # Index offset of the new grid on the old grid
+        joff = int(_round((x0-ox)/dx))
+        ioff = int(_round((y0-oy)/dy))
+        Tnew = [x0 + ioff*sx, y0 + joff*sy, dx, dy, sx, sy]
 
         # determine the indices of existing data on the new grid
-        j0new = max(0,     int(_round((bb[0]-bbnew[0])/dx)))
-        j1new = min(nxnew, int(_round((bb[2]-bbnew[0])/dx)))
-        i0new = max(0,     int(_round((bb[1]-bbnew[1])/dy)))
-        i1new = min(nynew, int(_round((bb[3]-bbnew[1])/dy)))
+        j0new = max(0, -joff)
+        i0new = max(0, -ioff)
 
         # determine the indices of the data to copy on the old grid
-        j0 = max(0,  int(_round((bbnew[0]-bb[0])/dx)))
-        j1 = min(nx, int(_round((bbnew[2]-bb[0])/dx)))
-        i0 = max(0,  int(_round((bbnew[1]-bb[1])/dy)))
-        i1 = min(ny, int(_round((bbnew[3]-bb[1])/dy)))
+        j0 = max(0, joff)
+        j1 = min(nx, joff + nxnew)
+        i0 = max(0, ioff)
+        i1 = min(ny, ioff + nynew)
 
         newbands = []
         for band in self.bands:
             newband = self._bndcls((nynew, nxnew), dtype=band.dtype,
                                    initval=self.nodata)
-            newband.setblock(i0new, j0new, band.getblock(i0, j0, i1-i0, j1-j0))
+            if i1 > i0 and j1 > j0:
+                newband.setblock(i0new, j0new,
+                                 band.getblock(i0, j0, i1-i0, j1-j0))
             newbands.append(newband)
 
         gridnew = RegularGrid(Tnew, bands=newbands, crs=self.crs,
-- 
2.43.0


From 855c408c63e7601293a3f6842081906764edda75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 073/130] fix: sums and differences of grids took nodata cells
 as values

---
 karta/raster/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index e2897ef..06edeef 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -196,7 +196,9 @@ class RegularGrid(Grid):
     def __add__(self, other):
         if self._equivalent_structure(other):
             return RegularGrid(copy.copy(self.transform),
-                               values=self[:,:]+other[:,:],
+                               values=np.where(
+                                   self.data_mask_full & other.data_mask_full,
+                                   self[:,:,:]+other[:,:,:], self.nodata),
                                crs=self.crs, nodata_value=self.nodata)
         else:
             raise ValueError(self, other)
@@ -204,7 +206,9 @@ class RegularGrid(Grid):
     def __sub__(self, other):
         if self._equivalent_structure(other):
             return RegularGrid(copy.copy(self.transform),
-                               values=self[:,:]-other[:,:],
+                               values=np.where(
+                                   self.data_mask_full & other.data_mask_full,
+                                   self[:,:,:]-other[:,:,:], self.nodata),
                                crs=self.crs, nodata_value=self.nodata)
         else:
             raise ValueError(self, other)
-- 
2.43.0


From c16259a0bc24d9c087d315031814faf84873af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:24 +0000
Subject: [PATCH 074/130] fix: to_aai accepted grids with negative cell sizes

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 06edeef..e8509d5 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1101,7 +1101,7 @@ class RegularGrid(Grid):
                            "'corner'")
 
         dx, dy = self.resolution
-        if dx != dy:
+        if dx != dy or dx <= 0:
             raise errors.GridError("ESRI ASCII grids require isometric grid cells")
 
         sx, sy = self.skew
-- 
2.43.0


From b4b26e665d3e8b2318de3816f3176f4f21ee4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:51 +0000
Subject: [PATCH 075/130] fix: merge aligns skewed grids and grids with
 negative cell sizes

---
 karta/raster/grid.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index e8509d5..14b5ee3 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1167,11 +1167,15 @@ def merge(grids, weights=None):
 
     # Check grid offset
     excmsg = "grid %d not an integer translation from grid 1"
+    offsets = [(0, 0)]
     for i, grid in enumerate(grids[1:]):
-        if ((grid.transform[0]-T[0]) / float(T[2])) % 1 > 1e-15:
-            raise ValueError(excmsg % (i+2,))
-        if ((grid.transform[1]-T[1]) / float(T[3])) % 1 > 1e-15:
+        x = grid.transform[0] - T[0]
+        y = grid.transform[1] - T[1]
+        offy = (y - T[5]/float(T[2])*x) / (T[3] - T[4]*T[5]/float(T[2]))
+        offx = (x - T[4]/float(T[3])*y) / (T[2] - T[4]*T[5]/float(T[3]))
+        if abs(offx-round(offx)) > 1e-6 or abs(offy-round(offy)) > 1e-6:
             raise ValueError(excmsg % (i+2,))
+        offsets.append((int(round(offy)), int(round(offx))))
 
     # Check number of grid bands
     if len(set([len(grid.bands) for grid in grids])) != 1:
@@ -1185,17 +1189,11 @@ def merge(grids, weights=None):
 
     normalizedweights = weights * len(weights) / weights.sum()
 
-    # Compute final grid extent
-    xmin, xmax, ymin, ymax = grids[0].extent(reference='edge')
-    for grid in grids[1:]:
-        _xmin, _xmax, _ymin, _ymax = grid.extent(reference='edge')
-        xmin = min(xmin, _xmin)
-        xmax = max(xmax, _xmax)
-        ymin = min(ymin, _ymin)
-        ymax = max(ymax, _ymax)
-
-    nx = int(round((xmax-xmin) / T[2]))
-    ny = int(round((ymax-ymin) / T[3]))
+    # Compute final grid size and the position of its first cell
+    offy0 = min(offy for offy, _ in offsets)
+    offx0 = min(offx for _, offx in offsets)
+    ny = max(offy + grid.size[0] for (offy, _), grid in zip(offsets, grids)) - offy0
+    nx = max(offx + grid.size[1] for (_, offx), grid in zip(offsets, grids)) - offx0
 
     # Allocate data array and copy each grid's data
     typ = grids[0].bands[0].dtype
@@ -1205,10 +1203,9 @@ def merge(grids, weights=None):
         values = np.zeros([ny, nx], dtype=typ)
         counts = np.zeros([ny, nx], dtype=np.float32)
 
-        for grid, weight in zip(grids, normalizedweights):
-            _xmin, _xmax, _ymin, _ymax = grid.extent(reference='edge')
-            offx = int(round((_xmin-xmin) / T[2]))
-            offy = int(round((_ymin-ymin) / T[3]))
+        for grid, weight, (offy, offx) in zip(grids, normalizedweights, offsets):
+            offy -= offy0
+            offx -= offx0
             _ny, _nx = grid.size
 
             mask = grid.data_mask_full[:,:,iband]
@@ -1225,7 +1222,8 @@ def merge(grids, weights=None):
         band.setblock(0, 0, values)
         outbands.append(band)
 
-    Tmerge = [xmin, ymin] + list(T[2:])
+    Tmerge = [T[0] + offx0*T[2] + offy0*T[4],
+              T[1] + offy0*T[3] + offx0*T[5]] + list(T[2:])
     return RegularGrid(Tmerge, bands=outbands, crs=grids[0].crs,
                        nodata_value=grids[0].nodata)
 
-- 
2.43.0


From 45f849a716f5cc4ef44bdbabf0f8f91e1e9b4428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:51 +0000
Subject: [PATCH 076/130] fix: mask_poly accounts for the cell aspect ratio
 along polygon edges

---
 karta/raster/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 14b5ee3..d464521 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1361,7 +1361,7 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
 
                 for i in range(i0, i1):
                     if (0 <= i < ny):
-                        j = int(round((i-i0) * (x1-x0)/(y1-y0) + j0))
+                        j = int(round((i-i0) * (x1-x0)/(y1-y0) * td/tc + j0))
                         if j < nx:
                             mask[i, max(0, j):] += 1
 
@@ -1369,7 +1369,7 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
 
                 for i in range(i1, i0):
                     if (0 <= i < ny):
-                        j = int(round((i-i1) * (x1-x0)/(y1-y0) + j1))
+                        j = int(round((i-i1) * (x1-x0)/(y1-y0) * td/tc + j1))
                         if j < nx:
                             mask[i, max(0, j):] -= 1
 
-- 
2.43.0


From 151504f9c2f3a7ee2c8137c69bd32b3855c81724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 077/130] fix: bilinear sampling blended nodata values into
 results

---
 karta/raster/crfuncs.pyx | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/karta/raster/crfuncs.pyx b/karta/raster/crfuncs.pyx
index cc0de43..b4b0d06 100644
--- a/karta/raster/crfuncs.pyx
+++ b/karta/raster/crfuncs.pyx
@@ -66,13 +66,20 @@ def sample_bilinear_uint(double[:] I not None, double[:] J not None,
             j0 = int(j)
             j1 = int(j + 1.0)
 
-        if i0 >= 0 and i1 < m and j0 >= 0 and j1 < n:
+        # positions outside of the grid and cells blended with missing data are
+        # assigned the nodata value
+        if i0 < 0 or i1 >= m or j0 < 0 or j1 >= n:
+            out[cnt] = na
+        elif (Z[i0,j0] == na and i1 != i and j1 != j) or \
+                (Z[i1,j0] == na and i != i0 and j1 != j) or \
+                (Z[i0,j1] == na and i1 != i and j != j0) or \
+                (Z[i1,j1] == na and i != i0 and j != j0):
+            out[cnt] = na
+        else:
             out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
                          + float(Z[i1,j0]) * (i-i0) * (j1-j) \
                          + float(Z[i0,j1]) * (i1-i) * (j-j0) \
                          + float(Z[i1,j1]) * (i-i0) * (j-j0))
-        else:
-            out[cnt] = na
     return out
 
 def sample_bilinear_int(double[:] I not None, double[:] J not None,
@@ -109,13 +116,20 @@ def sample_bilinear_int(double[:] I not None, double[:] J not None,
             j0 = int(j)
             j1 = int(j + 1.0)
 
-        if i0 >= 0 and i1 < m and j0 >= 0 and j1 < n:
+        # positions outside of the grid and cells blended with missing data are
+        # assigned the nodata value
+        if i0 < 0 or i1 >= m or j0 < 0 or j1 >= n:
+            out[cnt] = na
+        elif (Z[i0,j0] == na and i1 != i and j1 != j) or \
+                (Z[i1,j0] == na and i != i0 and j1 != j) or \
+                (Z[i0,j1] == na and i1 != i and j != j0) or \
+                (Z[i1,j1] == na and i != i0 and j != j0):
+            out[cnt] = na
+        else:
             out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
                          + float(Z[i1,j0]) * (i-i0) * (j1-j) \
                          + float(Z[i0,j1]) * (i1-i) * (j-j0) \
                          + float(Z[i1,j1]) * (i-i0) * (j-j0))
-        else:
-            out[cnt] = na
     return out
 
 def sample_bilinear_double(double[:] I not None, double[:] J not None,
@@ -152,11 +166,18 @@ def sample_bilinear_double(double[:] I not None, double[:] J not None,
             j0 = int(j)
             j1 = int(j + 1.0)
 
-        if i0 >= 0 and i1 < m and j0 >= 0 and j1 < n:
+        # positions outside of the grid and cells blended with missing data are
+        # assigned the nodata value
+        if i0 < 0 or i1 >= m or j0 < 0 or j1 >= n:
+            out[cnt] = na
+        elif (Z[i0,j0] == na and i1 != i and j1 != j) or \
+                (Z[i1,j0] == na and i != i0 and j1 != j) or \
+                (Z[i0,j1] == na and i1 != i and j != j0) or \
+                (Z[i1,j1] == na and i != i0 and j != j0):
+            out[cnt] = na
+        else:
             out[cnt] = Z[i0,j0]*(i1-i)*(j1-j) + Z[i1,j0]*(i-i0)*(j1-j) \
                      + Z[i0,j1]*(i1-i)*(j-j0) + Z[i1,j1]*(i-i0)*(j-j0)
-        else:
-            out[cnt] = na
     return out
 
 @cython.cdivision(True)
-- 
2.43.0


From 2aee457cd83461b684b6eef3a99a15472f009fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:25 +0000
Subject: [PATCH 078/130] fix: bilinear sampling along the first row or column
 of cell centers

---
 karta/raster/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index d464521..d994c11 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -927,14 +927,14 @@ class RegularGrid(Grid):
         # compute only the region necessary
         if len(I) != 1:
             Imn = int(np.floor(I.min())-1)
-            Imx = int(np.ceil(I.max()+1))
+            Imx = int(np.ceil(I.max()+2))
             Jmn = int(np.floor(J.min())-1)
-            Jmx = int(np.ceil(J.max()+1))
+            Jmx = int(np.ceil(J.max()+2))
 
             Imn = max(Imn, 0)
             Jmn = max(Jmn, 0)
-            Imx = min(Imx, self.size[0])
-            Jmx = min(Jmx, self.size[1])
+            Imx = max(min(Imx, self.size[0]), 0)
+            Jmx = max(min(Jmx, self.size[1]), 0)
 
             I -= Imn
             J -= Jmn
@@ -946,7 +946,7 @@ class RegularGrid(Grid):
 
         data = []
         for i, band in enumerate(self.bands):
-            v = self[Imn:Imx,Jmn:Jmx,i].squeeze()
+            v = self[Imn:Imx,Jmn:Jmx,i]
             if band.dtype in (np.float32, np.float64):
                 data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value))
             elif band.dtype in (np.int16, np.int32, np.int64):
-- 
2.43.0


From b280ec3b74b5c6d60695b8d718ac4e030e868d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 079/130] fix: reading and writing empty windows of a grid

---
 karta/raster/band.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 7a27a7a..3133416 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -89,6 +89,9 @@ class BandIndexer(object):
         if xstep < 0:
             xstart, xend = xend+1, xstart+1
 
+        # empty windows
+        yend = max(ystart, yend)
+        xend = max(xstart, xend)
         shape = [1 + (yend-ystart-1) // abs(ystep),
                  1 + (xend-xstart-1) // abs(xstep),
                  len(bands)]
@@ -156,6 +159,9 @@ class BandIndexer(object):
             #if xstep < 0:
             #    xstart, xend = xend+1, xstart+1
 
+        # empty windows
+        yend = max(ystart, yend)
+        xend = max(xstart, xend)
         shape = [1 + (yend-ystart-1) // abs(ystep),
                  1 + (xend-xstart-1) // abs(xstep),
                  len(bands)]
-- 
2.43.0


From 204dcd025a0114a41a8ed0148c0b67a887d84d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 080/130] fix: assigning masked values to multiband grids

---
 karta/raster/band.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 3133416..f4dc638 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -190,6 +190,14 @@ class BandIndexer(object):
     def _set_from_array_mask(self, mask, value):
         # The mask is assumed to be in (row, column[, band]) order
         # TODO: make this memory efficient
+        if mask.ndim == 3 and getattr(value, "ndim", 0) == 1:
+            # values are ordered as returned by indexing with the same mask
+            tmp = self[:,:,:]
+            tmp[mask] = value
+            for i, band in enumerate(self.bands):
+                band.setblock(0, 0, tmp[:,:,i])
+            return
+
         for i, band in enumerate(self.bands):
 
             if mask.ndim == 3:
-- 
2.43.0


From 6ede3ca33a708ceff8f021093d6b384c56a986fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:48 +0000
Subject: [PATCH 081/130] fix: profiles and samples of grids with negative cell
 sizes and 3-d geometries

---
 karta/raster/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index d994c11..19bf632 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1004,7 +1004,7 @@ class RegularGrid(Grid):
             if args[0]._geotype == "Point":
                 x, y = args[0].vertex(crs=self.crs)[:2]
             elif args[0]._geotype == "Multipoint":
-                x, y = args[0].coords(crs=self.crs)
+                x, y = args[0].coords(crs=self.crs)[:2]
             else:
                 raise argerror
         else:
@@ -1050,9 +1050,9 @@ class RegularGrid(Grid):
             grid value at sample points
         """
         if resolution is None:
-            resolution = min(self.transform[2:4])
+            resolution = min(abs(r) for r in self.transform[2:4])
         points = line.to_points(resolution)
-        z = self.sample(*points.coords(crs=self.crs), **kw)
+        z = self.sample(*points.coords(crs=self.crs)[:2], **kw)
         if len(self.bands) != 1:
             for i in range(self.nbands):
                 points.data.setfield("band_{0}".format(i), z[i])
-- 
2.43.0


From fd1f4a082b3493e0fe38a447712c6cb12c638d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:10 +0000
Subject: [PATCH 082/130] fix: points along lines with z coordinates

---
 karta/vector/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 3de2877..d805e27 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -922,7 +922,7 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         """
         remainder = 0
         pt0 = self[0]
-        vertices = [pt0.vertex()]
+        vertices = [pt0.vertex()[:2]]
 
         for seg in self.segments:
             pos = 0
@@ -955,7 +955,7 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         step = Ltotal / float(n-1)
         step_remaining = step
 
-        vertices = [self[0].vertex()]
+        vertices = [self[0].vertex()[:2]]
         x = 0.0
         pos = self[0]
         seg = next(segments)
@@ -970,7 +970,7 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
                 seg_remaining -= step_remaining
                 step_remaining = step
                 vertices.append(pos.vertex())
-                seg._vertices[0] = np.array(pos._vertex, dtype=np.float64)
+                seg = Line([pos.vertex()[:2], seg[1].vertex()[:2]], crs=self.crs)
 
             else:
                 pos = seg[1]
@@ -981,7 +981,7 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
                 seg_remaining = seg.displacement()
 
         if len(vertices) == n-1:
-            vertices.append(seg[-1].vertex())
+            vertices.append(seg[-1].vertex()[:2])
         return Multipoint(vertices, crs=self.crs)
 
     def displacement(self):
-- 
2.43.0


From d5ede667f6d94cec9c177ea3362d23398be15616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:28 +0000
Subject: [PATCH 083/130] fix: bilinear sampling of 64-bit and unsigned 32-bit
 integer grids

---
 karta/raster/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 19bf632..3e60503 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -949,10 +949,13 @@ class RegularGrid(Grid):
             v = self[Imn:Imx,Jmn:Jmx,i]
             if band.dtype in (np.float32, np.float64):
                 data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value))
-            elif band.dtype in (np.int16, np.int32, np.int64):
+            elif band.dtype in (np.int16, np.int32):
                 data.append(crfuncs.sample_bilinear_int(I, J, v.astype(np.int32), self.nodata_value))
-            elif band.dtype in (np.uint8, np.uint16, np.uint32):
+            elif band.dtype in (np.uint8, np.uint16):
                 data.append(crfuncs.sample_bilinear_uint(I, J, v.astype(np.uint16), self.nodata_value))
+            elif band.dtype in (np.int64, np.uint32):
+                # values exceed the range of the integer versions
+                data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value).astype(band.dtype))
             else:
                 raise NotImplementedError("no sample_bilinear method for dtype:"
                                           " {0}".format(band.dtype))
-- 
2.43.0


From 097b2da07c8b1fa20060e5e5141d51c102e6f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:59 +0000
Subject: [PATCH 084/130] fix: polygons across the dateline are not polar

---
 karta/vector/geometry.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index d805e27..580d217 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1096,10 +1096,8 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         sum_angle = 0.0
         for vertex in self._vertices:
             lon1 = geodesy.reduce_deg(vertex[0])
-            if _cdateline.crosses_dateline(lon0, lon1):
-                sum_angle += 360.0 + lon1 - lon0
-            else:
-                sum_angle += lon1 - lon0
+            # east-to-west crossings (1) turn the other way than west-to-east (-1)
+            sum_angle += lon1 - lon0 - 360.0 * _cdateline.crosses_dateline(lon0, lon1)
             lon0 = lon1
 
         return True if abs(sum_angle) > 1e-4 else False
@@ -1188,14 +1186,15 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
 
         Notes
         -----
-        - When the polygon is polar in a geographical coordinate system, a less
-          efficient algorithm is used. For better performance, consider
-          projecting to an appropriate coordinate system such as NSIDCNorth or
-          NSIDCSouth beforehand.
+        - When the polygon is polar or crosses the dateline in a geographical
+          coordinate system, a less efficient algorithm is used. For better
+          performance, consider projecting to an appropriate coordinate system
+          such as NSIDCNorth or NSIDCSouth beforehand.
         - Otherwise, a planar algorithm is used.
         """
         x, y = point.vertex(crs=self.crs)[:2]
-        if isinstance(self.crs, GeographicalCRS) and self.ispolar():
+        if isinstance(self.crs, GeographicalCRS) and \
+                (self.ispolar() or self.crosses_dateline()):
             return _ccontains.contains_proj(x, y, self._vertices, self.crs) \
                     and not any(p.contains(point) for p in self.subs)
         else:
-- 
2.43.0


From 3f18448e880b59aa5604400bb940372d439f9436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:42 +0000
Subject: [PATCH 085/130] fix: comparison of multipart geometries with parts of
 different lengths

---
 karta/vector/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 580d217..bad42fc 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1230,8 +1230,7 @@ class Multipart(Geometry):
     def __eq__(self, other):
         try:
             return (self._geotype == other._geotype) and \
-                   (len(self._vertices) == len(other._vertices)) and \
-                   np.all(np.equal(self._vertices, other._vertices)) and \
+                   (_as_nested_tuples(self._vertices) == _as_nested_tuples(other._vertices)) and \
                    (self.data == other.data) and \
                    (self.properties == other.properties) and \
                    (self.crs == other.crs)
-- 
2.43.0


From 3ebf01b733469b23c4a24056979f25cf4246b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:47 +0000
Subject: [PATCH 086/130] fix: polygons with different holes are not equal

---
 karta/vector/geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index bad42fc..7016b55 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1034,6 +1034,13 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
                            crs=self.crs)
         return super(Polygon, self).__getitem__(key)
 
+    def __eq__(self, other):
+        return super(Polygon, self).__eq__(other) and \
+                (list(self.subs) == list(other.subs))
+
+    def __hash__(self):
+        return super(Polygon, self).__hash__()
+
     def __add__(self, other):
         rings = [[poly.vertices(self.crs)] + [sub.vertices(self.crs) for sub in poly.subs]
                  for poly in (self, other)]
-- 
2.43.0


From 1b211e386fea4e95d09e291785913395b1090bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:58 +0000
Subject: [PATCH 087/130] fix: longitudes of vertices beyond a dateline
 crossing in bounding boxes

---
 karta/vector/dateline.pyx | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/karta/vector/dateline.pyx b/karta/vector/dateline.pyx
index ebf0134..91d1765 100644
--- a/karta/vector/dateline.pyx
+++ b/karta/vector/dateline.pyx
@@ -43,15 +43,9 @@ def bbox(CoordString cs):
             ymin = fmin(ymin, segymin)
             ymax = fmax(ymax, segymax)
         xdateline = crosses_dateline(x0, x1)
-        if xdateline != 0:
-            rot -= xdateline * 360.0
-            xmin = fmin(xmin, x1+rot)
-            xmax = fmax(xmax, x1+rot)
-        else:
-            if x0 > x1:
-                xmin = fmin(xmin, x1)
-            else:
-                xmax = fmax(xmax, x1)
+        rot -= xdateline * 360.0
+        xmin = fmin(xmin, x1+rot)
+        xmax = fmax(xmax, x1+rot)
         x0 = x1
         y0 = y1
         i += 1
-- 
2.43.0


From 42faf1b38852e37088a62b64cdacff9a20b333fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:29 +0000
Subject: [PATCH 088/130] fix: bounding boxes of geographical rings around a
 pole span all longitudes

---
 karta/vector/dateline.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/vector/dateline.pyx b/karta/vector/dateline.pyx
index 91d1765..00fbdde 100644
--- a/karta/vector/dateline.pyx
+++ b/karta/vector/dateline.pyx
@@ -50,6 +50,10 @@ def bbox(CoordString cs):
         y0 = y1
         i += 1
 
+    if xmax - xmin >= 360.0:
+        # encircles a pole
+        return (-180.0, ymin, 180.0, ymax)
+
     xmin = (xmin+180) % 360 - 180
     xmax = (xmax+180) % 360 - 180
     return (xmin, ymin, xmax, ymax)
-- 
2.43.0


From f93c5987e285250ba8b827dce79a88b3f54d138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 089/130] fix: intersection tests of geographical lines
 crossing the dateline

---
 karta/vector/intersection.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index e4947c1..6101ac6 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -25,6 +25,9 @@ def bboxes_overlap(tuple bb0, tuple bb1):
     cdef float dy = 0.0
     dx = fmin(bb0[2], bb1[2]) - fmax(bb0[0], bb1[0])
     dy = fmin(bb0[3], bb1[3]) - fmax(bb0[1], bb1[1])
+    if bb0[0] > bb0[2] or bb1[0] > bb1[2]:
+        # at least one crosses the dateline, so x cannot be compared directly
+        dx = 1.0
     if dx == 0.0:
         dx = 1.0
     elif dx < 0.0:
-- 
2.43.0


From 1f008f1060c73efa2e24ad1a70f663f5917ebe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:32 +0000
Subject: [PATCH 090/130] fix: geographical systems read from WKT keep their
 datum

---
 karta/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index b9a47d5..57b6dd1 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -342,10 +342,10 @@ def crs_from_wkt(wkt):
         proj4 = srs.ExportToProj4()
         for arg in proj4.split():
             if "+ellps" in arg:
-                return GeographicalCRS(arg, "unnamed")
+                return GeographicalCRS(arg, "unnamed", datum="")
             if "+datum" in arg:
                 _,v = arg.split("=")
-                return GeographicalCRS("+ellps=%s" % DATUM_ELLIPSOIDS[v], v)
+                return GeographicalCRS("+ellps=%s" % DATUM_ELLIPSOIDS[v], v, datum=arg)
         raise errors.CRSError("Could not interpret %s as geographical CRS" % proj4)
     else:
         return ProjectedCRS(srs.ExportToProj4())
-- 
2.43.0


From 38c9b6d0db9a90cd3c3af9dec848822378169ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:18 +0000
Subject: [PATCH 091/130] fix: projection parameters starting like +a, +b or +f
 are not ellipsoid axes

---
 karta/crs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 57b6dd1..54cdb16 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -319,13 +319,13 @@ def parse_ellipsoid(projstring):
     elif ("+a" in projstring) and (("+b" in projstring) or ("+f" in projstring)):
         ename = "Unknown"
         for kv in projstring.split():
-            if kv.startswith("+a"):
+            if kv.startswith("+a="):
                 _, ela = kv.split("=")
                 ela = float(ela)
-            elif kv.startswith("+b"):
+            elif kv.startswith("+b="):
                 _, elb = kv.split("=")
                 elb = float(elb)
-            elif kv.startswith("+f"):
+            elif kv.startswith("+f="):
                 _, elf = kv.split("=")
                 elrf = 1.0/float(elf)
             if ela and (elb or elrf):
-- 
2.43.0


From bd73ab0ff7e447d900da438dd0bcb2c02c3795f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:01 +0000
Subject: [PATCH 092/130] fix: reading shapefiles with spherical coordinate
 systems

---
 karta/vector/read.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 0cd94d8..46ca6cd 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -206,8 +206,12 @@ def ogr_parse_srs(lyr):
     else:
         name = srs.GetAttrValue('PROJCS')
         if srs.IsGeographic():
-            spheroid = "+a={a} +f={f}".format(a=srs.GetSemiMajor(),
-                                              f=1.0/srs.GetInvFlattening())
+            if srs.GetInvFlattening() == 0:
+                # a sphere, which has no inverse flattening
+                spheroid = "+a={a} +b={a}".format(a=srs.GetSemiMajor())
+            else:
+                spheroid = "+a={a} +f={f}".format(a=srs.GetSemiMajor(),
+                                                  f=1.0/srs.GetInvFlattening())
             crs = GeographicalCRS(spheroid, name)
         else:
             crs = ProjectedCRS(srs.ExportToProj4(), name=name)
-- 
2.43.0


From 51753ca6779e487f2f2a10bb287f4052924ff217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:22 +0000
Subject: [PATCH 093/130] fix: reading GeoTiffs with a single row or column
 into memory

---
 karta/raster/_gdal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index e5d8e75..177aa11 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -183,7 +183,7 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
                 _arr = rb.ReadAsArray(buf_obj=np.empty([ny, nx], dtype=dtype))
                 if _arr is None:
                     raise IOError("error reading GDAL band {}".format(i+1))
-                bands[i].setblock(0, 0, _arr.squeeze()[::-1])
+                bands[i].setblock(0, 0, _arr[::-1])
         else:
             bands = [GdalFileBand(rb, dataset) for rb in rasterbands]
 
-- 
2.43.0


From 1cccfeee6b7b89fc91c0f194eeed3879fe28eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:22 +0000
Subject: [PATCH 094/130] fix: writing GeoTiffs of grids with Cartesian
 coordinates

---
 karta/raster/_gdal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 177aa11..c05956f 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -243,8 +243,9 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
     t = grid.transform
     dataset.SetGeoTransform([t[0] + ny*t[4], t[2], -t[4],
                              t[1] + ny*t[3], t[5], -t[3]])
-    srs = srs_from_crs(grid.crs)
-    dataset.SetProjection(srs.ExportToWkt())
+    if len(grid.crs.get_proj4()) != 0:
+        srs = srs_from_crs(grid.crs)
+        dataset.SetProjection(srs.ExportToWkt())
     for i, _ in enumerate(grid.bands):
         band = dataset.GetRasterBand(i+1)
         band.SetNoDataValue(grid.nodata)
-- 
2.43.0


From 36a0fce850243d19c69d563399408de990cebcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:22 +0000
Subject: [PATCH 095/130] fix: from_geotiffs refuses files of different sizes

---
 karta/raster/read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index a8fb015..4420788 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -85,7 +85,8 @@ def from_geotiffs(*fnms, **kw):
     for i, fnm in enumerate(fnms):
         _b, _h = _gdal.read(fnm, in_memory, 1, **kw)
         if (i != 0) and (len(hdrs) != 0):
-            for k in ("xulcorner", "yulcorner", "dx", "dy", "sx", "sy", "srs"):
+            for k in ("nx", "ny", "xulcorner", "yulcorner", "dx", "dy",
+                      "sx", "sy", "srs"):
                 if _h[k] != hdrs[-1][k]:
                     raise GridError("geotransform in {0} not equivalent to "
                                     "a previous GeoTiff".format(fnm))
-- 
2.43.0


From bc5667fb4b744ac7589b4df76f22020b5229d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 096/130] fix: extension types of GPX routes and their points

---
 karta/vector/_gpx.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 0e1c50e..ef1935c 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -274,13 +274,25 @@ class GPX(object):
         Needs to properly add and <ele> property for Lines of rank 3
         """
         points = []
+        properties = {}
+        extensions = {}
+        for key in route.properties:
+            if key in VALID_PROPERTIES:
+                properties[key] = str(route.properties[key])
+            else:
+                extensions[key] = str(route.properties[key])
+
         for i, vertex in enumerate(route.vertices()):
             prop = {}
+            exte = {}
             if getattr(route, "data", None) is not None:
                 for k in route.data.fields:
-                    prop[k] = route.d[k][i]
-            points.append(Point((vertex[0], vertex[1]), prop, {}))
-        self.routes.append(Route(points, route.properties, {}))
+                    if k in VALID_PROPERTIES:
+                        prop[k] = route.d[k][i]
+                    else:
+                        exte[k] = route.d[k][i]
+            points.append(Point((vertex[0], vertex[1]), prop, exte))
+        self.routes.append(Route(points, properties, extensions))
         return
 
     def as_string(self, waypts=True, tracks=True, routes=True):
-- 
2.43.0


From a050253ea6aeabda917280247132c18e0788d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 097/130] fix: elevations of GPX waypoints and routes

---
 karta/vector/_gpx.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index ef1935c..acbff6c 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -188,7 +188,10 @@ class GPX(object):
                 properties[key] = str(waypoint.properties[key])
             else:
                 extensions[key] = str(waypoint.properties[key])
-        waypt = Point(waypoint.vertex(), properties, extensions)
+        vertex = waypoint.vertex()
+        if len(vertex) == 3:
+            properties["ele"] = str(vertex[2])
+        waypt = Point((vertex[0], vertex[1]), properties, extensions)
         self.waypts.append(waypt)
         return
 
@@ -291,6 +294,8 @@ class GPX(object):
                         prop[k] = route.d[k][i]
                     else:
                         exte[k] = route.d[k][i]
+            if len(vertex) == 3:
+                prop["ele"] = vertex[2]
             points.append(Point((vertex[0], vertex[1]), prop, exte))
         self.routes.append(Route(points, properties, extensions))
         return
-- 
2.43.0


From 2465bfc1ebf1d2e769df9b0b36da050d060e064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 098/130] fix: extension types of GPX waypoints and tracks are
 read

---
 karta/vector/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 46ca6cd..b987cfa 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -233,12 +233,12 @@ def read_gpx_tracks(fnm):
 
 def _waypt2pt(waypt):
     return geometry.Point(waypt.lonlat,
-                          properties=waypt.properties,
+                          properties=dict(waypt.extensions, **waypt.properties),
                           crs=LonLatWGS84)
 
 def _seg2line(seg):
     return geometry.Line([pt.lonlat for pt in seg.trkpts],
-                         properties=seg.properties,
+                         properties=dict(seg.extensions, **seg.properties),
                          crs=LonLatWGS84)
 
 def _track2lines(track):
-- 
2.43.0


From 376b12cbc99b9bf61bc9c571535001b4a17297e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:19 +0000
Subject: [PATCH 099/130] fix: elements without text are not written as None to
 GPX

---
 karta/vector/_gpx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index acbff6c..79c910a 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -90,7 +90,8 @@ class GPX(object):
     def _dict2gpx(parent, properties):
         for p in properties:
             sub = Element(ns + p)
-            sub.text = str(properties[p])
+            if properties[p] is not None:
+                sub.text = str(properties[p])
             parent.append(sub)
         return parent
 
-- 
2.43.0


From 27752d8193615c06082a3d754351e6cc0065769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 100/130] fix: shapefiles with three-dimensional geometries

---
 karta/vector/_shp.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 040e310..1fec153 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -97,6 +97,13 @@ def get_geometry_type(gi):
     else:
         return gi["type"]
 
+def is_3d(coordinates):
+    """ Return whether nested lists of coordinates contain a vertex with three
+    coordinates. """
+    if len(coordinates) != 0 and hasattr(coordinates[0], "__len__"):
+        return any(is_3d(c) for c in coordinates)
+    return len(coordinates) == 3
+
 def ogr_get_polygon_points(poly):
     """ Return a list of lists of ogr.Polygon coordinate rings. """
     geoms = [poly.GetGeometryRef(i) for i in range(poly.GetGeometryCount())]
@@ -111,7 +118,7 @@ def ogr_read_geometry(geom):
     if wkbtype in ('Point', 'Point25D', 'PointZ', 'PointM', 'PointZM',
                    'NDR', 'XDR'):
         jsontype = 'Point'
-        pts = geom.GetPoint()
+        pts = geom.GetPoints()[0]
     elif wkbtype in ('LineString', 'LineString25D', 'LineStringZ',
                      'LineStringM', 'LineStringZM'):
         jsontype = 'LineString'
@@ -209,6 +216,8 @@ def ogr_write(fnm, *objs):
     # create layer
     geo_t = get_geometry_type(objs[0])
     ogr_t = OGRTYPES[geo_t]
+    if any(is_3d(obj["geometry"]["coordinates"]) for obj in objs):
+        ogr_t = ogr.GT_SetZ(ogr_t)
     layer_name = os.path.splitext(os.path.split(fnm)[1])[0]
     lyr = ds.CreateLayer(layer_name, srs, ogr_t)
     if lyr is None:
@@ -293,15 +302,23 @@ def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
     lyr.CreateFeature(feature)
     return
 
+def ogr_add_point(geom, pt):
+    """ Add the vertex *pt*, which has two or three coordinates, to an
+    ogr.Geometry. """
+    if len(pt) == 3:
+        geom.AddPoint(float(pt[0]), float(pt[1]), float(pt[2]))
+    else:
+        geom.AddPoint_2D(float(pt[0]), float(pt[1]))
+
 def ogr_asPoint(gi):
     geom = ogr.Geometry(1)
-    geom.AddPoint(gi["coordinates"][0], gi["coordinates"][1])
+    ogr_add_point(geom, gi["coordinates"])
     return geom
 
 def ogr_asLineString(gi):
     geom = ogr.Geometry(2)
     for pt in gi["coordinates"]:
-        geom.AddPoint(float(pt[0]), float(pt[1]))
+        ogr_add_point(geom, pt)
     return geom
 
 def ogr_asPolygon(gi):
@@ -309,7 +326,7 @@ def ogr_asPolygon(gi):
     for ring in gi["coordinates"]:
         ogr_ring = ogr.Geometry(ogr.wkbLinearRing)
         for pt in ring:
-            ogr_ring.AddPoint(pt[0], pt[1])
+            ogr_add_point(ogr_ring, pt)
         geom.AddGeometry(ogr_ring)
     geom.CloseRings()
     return geom
@@ -318,7 +335,7 @@ def ogr_asMultiPoint(gi):
     geom = ogr.Geometry(4)
     for pt in gi["coordinates"]:
         g = ogr.Geometry(1)
-        g.AddPoint(float(pt[0]), float(pt[1]))
+        ogr_add_point(g, pt)
         geom.AddGeometry(g)
     return geom
 
@@ -327,7 +344,7 @@ def ogr_asMultiLineString(gi):
     for linestring in gi["coordinates"]:
         ogr_linstring = ogr.Geometry(2)
         for pt in linestring:
-            ogr_linstring.AddPoint(float(pt[0]), float(pt[1]))
+            ogr_add_point(ogr_linstring, pt)
         geom.AddGeometry(ogr_linstring)
     return geom
 
@@ -338,7 +355,7 @@ def ogr_asMultiPolygon(gi):
         for ring in polygon:
             ogr_ring = ogr.Geometry(ogr.wkbLinearRing)
             for pt in ring:
-                ogr_ring.AddPoint(pt[0], pt[1])
+                ogr_add_point(ogr_ring, pt)
             ogr_polygon.AddGeometry(ogr_ring)
         ogr_polygon.CloseRings()
         geom.AddGeometry(ogr_polygon)
-- 
2.43.0


From 533667ed2f34a357b21a861507f50ca60ad79d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 101/130] fix: attributes named id in shapefiles

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 1fec153..749a3df 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -237,7 +237,7 @@ def ogr_write(fnm, *objs):
 
         dbase_key = str(k)[:10].upper()
         i = 2
-        while dbase_key in key_mapping:
+        while dbase_key in key_mapping or dbase_key == "ID":
             dbase_key = "{}{}".format(dbase_key[:-len(str(i))], str(i))
             warnings.warn("attribute name clash: {} renamed {}"\
                           .format(k, dbase_key))
-- 
2.43.0


From dc5c66ae4018590295d343f9debbae93dc70f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 102/130] fix: write numpy scalars and dates to shapefiles, and
 read missing values and dates

---
 karta/vector/_shp.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 749a3df..ba72bd4 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -30,6 +30,10 @@ OGRTYPES = {"Point": ogr.wkbPoint,
             "MultiLineString": ogr.wkbMultiLineString,
             "MultiPolygon": ogr.wkbMultiPolygon}
 
+def _date_from_ogr(s):
+    """ Parse a date as formatted by OGR (YYYY/MM/DD). """
+    return datetime.date(*[int(a) for a in s.split("/")])
+
 # dictionary that matches each OGR type to a Python builtin
 FIELDTYPES = {ogr.OFTInteger: int,
               ogr.OFTIntegerList: list,
@@ -40,7 +44,7 @@ FIELDTYPES = {ogr.OFTInteger: int,
               ogr.OFTWideString: str,
               ogr.OFTWideStringList: list,
               ogr.OFTBinary: bin,
-              ogr.OFTDate: datetime.date,
+              ogr.OFTDate: _date_from_ogr,
               ogr.OFTTime: datetime.time,
               ogr.OFTDateTime: datetime.datetime}
 
@@ -175,7 +179,8 @@ def ogr_read_attributes(lyr):
         p = {}
         for j, (fn, t) in enumerate(zip(fieldnames, fieldtypes)):
             try:
-                p[fn] = t(lyr.GetFeature(i).GetField(j))
+                val = lyr.GetFeature(i).GetField(j)
+                p[fn] = t(val) if val is not None else None
             except TypeError:
                 p[fn] = None
             except UnicodeDecodeError:
@@ -282,7 +287,12 @@ def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
     for i in range(1, layer_def.GetFieldCount()):
         attr_name = layer_def.GetFieldDefn(i).GetNameRef()
         key_name = key_mapping.get(attr_name, attr_name)
-        feature.SetField(attr_name, gi["properties"][key_name])
+        val = gi["properties"][key_name]
+        if _isnumpytype(val):
+            val = val.item()
+        elif isinstance(val, datetime.date) and not isinstance(val, datetime.datetime):
+            val = val.isoformat()
+        feature.SetField(attr_name, val)
 
     if gi["geometry"]["type"] == "Point":
         geom = ogr_asPoint(gi["geometry"])
-- 
2.43.0


From 669f4b4c1a872b6839a7953ea0a3c9ff82aa696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 103/130] fix: infer shapefile field types from all features,
 and keep decimals

---
 karta/vector/_shp.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index ba72bd4..b4f3c03 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -248,10 +248,12 @@ def ogr_write(fnm, *objs):
                           .format(k, dbase_key))
             i += 1
 
-        typ, default_width = infer_field_type(objs, k, max_iter=100)
+        typ, default_width = infer_field_type(objs, k)
         if typ is not None:
             fd = ogr.FieldDefn(dbase_key, typ)
-            fd.SetWidth(default_width)
+            if typ not in (ogr.OFTInteger, ogr.OFTInteger64, ogr.OFTReal):
+                # numeric fields with a width but no precision are truncated
+                fd.SetWidth(default_width)
             lyr.CreateField(fd)
             key_mapping[dbase_key] = k
         else:
@@ -260,19 +262,31 @@ def ogr_write(fnm, *objs):
     # add geometries
     for i, obj in enumerate(objs):
         ogr_write_feature(lyr, obj, id=i, key_mapping=key_mapping)
+    ds.FlushCache()
     return
 
-def infer_field_type(objs, key, max_iter=100):
+def infer_field_type(objs, key):
+    """ Return an OGR field type and a default width that suit the value of
+    *key* for every feature in *objs*. """
     typ = None
     default_width = -1
-    i = 0
-    while i != min(max_iter, len(objs)):
+    for obj in objs:
+        val = obj["properties"][key]
         try:
-            typ, default_width = ogr_get_fieldtype(objs[i]["properties"][key])
-            break
+            t, width = ogr_get_fieldtype(val)
         except TypeError:
-            pass
-        i += 1
+            continue
+        if t == ogr.OFTInteger and not -2**31 <= val < 2**31:
+            t = ogr.OFTInteger64
+        if typ is None or t == typ:
+            typ, default_width = t, width
+        elif set((t, typ)) == set((ogr.OFTInteger, ogr.OFTInteger64)):
+            typ = ogr.OFTInteger64
+        elif set((t, typ)) <= set((ogr.OFTInteger, ogr.OFTInteger64, ogr.OFTReal)):
+            typ = ogr.OFTReal
+        else:
+            # no other type represents all values
+            typ, default_width = ogr_get_fieldtype("")
     return typ, default_width
 
 def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
-- 
2.43.0


From 734075cfdf241d6a91e7e622dccd2592870d2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 104/130] fix: GeoJSON text and null properties of multipart
 features

---
 karta/vector/read.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index b987cfa..a7f65e9 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -113,16 +113,13 @@ def read_geojson(f, crs=LonLatWGS84):
                                       picogeojson.MultiLineString,
                                       picogeojson.MultiPolygon)):
             n = len(feat.geometry.coordinates)
-            for k, v in feat.properties.items():
-                try:
-                    if len(v) == n:
-                        data[k] = v
-                    else:
-                        properties[k] = v
-                except TypeError:
+            for k, v in (feat.properties or {}).items():
+                if isinstance(v, (list, tuple)) and len(v) == n:
+                    data[k] = v
+                else:
                     properties[k] = v
         else:
-            properties.update(feat.properties)
+            properties.update(feat.properties or {})
         # if len(data) == 0:
         #     data = {}
         # else:
-- 
2.43.0


From 23e18d75f43dc06808ddba2b3c3cdc53ad4c5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 105/130] fix: quadtree splits could replace a sibling of the
 split node

---
 karta/vector/quadtree.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/karta/vector/quadtree.h b/karta/vector/quadtree.h
index 68855de..8694823 100644
--- a/karta/vector/quadtree.h
+++ b/karta/vector/quadtree.h
@@ -212,16 +212,15 @@ NonleafNode *qt_split(LeafNode *node) {
     // connect parent to grandparent
     NonleafNode *grandparent = node->parent;
     Quadrant quad;
-    Position p;
     if (grandparent != NULL) {
-        p.x = xmid;
-        p.y = ymid;
-        quad = get_quadrant(grandparent->bbox, &p);
-        switch (quad) {
-            case LOWERLEFT: grandparent->llnode.nonleafnode = parent; break;
-            case UPPERLEFT: grandparent->ulnode.nonleafnode = parent; break;
-            case LOWERRIGHT: grandparent->lrnode.nonleafnode = parent; break;
-            case UPPERRIGHT: grandparent->urnode.nonleafnode = parent; break;
+        if (grandparent->llnode.leafnode == node) {
+            grandparent->llnode.nonleafnode = parent;
+        } else if (grandparent->ulnode.leafnode == node) {
+            grandparent->ulnode.nonleafnode = parent;
+        } else if (grandparent->lrnode.leafnode == node) {
+            grandparent->lrnode.nonleafnode = parent;
+        } else if (grandparent->urnode.leafnode == node) {
+            grandparent->urnode.nonleafnode = parent;
         }
     }
 
-- 
2.43.0


From affefe0a6eff227aacaf852359bb0ffb03564ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 106/130] fix: R-trees of unsuitable items leaked their nodes

---
 karta/vector/rtree.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/rtree.pyx b/karta/vector/rtree.pyx
index 2bbcefb..3fa3be0 100644
--- a/karta/vector/rtree.pyx
+++ b/karta/vector/rtree.pyx
@@ -49,6 +49,7 @@ cdef class RTree:
         cdef Node* root
 
         root = rt_new_node(LEAF, LINEAR, maxchildren, NULL)
+        self.root = root
         for geom in geometries:
             if not hasattr(geom, "bbox"):
                 raise AttributeError("cannot construct R-tree index from items "
@@ -60,10 +61,10 @@ cdef class RTree:
             bb.xmax = _bb[len(_bb)//2]
             bb.ymax = _bb[len(_bb)//2+1]
             root = rt_insert(root, bb, i)
+            self.root = root
             i += 1
 
         self.count = i
-        self.root = root
         return
 
     def __dealloc__(self):
-- 
2.43.0


From 19d8d57b7cafcd06377e10b5dcd2f09b8838f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 107/130] fix: hillshade builds tangents from slopes in
 coordinate units

gradient() already divides by the cell size, so tangent vectors with the
resolution in their horizontal component gave wrong normals for any cell
size but one.
---
 karta/raster/misc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/karta/raster/misc.py b/karta/raster/misc.py
index aeee8c4..302a5b6 100644
--- a/karta/raster/misc.py
+++ b/karta/raster/misc.py
@@ -187,9 +187,8 @@ def hillshade(grid, azimuth=330.0, elevation=60.0, band=0):
     dxgrid, dygrid = gradient(grid, band=band)
     dx = dxgrid[:,:,0]
     dy = dygrid[:,:,0]
-    res = grid.resolution
-    u = np.array((np.full_like(dx, res[0]), np.zeros_like(dx), dx))
-    v = np.array((np.zeros_like(dy), np.full_like(dy, res[1]), dy))
+    u = np.array((np.ones_like(dx), np.zeros_like(dx), dx))
+    v = np.array((np.zeros_like(dy), np.ones_like(dy), dy))
     w = np.cross(u, v, axisa=0, axisb=0)
     wunit = w / np.atleast_3d(np.sqrt(np.sum(w**2, axis=-1)))
 
-- 
2.43.0


From 05b4b93b43a4d207d500ed4d0d210ec6cf55d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 108/130] fix: slices of geometries follow the sequence
 protocol

CoordString.slice() counts a stop of zero or less from the end and wraps
around when start exceeds stop, so slices with a negative step and empty
slices returned other vertices (and, for Multipoint, vertices at odds
with their data).
---
 karta/vector/geometry.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 7016b55..38b2952 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -381,7 +381,8 @@ class MultiVertexBase(Geometry):
             return Point(self._vertices[key], properties=self.properties, crs=self.crs)
         elif isinstance(key, slice):
             start, stop, stride = key.indices(len(self._vertices))
-            verts = self._vertices.slice(start, stop, stride)
+            verts = CoordString([self._vertices[i]
+                                 for i in range(start, stop, stride)])
             return type(self)(verts, properties=self.properties, crs=self.crs)
         else:
             raise KeyError('index must be integer or slice object')
@@ -1025,11 +1026,11 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
     def __getitem__(self, key):
         if isinstance(key, slice):
             start, stop, stride = key.indices(len(self._vertices))
-            if len(self) != ((stop - start) // stride):
-                return Line(self._vertices.slice(start, stop, stride),
-                            properties=self.properties,
-                            crs=self.crs)
-            return Polygon(self._vertices.slice(start, stop, stride),
+            verts = CoordString([self._vertices[i]
+                                 for i in range(start, stop, stride)])
+            if len(self) != len(verts):
+                return Line(verts, properties=self.properties, crs=self.crs)
+            return Polygon(verts,
                            subs=self.subs, properties=self.properties,
                            crs=self.crs)
         return super(Polygon, self).__getitem__(key)
@@ -1310,7 +1311,9 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             return Point(self._vertices[key], properties=p, crs=self.crs)
         elif isinstance(key, slice):
             start, stop, stride = key.indices(len(self._vertices))
-            return Multipoint(self._vertices.slice(start, stop, stride),
+            verts = CoordString([self._vertices[i]
+                                 for i in range(start, stop, stride)])
+            return Multipoint(verts,
                               properties=self.properties,
                               data=self.d[key], crs=self.crs)
         else:
-- 
2.43.0


From f2222a5300718b63f6860386595e050f0776d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 109/130] fix: nearest positions on a polygon consider its
 closing edge

The segments were paired from the vertices as if the boundary were open.
---
 karta/vector/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 38b2952..9fa0c4f 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -762,8 +762,7 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         - If CRS is Geographical, uses distance defined by the CRS instance.
         """
         ptvertex = point.vertex(crs=self.crs)
-        segments = zip(self._vertices.slice(0, -1).asarray(),
-                       self._vertices.slice(1, 0).asarray())
+        segments = ((np.array(a), np.array(b)) for (a, b) in self.segment_tuples)
 
         if isinstance(self.crs, CartesianCRS):
             func = _cvectorgeo.pt_nearest_planar
-- 
2.43.0


From c59872557fdbe9b562b1c0b9c1cbb4ea73afa38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 110/130] fix: area of geodetic polygons with elevations

---
 karta/vector/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 9fa0c4f..fbd070b 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1157,14 +1157,14 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
             area = 0.0
             if major_axis == minor_axis:    # Sphere
                 for seg in self.segment_tuples:
-                    x1, y1 = seg[0]
-                    x2, y2 = seg[1]
+                    x1, y1 = seg[0][:2]
+                    x2, y2 = seg[1][:2]
                     area += geodesy.spherical_area(major_axis, x1, y1, x2, y2)
 
             else:
                 for seg in self.segment_tuples:
-                    x1, y1 = seg[0]
-                    x2, y2 = seg[1]
+                    x1, y1 = seg[0][:2]
+                    x2, y2 = seg[1][:2]
                     area += geodesy.ellipsoidal_area(major_axis, minor_axis,
                                                      x1, y1, x2, y2)
 
-- 
2.43.0


From 2a1180b186a999514f906ed2c85e6e4809c36941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 111/130] fix: nearest positions on short segments and repeated
 vertices

Whether the projection falls inside the segment was decided by comparing y
alone for any segment narrower than 1e-4, so for a short horizontal
segment the position lay beyond its ends, and a repeated vertex divided
by zero.
---
 karta/vector/vectorgeo.pyx | 52 ++++++++++----------------------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 83e5ef4..4193f33 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -202,8 +202,8 @@ def pt_nearest_planar(double x, double y,
     Returns the a nested tuple of (point, distance)
     """
 
-    cdef double u0, u1, v0, v1
-    cdef Vector2 u_on_v, u_int, pt, pt0, pt1
+    cdef double vv, f
+    cdef Vector2 u_int, pt, pt0, pt1
     cdef Vector2 u, v
 
     pt = Vector2(x, y)
@@ -212,43 +212,19 @@ def pt_nearest_planar(double x, double y,
 
     u = Vector2(x - pt0.x, y - pt0.y)
     v = Vector2(pt1.x - pt0.x, pt1.y - pt0.y)
-    u_on_v = proj2(u, v)
-    u_int = Vector2(u_on_v.x + pt0.x, u_on_v.y + pt0.y)
-
-    # Determine whether u_int is inside the segment
-    # Otherwise return the nearest endpoint
-    if fabs(pt0.x - pt1.x) < 1e-4:  # Segment is near vertical
-        if u_int.y > fmax(pt0.y, pt1.y):
-            if pt0.y > pt1.y:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        elif u_int.y < fmin(pt0.y, pt1.y):
-            if pt0.y < pt1.y:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        else:
-            return ((u_int.x, u_int.y), dist2(u_int, pt))
-
-    else:
-
-        if u_int.x > fmax(pt0.x, pt1.x):
-            if pt0.x > pt1.x:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
 
-        elif u_int.x < fmin(pt0.x, pt1.x):
-            if pt0.x < pt1.x:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        else:
-            return ((u_int.x, u_int.y), dist2(u_int, pt))
+    # Position of the projection along the segment, as a fraction
+    # If it is not inside the segment, return the nearest endpoint
+    vv = v.x*v.x + v.y*v.y
+    if vv == 0.0:
+        return ((pt0.x, pt0.y), dist2(pt0, pt))
+    f = (u.x*v.x + u.y*v.y) / vv
+    if f <= 0.0:
+        return ((pt0.x, pt0.y), dist2(pt0, pt))
+    elif f >= 1.0:
+        return ((pt1.x, pt1.y), dist2(pt1, pt))
+    u_int = Vector2(pt0.x + f*v.x, pt0.y + f*v.y)
+    return ((u_int.x, u_int.y), dist2(u_int, pt))
 
 # Currently unused, but could be employed to optimize pyproj function calls
 ctypedef tuple (*fwd_t)(double, double, double, double)
-- 
2.43.0


From 5f54aae0ebec987f77e6b9b952dd26521a974d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:05 +0000
Subject: [PATCH 112/130] fix: nearest geodetic position on a repeated vertex

---
 karta/vector/vectorgeo.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 4193f33..fbcd8f4 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -261,6 +261,9 @@ def pt_nearest_proj(object fwd, object inv, tuple pt, double[:] endpt0, double[:
 
     # Detect whether the nearest point is at an endpoint
     cdef double grad0, grad1, d
+    if L == 0.0:
+        (_, _, d) = inv(endpt0[0], endpt0[1], pt[0], pt[1])
+        return endpt0, d
     grad0 = _along_distance_gradient(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, 0, 1e-7*L)
     grad1 = _along_distance_gradient(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, L, 1e-7*L)
     if grad0 > 0:
-- 
2.43.0


From a27afa6bfb4316324333f7329bebab036e98adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 113/130] fix: bounding boxes of polygons in another
 geographical system

The reprojected vertices were taken for an open line, so the extent of the
closing edge was lost.
---
 karta/vector/geometry.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index fbd070b..d8530c3 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -638,15 +638,11 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         tuple
              (xmin, ymin, xmax, ymax)
         """
-        if crs is not None and (crs != self.crs):
-            cs = CoordString(list(zip(
-                *self.crs.transform(crs, *self._vertices.vectors(drop_z=True)))))
-        else:
-            cs = self._vertices
+        if crs is None:
             crs = self.crs
 
         if isinstance(crs, GeographicalCRS):
-            bbox = _cdateline.bbox(cs)
+            bbox = _cdateline.bbox(self._vertices_in(crs))
         else:
             bbox = super(ConnectedMultiVertexMixin, self).bbox(crs=crs)
         return bbox
-- 
2.43.0


From 383d34aa1aee550a0195ff0a649acb077c5c3f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 114/130] fix: members within or touching a geometry in another
 system

The spatial index was searched with a bounding box in the members' system
although containment and intersection are decided in that of the other
geometry, so members were missed around poles, across the dateline, and
between systems.
---
 karta/vector/geometry.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index d8530c3..e5cb467 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1431,9 +1431,10 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
     def within_polygon(self, poly):
         """ Return Multipoint subset that is within a polygon.
         """
-        if hasattr(self, "quadtree"):
-            bbox = poly.bbox(crs=self.crs)
-            candidate_indices = self.quadtree.search_within(*bbox)
+        if (hasattr(self, "quadtree") and poly.crs == self.crs and
+                isinstance(self.crs, CartesianCRS)):
+            # containment is decided in the coordinate system of *poly*
+            candidate_indices = self.quadtree.search_within(*poly.bbox())
             confirmed_indices = []
             for i in candidate_indices:
                 if poly.contains(self[i]):
@@ -1535,6 +1536,13 @@ class MultiVertexMultipartMixin(object):
         return type(self)([self[i] for i in indices],
                           properties=self.properties, crs=self.crs)
 
+    def _candidates(self, geom):
+        """ Return the indices of members that may touch *geom* or lie within
+        it, which is decided in the coordinate system of *geom*. """
+        if geom.crs == self.crs and isinstance(self.crs, CartesianCRS):
+            return self.rtree.search_overlapping(geom.bbox())
+        return range(len(self))
+
     def touching(self, geom):
         """ Return a Multipart geometry representing member geometries that
         touch a Line or Polygon.
@@ -1549,7 +1557,7 @@ class MultiVertexMultipartMixin(object):
         Returns
         -------
         """
-        indices = self.rtree.search_overlapping(geom.bbox(self.crs))
+        indices = self._candidates(geom)
         results = []
         if isinstance(geom, Line):
             for i in indices:
@@ -1576,7 +1584,7 @@ class MultiVertexMultipartMixin(object):
         """
         if not isinstance(geom, Polygon):
             raise TypeError("argument must be Polygon")
-        indices = self.rtree.search_overlapping(geom.bbox(crs=self.crs))
+        indices = self._candidates(geom)
         results = []
         for i in indices:
             test_geom = self[i]
-- 
2.43.0


From 848f436718b49101173becd5e6a54c57a8391bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:41 +0000
Subject: [PATCH 115/130] fix: index queries of multipart geometries built
 without an index

---
 karta/vector/geometry.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index e5cb467..0e6e55d 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1519,7 +1519,7 @@ class MultiVertexMultipartMixin(object):
         bbox : tuple
             (xmin, ymin, xmax, ymax)
         """
-        indices = self.rtree.search_within(bbox, max_results=max_results)
+        indices = self._index().search_within(bbox, max_results=max_results)
         return type(self)([self[i] for i in indices],
                           properties=self.properties, crs=self.crs)
 
@@ -1532,15 +1532,21 @@ class MultiVertexMultipartMixin(object):
         bbox : tuple
             (xmin, ymin, xmax, ymax)
         """
-        indices = self.rtree.search_overlapping(bbox, max_results=max_results)
+        indices = self._index().search_overlapping(bbox, max_results=max_results)
         return type(self)([self[i] for i in indices],
                           properties=self.properties, crs=self.crs)
 
+    def _index(self):
+        """ Return the R-tree of members, building it if there is none yet. """
+        if not hasattr(self, "rtree"):
+            self.rtree = RTree([part._vertices for part in self])
+        return self.rtree
+
     def _candidates(self, geom):
         """ Return the indices of members that may touch *geom* or lie within
         it, which is decided in the coordinate system of *geom*. """
         if geom.crs == self.crs and isinstance(self.crs, CartesianCRS):
-            return self.rtree.search_overlapping(geom.bbox())
+            return self._index().search_overlapping(geom.bbox())
         return range(len(self))
 
     def touching(self, geom):
-- 
2.43.0


From 2687d32885fe9f6c9ab8919d79cc6e9896bfea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 116/130] fix: sign of the y component of cross products

---
 karta/vector/vectorgeo.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index fbcd8f4..ce15842 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -26,7 +26,7 @@ cdef double cross2(Vector2 u, Vector2 v) nogil:
     return u.x*v.y - u.y*v.x
 
 cdef Vector3 cross3(Vector3 u, Vector3 v):
-    return Vector3(u.y*v.z - u.z*v.y, u.x*v.z - u.z*v.x, u.x*v.y - u.y*v.x)
+    return Vector3(u.y*v.z - u.z*v.y, u.z*v.x - u.x*v.z, u.x*v.y - u.y*v.x)
 
 cdef Vector2 proj2(Vector2 u, Vector2 v):
     cdef double uv_vv
-- 
2.43.0


From 036084e946f1a5df5a6ec95393df0da41425c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 117/130] fix: intersection tests consider every pair of
 segments

The sweeps missed crossings when the order of segments changed between
events, missed contacts at vertices and overlapping segments, and the
spherical sweep reported contacts between neighbouring segments of the
same geometry. Test each pair with an exact criterion instead.
---
 karta/vector/intersection.pyx | 572 +++++-----------------------------
 1 file changed, 83 insertions(+), 489 deletions(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index 6101ac6..901a789 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -1,11 +1,9 @@
-from libc.math cimport NAN, M_PI, sin, cos, fmin, fmax, isnan
+from libc.math cimport NAN, fmin, fmax, fabs, sqrt, isnan
 from cpython cimport bool
 from coordstring.coordstring cimport CoordString
 from vectorgeo cimport (Vector2, Vector3,
-                        cross2, cross3,
-                        azimuth_sph, cart2sph, sph2cart,
-                        eulerpole, eulerpole_cart)
-import heapq
+                        dot3, cross2, cross3,
+                        cart2sph, sph2cart, eulerpole)
 
 cdef bool isbetween_inc(double a, double b, double c):
     return fmin(a, c) <= b <= fmax(a, c)
@@ -70,450 +68,67 @@ def all_intersections(CoordString a, CoordString b):
                 intersections.append((xi, yi))
     return intersections
 
-cdef class Event(object):
-    """ An Event represents an event in a sweep-line algorithm that signals a
-    change in the sweep-line datastructure. This event signals the entrance and
-    exits of line segments and segment intersections.
-    """
-    cdef public tuple seg
-    cdef public int kind
-    cdef public int color
-    cdef public tuple left
-    cdef public tuple right
-
-    def __init__(self, tuple seg, int kind, int color):
-        self.seg = seg
-        self.kind = kind
-        self.color = color
-        self.left = None
-        self.right = None
-
-    def __richcmp__(self, Event other, int op):
-        if op == 0:
-            return self.seg < other.seg
-        elif op == 1:
-            return self.seg <= other.seg
-        elif op == 2:
-            return self.seg == other.seg
-        elif op == 3:
-            return self.seg != other.seg
-        elif op == 4:
-            return self.seg > other.seg
-        elif op == 5:
-            return self.seg >= other.seg
-        else:
-            raise ValueError("no __richcmp__ operation for op == %d" % op)
-
-class EventQueuePlaceholder(object):
-    """ This is a placeholder for an event-queue class. """
-
-    def __init__(self):
-        self.queue = []
-
-    def __len__(self):
-        return len(self.queue)
-
-    def insert(self, double x, Event event):
-        heapq.heappush(self.queue, (x, event))
-        return
-
-    def takefirst(self):
-        """ return a flag and the first item from the queue. if flag == 1, then
-        next item in the queue happens at the same time. """
-        cdef int flag = 0
-        cdef double x
-        cdef Event event
-        x, event = heapq.heappop(self.queue)
-        if (len(self.queue) != 0) and (x == self.queue[0][0]):
-            flag = 1
-        return flag, x, event
-
-class SweepLinePlaceholder(object):
-    """ This is a placeholder for a sweep-line class. """
-    def __init__(self, spherical=False):
-        self.queue = []
-        self.spherical = spherical
-
-    def __iter__(self):
-        cdef tuple item
-        for item in self.queue:
-            yield item
-
-    def _get_slope_height(self, tuple seg, double x):
-        cdef double m = 0.0, h = 0.0
-        cdef tuple interx
-        if self.spherical:
-            m = -(azimuth_sph(Vector2(seg[0], seg[1]), Vector2(seg[2], seg[3]))*180/M_PI - 90)
-            # compute intersection between seg and a meridional geodesic passing through x
-            interx = intersection_sph(seg[0], seg[2], x, x, seg[1], seg[3], -90, 90)
-            h = interx[1]
-        else:
-            if seg[3] == seg[1]:
-                return m, seg[1]
-            m = (seg[3]-seg[1]) / (seg[2]-seg[0])
-            h = m*(x-seg[0]) + seg[1]
-        return m, h
-
-    def insert(self, tuple item, double x):
-        if len(self.queue) == 0:
-            self.queue.append(item)
-            return
-
-        cdef double m, y, m_, y_
-        cdef int i = 0
-        m, y = self._get_slope_height(item, x)
-        m_, y_ = self._get_slope_height(self.queue[i], x)
-        while (y_ < y) or ((y_ == y) and (m_ < m)):
-            i += 1
-            if i == len(self.queue):
-                break
-            m_, y_ = self._get_slope_height(self.queue[i], x)
-        self.queue.insert(i, item)
-        return
-
-    def leftof(self, tuple item):
-        cdef int idx
-        idx = self.queue.index(item)
-        if idx == 0:
-            return None
-        else:
-            return self.queue[idx-1]
-
-    def rightof(self, tuple item):
-        cdef int idx
-        idx = self.queue.index(item)
-        if idx == len(self.queue) - 1:
-            return None
-        else:
-            return self.queue[idx+1]
-
-    def remove(self, item):
-        cdef int idx
-        idx = self.queue.index(item)
-        self.queue.pop(idx)
-        return
-
 def intersects(CoordString a, CoordString b):
-    """ Shamos-Hoey intersection detection algorithm """
-
-   # corner cases:
-   # - simultaneous events          handled
-   # - parallel overlapping lines   handled
-   # - triple intersections         handled(?)
-   # - vertical lines               handled
-   # - self-intersections           handled
-   #
-   # all of the above need tests to verify
-
-    cdef int na = len(a), nb = len(b)
-    if a.ring:
-        na = na + 1
-    if b.ring:
-        nb = nb + 1
-
-    # initialize event queue
-    #
-    # event kind may be:
-    # 0 : left point
-    # 1 : right point
-    # 2 : bottom point on vertical segment
-    # 3 : top point on vertical segment
-    # 4 : intersection (unused)
-    cdef int i = 0
-    cdef object event_queue = EventQueuePlaceholder()
+    """ Return whether any segment of *a* has a point in common with any
+    segment of *b*, with len(a)*len(b) complexity """
+    cdef int na = len(a)
+    cdef int nb = len(b)
+    cdef int i = 0, j = 0
     cdef double x0, x1, y0, y1
-    cdef tuple seg
 
-    for i in range(na-1):
+    if not a.ring:
+        na -= 1
+    if not b.ring:
+        nb -= 1
+
+    for i in range(na):
         x0 = a.getX(i)
         x1 = a.getX(i+1)
         y0 = a.getY(i)
         y1 = a.getY(i+1)
-        seg = (x0, y0, x1, y1, 0)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 0))
-                event_queue.insert(x0, Event(seg, 3, 0))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 0))
-                event_queue.insert(x0, Event(seg, 2, 0))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 0))
-            event_queue.insert(x1, Event(seg, 1, 0))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 0))
-            event_queue.insert(x0, Event(seg, 1, 0))
-
-    for i in range(nb-1):
-        x0 = b.getX(i)
-        x1 = b.getX(i+1)
-        y0 = b.getY(i)
-        y1 = b.getY(i+1)
-        seg = (x0, y0, x1, y1, 1)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 1))
-                event_queue.insert(x0, Event(seg, 3, 1))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 1))
-                event_queue.insert(x0, Event(seg, 2, 1))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 1))
-            event_queue.insert(x1, Event(seg, 1, 1))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 1))
-            event_queue.insert(x0, Event(seg, 1, 1))
-
-    # begin sweep search
-    cdef double x
-    cdef double yA
-    cdef int event_type, segcolor
-    cdef object sweepline = SweepLinePlaceholder()
-    cdef Event event = None, ev = None
-    cdef tuple segA, segB
-    cdef list current_events = [], neighbours = []
-
-    while len(event_queue) != 0:
-
-        # get all simultaneous events
-        current_events = []
-        flag = 1
-        while flag == 1:
-            flag, x, event = event_queue.takefirst()
-            current_events.append((x, event))
-
-        # for all segments that begin, insert into sweepline
-        for x, event in current_events:
-            if event.kind == 0:
-                sweepline.insert(event.seg, x)
-
-        # for all segments that end, get the neighbours that are not also
-        # ending and remove from sweepline
-        for _, event in current_events:
-            if event.kind == 1:
-                segA = event.seg
-                segB = event.seg
-                while segA is not None and \
-                        segA in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segA = sweepline.leftof(segA)
-                while segB is not None and \
-                        segB in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segB = sweepline.rightof(segB)
-                event.left = segA
-                event.right = segB
-                sweepline.remove(event.seg)
-
-        # check for intersections due to last set of events
-        for x, event in current_events:
-
-            seg = event.seg
-
-            if (event.kind == 2):
-                # vertical segment - check whether span crosses any segments
-                for segA in sweepline:
-
-                    if seg[4] == segA[4]:
-                        continue
-
-                    yA = (segA[3]-segA[1]) / (segA[2]-segA[0])*(seg[0]-segA[0]) + segA[1]
-                    if (seg[1] <= yA) and (seg[3] >= yA):
-                        return True
-
-                    if (seg[3] <= yA) and (seg[1] >= yA):
-                        return True
-
-                # can skip kind == 3 because it's covered by kind == 2
-
-            elif event.kind == 0:
-                # starting point
-                segA = sweepline.leftof(seg)
-                segB = sweepline.rightof(seg)
-                if segA is not None and _intersects(segA, seg):
-                    return True
-                if segB is not None and _intersects(seg, segB):
-                    return True
-
-            elif event.kind == 1:
-                # ending point
-                segA = event.left
-                segB = event.right
-                if segA is not None and segB is not None and _intersects(segA, segB):
-                    return True
-
+        for j in range(nb):
+            if _intersects(x0, x1, b.getX(j), b.getX(j+1),
+                           y0, y1, b.getY(j), b.getY(j+1)):
+                return True
     return False
 
 def intersects_sph(CoordString a, CoordString b):
-    """ Shamos-Hoey intersection detection algorithm with adaptations for
-    spherical coordinates. """
-
-   # corner cases:
-   # - simultaneous events          handled
-   # - parallel overlapping lines   handled
-   # - triple intersections         handled(?)
-   # - vertical lines               handled
-   # - self-intersections           handled
-   #
-   # all of the above need tests to verify
-
-    cdef int na = len(a), nb = len(b)
-    if a.ring:
-        na = na + 1
-    if b.ring:
-        nb = nb + 1
-
-    # initialize event queue
-    #
-    # event kind may be:
-    # 0 : left point
-    # 1 : right point
-    # 2 : bottom point on vertical segment
-    # 3 : top point on vertical segment
-    # 4 : intersection (unused)
-    cdef int i = 0
-    cdef object event_queue = EventQueuePlaceholder()
+    """ Return whether any great circle segment of *a* has a point in common
+    with any great circle segment of *b*, with len(a)*len(b) complexity """
+    cdef int na = len(a)
+    cdef int nb = len(b)
+    cdef int i = 0, j = 0
     cdef double x0, x1, y0, y1
-    cdef tuple seg
 
-    for i in range(na-1):
-        x0 = (a.getX(i) + 180.0) % 360.0 - 180.0
-        x1 = (a.getX(i+1) + 180.0) % 360.0 - 180.0
+    if not a.ring:
+        na -= 1
+    if not b.ring:
+        nb -= 1
+
+    for i in range(na):
+        x0 = a.getX(i)
+        x1 = a.getX(i+1)
         y0 = a.getY(i)
         y1 = a.getY(i+1)
-        seg = (x0, y0, x1, y1, 0)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 0))
-                event_queue.insert(x0, Event(seg, 3, 0))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 0))
-                event_queue.insert(x0, Event(seg, 2, 0))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 0))
-            event_queue.insert(x1, Event(seg, 1, 0))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 0))
-            event_queue.insert(x0, Event(seg, 1, 0))
-
-    for i in range(nb-1):
-        x0 = (b.getX(i) + 180.0) % 360.0 - 180.0
-        x1 = (b.getX(i+1) + 180.0) % 360.0 - 180.0
-        y0 = b.getY(i)
-        y1 = b.getY(i+1)
-        seg = (x0, y0, x1, y1, 1)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 1))
-                event_queue.insert(x0, Event(seg, 3, 1))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 1))
-                event_queue.insert(x0, Event(seg, 2, 1))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 1))
-            event_queue.insert(x1, Event(seg, 1, 1))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 1))
-            event_queue.insert(x0, Event(seg, 1, 1))
-
-    # begin sweep search
-    cdef double x
-    cdef double yA
-    cdef int event_type, segcolor
-    cdef object sweepline = SweepLinePlaceholder(spherical=True)
-    cdef Event event = None, ev = None
-    cdef tuple segA, segB
-    cdef list current_events = [], neighbours = []
-
-    while len(event_queue) != 0:
-
-        # get all simultaneous events
-        current_events = []
-        flag = 1
-        while flag == 1:
-            flag, x, event = event_queue.takefirst()
-            current_events.append((x, event))
-
-        # for all segments that begin, insert into sweepline
-        for x, event in current_events:
-            if event.kind == 0:
-                sweepline.insert(event.seg, x)
-
-        # for all segments that end, get the neighbours that are not also
-        # ending and remove from sweepline
-        for _, event in current_events:
-            if event.kind == 1:
-                segA = event.seg
-                segB = event.seg
-                while segA is not None and \
-                        segA in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segA = sweepline.leftof(segA)
-                while segB is not None and \
-                        segB in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segB = sweepline.rightof(segB)
-                event.left = segA
-                event.right = segB
-                sweepline.remove(event.seg)
-
-        # check for intersections due to last set of events
-        for x, event in current_events:
-
-            seg = event.seg
-
-            if (event.kind == 2):
-                # vertical segment - check whether span crosses any segments
-                for segA in sweepline:
-
-                    if seg[4] == segA[4]:
-                        continue
-
-                    yA = intersection_meridian(segA[0], segA[2], segA[1], segA[3], x)
-                    if (seg[1] <= yA) and (seg[3] >= yA):
-                        return True
-
-                    if (seg[3] <= yA) and (seg[1] >= yA):
-                        return True
-
-                # can skip kind == 3 because it's covered by kind == 2
-
-            elif event.kind == 0:
-                # starting point
-                segA = sweepline.leftof(seg)
-                segB = sweepline.rightof(seg)
-                if segA is not None and _intersects_sph(segA[0], segA[2],
-                                                        seg[0], seg[2],
-                                                        segA[1], segA[3],
-                                                        seg[1], seg[3]):
-                    return True
-                if segB is not None and _intersects_sph(segB[0], segB[2],
-                                                        seg[0], seg[2],
-                                                        segB[1], segB[3],
-                                                        seg[1], seg[3]):
-                    return True
-
-            elif event.kind == 1:
-                # ending point
-                segA = event.left
-                segB = event.right
-                if segA is not None and segB is not None \
-                        and _intersects_sph(segB[0], segB[2], seg[0], seg[2],
-                                            segB[1], segB[3], seg[1], seg[3]):
-                    return True
-
+        for j in range(nb):
+            if _intersects_sph(x0, x1, b.getX(j), b.getX(j+1),
+                               y0, y1, b.getY(j), b.getY(j+1)):
+                return True
     return False
 
-cdef bool _intersects(tuple seg1, tuple seg2):
-    """ Test whether two segments have an intersection. """
-    cdef tuple interx
-    if seg1[4] == seg2[4]:
-        # same geometry
-        return False
-    if iscollinear(seg1[0], seg1[2], seg2[0], seg2[2],
-            seg1[1], seg1[3], seg2[1], seg2[3]):
-        return True
-    interx = intersection(seg1[0], seg1[2], seg2[0], seg2[2],
-                          seg1[1], seg1[3], seg2[1], seg2[3])
-    if isnan(interx[0]):
+cdef bool _intersects(double x0, double x1, double x2, double x3,
+                      double y0, double y1, double y2, double y3):
+    """ Test whether two segments, ((x0,y0), (x1,y1)) and ((x2,y2), (x3,y3)),
+    have a point in common. """
+    if not (overlaps(x0, x1, x2, x3) and overlaps(y0, y1, y2, y3)):
         return False
-    return True
+
+    # the ends of each segment must not lie on one side of the other segment
+    cdef double s0 = cross2(Vector2(x3-x2, y3-y2), Vector2(x0-x2, y0-y2))
+    cdef double s1 = cross2(Vector2(x3-x2, y3-y2), Vector2(x1-x2, y1-y2))
+    cdef double s2 = cross2(Vector2(x1-x0, y1-y0), Vector2(x2-x0, y2-y0))
+    cdef double s3 = cross2(Vector2(x1-x0, y1-y0), Vector2(x3-x0, y3-y0))
+    return isbetween_inc(s0, 0.0, s1) and isbetween_inc(s2, 0.0, s3)
 
 #cdef Vector2 _project_gnomonic(Vector2 lonlat, lon0, R):
 #    cdef double x = R*tan(lonlat.x - lon0)
@@ -524,66 +139,45 @@ cdef bool _intersects(tuple seg1, tuple seg2):
 #    return
 
 cdef bool overlaps(double a0, double a1, double b0, double b1):
-    if (a0 <= b0 <= a1) or (a0 <= b1 <= a1) or (b0 <= a0 <= b1) or (b0 <= a1 <= b1):
-        return True
-    else:
-        return False
-
-cdef bool iscollinear(double x0, double x1, double x2, double x3,
-                      double y0, double y1, double y2, double y3):
-    cdef double rxs = cross2(Vector2(x1-x0, y1-y0), Vector2(x3-x2, y3-y2))
-    cdef double rxt = -1.0
-    if rxs == 0:
-        rxt = cross2(Vector2(x1-x0, y1-y0), Vector2(x3-x0, y3-y0))
-        if rxt == 0:
-            if (x1-x0) != 0 and overlaps(x0, x1, x2, x3):
-                return True
-            elif overlaps(y0, y1, y2, y3):
-                return True
-    return False
-
-cdef bool iscollinear_sph(double x0, double x1, double x2, double x3,
-                          double y0, double y1, double y2, double y3):
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = eulerpole(Vector2(x2, y2), Vector2(x3, y3))
-    # TODO: check overlap?
-    if ((ep1.x == ep2.x) and (ep1.y == ep2.y) and (ep1.z == ep2.z)) \
-            or ((ep1.x == -ep2.x) and (ep1.y == -ep2.y) and (ep1.z == -ep2.z)):
-        return True
-    else:
-        return False
+    return fmax(fmin(a0, a1), fmin(b0, b1)) <= fmin(fmax(a0, a1), fmax(b0, b1))
+
+cdef double _offset(Vector3 v, Vector3 v0, Vector3 pole):
+    """ Sine of the angular distance of *v* from the great circle through *v0*
+    with the pole *pole*, scaled by the length of *pole*. Zero within rounding
+    error. """
+    cdef double d = dot3(Vector3(v.x-v0.x, v.y-v0.y, v.z-v0.z), pole)
+    if fabs(d) <= 1e-15 * sqrt(dot3(pole, pole)):
+        return 0.0
+    return d
+
+cdef bool _isbetween_sph(Vector3 v, Vector3 v0, Vector3 v1, Vector3 pole):
+    """ Test whether *v*, a point on a great circle with the pole *pole*, is on
+    the segment from *v0* to *v1* """
+    return dot3(cross3(v0, v), pole) >= 0 and dot3(cross3(v, v1), pole) >= 0
 
 cpdef bool _intersects_sph(double x0, double x1, double x2, double x3,
                            double y0, double y1, double y2, double y3):
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = eulerpole(Vector2(x2, y2), Vector2(x3, y3))
-    cdef Vector2 normal = cart2sph(cross3(ep1, ep2))
-    cdef double antipodal_lon = (normal.x + 360) % 360 - 180.0
-    if isbetween_inc(x0, normal.x, x1) and isbetween_inc(x2, normal.x, x3):
-        return True
-    elif isbetween_inc(x0, antipodal_lon, x1) and isbetween_inc(x2, antipodal_lon, x3):
-        return True
-    else:
-        return False
-
-cdef double intersection_meridian(double x0, double x1, double y0, double y1,
-                                  double xmeridian):
-    """ Return the latitude of intersection of a spherical geodesic across a
-    meridian. """
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = Vector3(sin(M_PI*xmeridian/180.0),
-                               cos(M_PI*xmeridian/180.0),
-                               0.0)
-    cdef Vector2 normal = cart2sph(cross3(ep1, ep2))
-    normal.x = (normal.x + 180.0) % 360.0 - 180.0
-    normal.y = (normal.y + 90.0) % 180.0 - 90.0
-    cdef antipodal_lon = (normal.x + 360) % 360 - 180.0
-    if isbetween_inc(x0, normal.x, x1):
-        return normal.y
-    elif isbetween_inc(x0, antipodal_lon, x1):
-        return -normal.y
-    else:
-        return NAN
+    """ Test whether two great circle segments, ((x0,y0), (x1,y1)) and
+    ((x2,y2), (x3,y3)), have a point in common. """
+    cdef Vector3 a = sph2cart(Vector2(x0, y0))
+    cdef Vector3 b = sph2cart(Vector2(x1, y1))
+    cdef Vector3 c = sph2cart(Vector2(x2, y2))
+    cdef Vector3 d = sph2cart(Vector2(x3, y3))
+    cdef Vector3 ep1 = cross3(a, Vector3(b.x-a.x, b.y-a.y, b.z-a.z))
+    cdef Vector3 ep2 = cross3(c, Vector3(d.x-c.x, d.y-c.y, d.z-c.z))
+
+    cdef double s0 = _offset(a, c, ep2)
+    cdef double s1 = _offset(b, c, ep2)
+    cdef double s2 = _offset(c, a, ep1)
+    cdef double s3 = _offset(d, a, ep1)
+
+    if s0 == 0 and s1 == 0 and s2 == 0 and s3 == 0:
+        # segments of one great circle
+        return (_isbetween_sph(a, c, d, ep2) or _isbetween_sph(b, c, d, ep2) or
+                _isbetween_sph(c, a, b, ep1) or _isbetween_sph(d, a, b, ep1))
+    # the great circles cross at the cross product of the poles and its antipode
+    return ((s0 >= 0 and s1 <= 0 and s2 <= 0 and s3 >= 0) or
+            (s0 <= 0 and s1 >= 0 and s2 >= 0 and s3 <= 0))
 
 cpdef tuple intersection_sph(double x0, double x1, double x2, double x3,
                              double y0, double y1, double y2, double y3):
-- 
2.43.0


From a5b7dc525ee520ae8e23820515f0c07a8b795d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 118/130] fix: intersections at the first vertex of a line

A position at the start of a segment did not count, so that contacts with
the first vertex of an open line were lost.
---
 karta/vector/intersection.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index 901a789..d5b3d44 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -213,10 +213,16 @@ cpdef tuple intersection(double x0, double x1, double x2, double x3,
 
     cdef double t = cross2(Vector2(x2-x0, y2-y0), Vector2(x3-x2, y3-y2)) / rxs
     cdef double u = cross2(Vector2(x2-x0, y2-y0), Vector2(x1-x0, y1-y0)) / rxs
-    if (0 < t <= 1) and (0 < u <= 1):
-        return x0 + t*(x1-x0), y0 + t*(y1-y0)
-    else:
+    if not ((0 <= t <= 1) and (0 <= u <= 1)):
         return NAN, NAN
+    # return vertices exactly
+    if u == 0:
+        return x2, y2
+    elif u == 1:
+        return x3, y3
+    elif t == 1:
+        return x1, y1
+    return x0 + t*(x1-x0), y0 + t*(y1-y0)
 
 def count_crossings(double xp, double yp, CoordString coords):
     """ Count the number of times a vertical ray from (xp, yp) crosses a
-- 
2.43.0


From eeb7c6cbe244f13ffb27c893795b53c79c8d323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 119/130] fix: spherical coordinates of vectors below the
 equator

The colatitude came out negative for negative z, giving latitudes beyond
90 degrees, and short vectors lost the sign of x.
---
 karta/geodesy.py           | 11 ++---------
 karta/vector/vectorgeo.pyx | 14 +++-----------
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index e46c968..3001e00 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -38,15 +38,8 @@ def sph2cart(lon, lat):
     return x, y, z
 
 def cart2sph(x, y, z):
-    if abs(z) > 1e-4:
-        theta = atan(sqrt(x**2+y**2)/z)
-    else:
-        theta = acos(z / sqrt(x**2+y**2+z**2))
-    if abs(x) > 1e-4:
-        lon = atan2(y, x)
-    else:
-        lon = asin(y/sqrt(x**2+y**2))
-    lat = 0.5*pi - theta
+    lon = atan2(y, x)
+    lat = atan2(z, sqrt(x**2+y**2))
     return lon*180/pi, lat*180/pi
 
 @recurse_iterables
diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index ce15842..456c624 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -141,17 +141,9 @@ cdef Vector3 sph2cart(Vector2 a):
 cdef Vector2 cart2sph(Vector3 a):
     """ Convert an (x, y, z) coordinate to a (lambda, phi) coordinate on a
     sphere with an origin at (0, 0, 0). """
-    cdef double lon = 0.0
-    cdef double lat = 0.0
-    if fabs(a.x) > 1e-8:
-        lon = atan2(a.y, a.x)
-    else:
-        lon = asin(a.y / sqrt(a.x*a.x + a.y*a.y))
-    if fabs(a.z) > 1e-8:
-        lat = 0.5*M_PI - atan(sqrt(a.x*a.x + a.y*a.y)/a.z)
-    else:
-        lat = 0.5*M_PI - acos(a.z / sqrt(a.x*a.x + a.y*a.y + a.z*a.z))
-    return Vector2(lon*180.0/M_PI, lat*180.0/M_PI)
+    cdef double lon = atan2(a.y, a.x)
+    cdef double lat = atan2(a.z, sqrt(a.x*a.x + a.y*a.y))
+    return Vector2(lon*180/M_PI, lat*180/M_PI)
 
 cdef Vector3 eulerpole_cart(Vector3 a, Vector3 b):
     return cross3(a, b)
-- 
2.43.0


From 1eff53a14ae3f3e2464410813c568fdba9f6ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 120/130] fix: intersections with southward meridional segments

---
 karta/geodesy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 3001e00..ce771ab 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -142,8 +142,9 @@ def check_in_segment_range(pt, segment):
     dlon = abs(reduce_deg(lon_2-lon_1))
     if (dlon < 1e-8) and (abs(segment[0][1]-segment[1][1]) > dlon):
         # strategy 2
-        return (abs((pt[0]+360)%360 - lon_1) < 180) and \
-               (segment[0][1] <= pt[1] <= segment[1][1])
+        return (abs(reduce_deg(pt[0] - lon_1)) < 90) and \
+               (min(segment[0][1], segment[1][1]) <= pt[1] <=
+                max(segment[0][1], segment[1][1]))
     else:
         # strategy 1
         return isbetween_circular(pt[0], lon_1, lon_2)
-- 
2.43.0


From 8e4d202b0951f54566fa326c97c0588cb11a87f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 121/130] fix: intersections of geographical lines

A pair of segments that do not intersect raised NoIntersection out of the
search, and vertices with elevations could not be handled.
---
 karta/geodesy.py         |  3 +++
 karta/vector/geometry.py | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index ce771ab..e7dcb11 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -160,6 +160,9 @@ def intersection_spherical(segment1, segment2):
     gc1 = eulerpole(*segment1)
     gc2 = eulerpole(*segment2)
     n = cross(gc1, gc2)
+    if n == (0.0, 0.0, 0.0):
+        # segments of one great circle
+        raise NoIntersection()
     lon, lat = cart2sph(*n)
     lon_antipodal = (lon+360)%360-180
 
diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 0e6e55d..16209d0 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -27,7 +27,7 @@ from . import table
 from .. import geodesy
 from ..crs import Cartesian, CartesianCRS, GeographicalCRS
 from ..crs import SphericalEarth
-from ..errors import GeometryError, CRSError
+from ..errors import GeometryError, CRSError, NoIntersection
 
 class Geometry(object):
     """ Abstract base class for all geometry types """
@@ -736,9 +736,15 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
                 interx = list(set(interx))
             return Multipoint(interx, crs=self.crs)
         else:
-            interx = (geodesy.intersection_spherical(a, b)
-                            for a in self.segment_tuples
-                            for b in other._segment_tuples_in(self.crs))
+            interx = []
+            for a in self.segment_tuples:
+                for b in other._segment_tuples_in(self.crs):
+                    try:
+                        interx.append(geodesy.intersection_spherical(
+                                            (a[0][:2], a[1][:2]),
+                                            (b[0][:2], b[1][:2])))
+                    except NoIntersection:
+                        pass
             if not keep_duplicates:
                 interx = list(set(interx))
             return Multipoint(interx, crs=self.crs)
-- 
2.43.0


From 51e67c93cc6db15292f6263482b2b4a4d97459b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:09 +0000
Subject: [PATCH 122/130] fix: masks by polygons keep the cells in holes masked

---
 karta/raster/grid.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 3e60503..c3b73d8 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -611,6 +611,19 @@ class RegularGrid(Grid):
                               nodata_value=self.nodata)
         return gridnew
 
+    def _poly_mask(self, poly):
+        """ Return a boolean array that is True for cells within a polygon and
+        outside its sub-polygons. """
+        ny, nx = self.size
+        x, y = poly.coords(self.crs)[:2]
+        if not poly.isclockwise():
+            x = x[::-1]
+            y = y[::-1]
+        msk = mask_poly(x, y, nx, ny, self.transform)
+        for sub in poly.subs:
+            msk = (msk & ~self._poly_mask(sub))
+        return msk
+
     def mask_by_poly(self, polys, inplace=False):
         """ Return a grid with all elements outside the bounds of a polygon
         masked as nodata.
@@ -641,14 +654,7 @@ class RegularGrid(Grid):
         ny, nx = self.size
         msk = np.zeros([ny, nx], dtype=np.bool)
         for poly in polys:
-
-            x, y = poly.coords(self.crs)[:2]
-            if not poly.isclockwise():
-                x = x[::-1]
-                y = y[::-1]
-
-            _msk = mask_poly(x, y, nx, ny, self.transform)
-            msk = (msk | _msk)
+            msk = (msk | self._poly_mask(poly))
 
         if inplace:
             for i in range(len(self.bands)):
-- 
2.43.0


From 6e306db661ecf42a0d304315b1c8746fac7143f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 123/130] fix: bounding boxes of multipart geometries across
 the dateline

---
 karta/vector/geometry.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 16209d0..d0d7731 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1451,6 +1451,19 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
                                    if poly.contains(point)]
         return self._subset(confirmed_indices)
 
+def _merge_longitude_ranges(ranges):
+    """ Return the narrowest range of longitudes containing all *ranges*, which
+    are tuples of western and eastern limits. """
+    widths = [(e-w if e >= w else e-w+360.0) for w, e in ranges]
+    merged = []
+    for west, _ in ranges:
+        merged.append((max((w-west) % 360.0 + width
+                           for (w, _), width in zip(ranges, widths)), west))
+    width, west = min(merged)
+    if width >= 360.0:
+        return -180.0, 180.0
+    return west, (west+width+180.0) % 360.0 - 180.0
+
 class MultiVertexMultipartMixin(object):
     """ Mix-in class for multipart classes for which it is reasonable to ask
     whether member geometries are within or touching a multi-vertex geometry.
@@ -1462,10 +1475,14 @@ class MultiVertexMultipartMixin(object):
     @cache_decorator("bbox")
     def bbox(self, crs=None):
         bbs = [part.bbox(crs=crs) for part in self]
-        xmin = min([bb[0] for bb in bbs])
         ymin = min([bb[1] for bb in bbs])
-        xmax = max([bb[2] for bb in bbs])
         ymax = max([bb[3] for bb in bbs])
+        if any(bb[0] > bb[2] for bb in bbs):
+            # ranges of longitude across the dateline
+            xmin, xmax = _merge_longitude_ranges([(bb[0], bb[2]) for bb in bbs])
+        else:
+            xmin = min([bb[0] for bb in bbs])
+            xmax = max([bb[2] for bb in bbs])
         return (xmin, ymin, xmax, ymax)
 
     @cache_decorator("extent")
-- 
2.43.0


From 5002e7ab40f98dd21a08b181115475f0918ea883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 124/130] fix: convex hull of a polygon examines the first
 vertex of its ring twice and fails

---
 karta/vector/convexhull.pyx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/karta/vector/convexhull.pyx b/karta/vector/convexhull.pyx
index a72fd21..490e026 100644
--- a/karta/vector/convexhull.pyx
+++ b/karta/vector/convexhull.pyx
@@ -19,8 +19,6 @@ def convexhull(CoordString cs):
     """ Return the convex hull for coordinates on a plane. """
     # Find the leftmost (upper) point
     cdef int n = len(cs)
-    if cs.ring:
-        n += 1
     cdef int ileftmost = 0
     cdef double x, xleftmost = cs.getX(0)
     cdef int i = 1
@@ -85,8 +83,6 @@ def convexhull_sph(CoordString cs):
     """ Return the convex hull for coordinates on a sphere. """
     # Find the leftmost (upper) point
     cdef int n = len(cs)
-    if cs.ring:
-        n += 1
     cdef int ileftmost = 0
     cdef double x, xleftmost = cs.getX(0)
     cdef int i = 1
-- 
2.43.0


From d5ff1a82e3742749cdc740347a68b74d802e4e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 125/130] fix: convex hull drops the farthest of several
 vertices in one direction

---
 karta/vector/convexhull.pyx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/karta/vector/convexhull.pyx b/karta/vector/convexhull.pyx
index 490e026..3992a62 100644
--- a/karta/vector/convexhull.pyx
+++ b/karta/vector/convexhull.pyx
@@ -48,8 +48,9 @@ def convexhull(CoordString cs):
 
     # Drop all but farthest of any duplicates
     cdef int last_idx = 0
-    cdef Vector2 ipt, lastpt = leftmost
+    cdef Vector2 ipt, lastpt
     cdef list indices = [azimuth_indices[0][1]]
+    lastpt = Vector2(cs.getX(indices[0]), cs.getY(indices[0]))
     i = 1
     while i != len(azimuth_indices):
         if azimuth_indices[i][0] == azimuth_indices[last_idx][0]:
@@ -57,10 +58,11 @@ def convexhull(CoordString cs):
             if dist2(leftmost, ipt) > dist2(leftmost, lastpt):
                 # replace last index with that of the current vertex
                 indices[-1] = azimuth_indices[i][1]
-                last_idx = i
-                lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
+                lastpt = ipt
         else:
             indices.append(azimuth_indices[i][1])
+            last_idx = i
+            lastpt = Vector2(cs.getX(indices[-1]), cs.getY(indices[-1]))
         i += 1
 
     # Initialize and scan for convex hull
@@ -112,8 +114,9 @@ def convexhull_sph(CoordString cs):
 
     # Drop all but farthest of any duplicates
     cdef int last_idx = 0
-    cdef Vector2 ipt, lastpt = leftmost
+    cdef Vector2 ipt, lastpt
     cdef list indices = [azimuth_indices[0][1]]
+    lastpt = Vector2(cs.getX(indices[0]), cs.getY(indices[0]))
     i = 1
     while i != len(azimuth_indices):
         if azimuth_indices[i][0] == azimuth_indices[last_idx][0]:
@@ -121,10 +124,11 @@ def convexhull_sph(CoordString cs):
             if dist_sph(leftmost, ipt) > dist_sph(leftmost, lastpt):
                 # replace last index with that of the current vertex
                 indices[-1] = azimuth_indices[i][1]
-                last_idx = i
-                lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
+                lastpt = ipt
         else:
             indices.append(azimuth_indices[i][1])
+            last_idx = i
+            lastpt = Vector2(cs.getX(indices[-1]), cs.getY(indices[-1]))
         i += 1
 
     # Initialize and scan for convex hull
-- 
2.43.0


From db70af572e13d8bca1530a27adedb4b9475a8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 126/130] fix: points along a line skipped what was left of a
 step on short segments

---
 karta/vector/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index d0d7731..1ba10ca 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -932,14 +932,14 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
 
             while pos < seg.length:
                 distance_to_endpt = pt0.distance(seg[1])
-                if distance_to_endpt >= dx:
+                if distance_to_endpt >= dx - remainder:
                     pt1 = pt0.walk(dx - remainder, az)
                     pos += dx - remainder
                     vertices.append(pt1.vertex())
                     remainder = 0
                     pt0 = pt1
                 else:
-                    remainder = distance_to_endpt
+                    remainder += distance_to_endpt
                     pos = seg.length
                     pt0 = seg[1]
         return Multipoint(vertices, crs=self.crs)
-- 
2.43.0


From bf2eab2df5a304838a5aae1e2520f77966e6bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 127/130] fix: points along lines of rank three were spaced by
 lengths in space but walked in the plane

---
 karta/vector/geometry.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 1ba10ca..5b26f51 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -922,11 +922,13 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         dx : float
             spacing of points
         """
+        # points are laid out in the plane, so lengths are measured there
+        line = Line([v[:2] for v in self.vertices()], crs=self.crs)
         remainder = 0
-        pt0 = self[0]
-        vertices = [pt0.vertex()[:2]]
+        pt0 = line[0]
+        vertices = [pt0.vertex()]
 
-        for seg in self.segments:
+        for seg in line.segments:
             pos = 0
             az = seg[0].azimuth(seg[1])
 
@@ -952,14 +954,16 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         n : int
             number of points to return
         """
-        segments = self.segments
-        Ltotal = self.cumulength()[-1]
+        # points are laid out in the plane, so lengths are measured there
+        line = Line([v[:2] for v in self.vertices()], crs=self.crs)
+        segments = line.segments
+        Ltotal = line.cumulength()[-1]
         step = Ltotal / float(n-1)
         step_remaining = step
 
-        vertices = [self[0].vertex()[:2]]
+        vertices = [line[0].vertex()]
         x = 0.0
-        pos = self[0]
+        pos = line[0]
         seg = next(segments)
         seg_remaining = seg.displacement()
 
-- 
2.43.0


From 841a3b8cff88a95f84017a1738ca8ac2fe2cb62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 128/130] fix: coefficient of the ellipsoidal area series

---
 karta/geodesy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index e7dcb11..f5cc66a 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -663,7 +663,7 @@ def _ellipsoidal_area(a, b, lambda12, phi1, phi2, alpha1, alpha2):
 
     C40 = (2.0/3 - ep2/15 + 4*ep2**2/105 - 8*ep2**3/315 + 64*ep2**4/3465 - 128*ep2**5/9009) \
         - (1.0/20 - ep2/35 + 2*ep2**2/105 - 16*ep2**3/1155 + 32*ep2**4/3003) * k2 \
-        + (1.0/42 - ep2/63 + 8*ep2**2/693 - 90*ep2**3/9009) * k2**2 \
+        + (1.0/42 - ep2/63 + 8*ep2**2/693 - 80*ep2**3/9009) * k2**2 \
         - (1.0/72 - ep2/99 + 10*ep2**2/1287) * k2**3 \
         + (1.0/110 - ep2/143) * k2**4 - k2**5/156
 
-- 
2.43.0


From 7b37f47499dd1849899f08bbf71266df5e78ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 129/130] fix: areas of geographical polygons across the
 equator or the date line

---
 karta/geodesy.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index f5cc66a..8479320 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -107,11 +107,13 @@ def sphere_azimuth(lon1, lat1, lon2, lat2):
 
 def spherical_area(r, x1, y1, x2, y2):
     """ Area between a geodesic and the equator on a sphere """
-    if x2 < x1:
-        reverse = -1
-    else:
-        reverse = 1
-    _, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    # areas change sign with the direction and with the side of the equator
+    reverse = 1
+    if tr["xflip"]:
+        reverse = -reverse
+    if tr["ysignswap"]:
+        reverse = -reverse
     phi1 = _radians(y1)
     phi2 = _radians(y2)
     lambda12 = _radians(x2-x1)
@@ -711,11 +713,13 @@ def ellipsoidal_area(a, b, x1, y1, x2, y2):
         latitude of geodesic segment end
 
     """
-    if x2 < x1:
-        reverse = -1
-    else:
-        reverse = 1
-    _, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    # areas change sign with the direction and with the side of the equator
+    reverse = 1
+    if tr["xflip"]:
+        reverse = -reverse
+    if tr["ysignswap"]:
+        reverse = -reverse
     phi1 = y1*pi/180.0
     phi2 = y2*pi/180.0
     lambda12 = (x2-x1)*pi/180.0
-- 
2.43.0


From 08e67fc7eb35fa6e073503a88c9aab2655b7f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 130/130] fix: equatorial distances across the date line are
 measured the short way round

---
 karta/geodesy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 8479320..52ea33c 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -425,7 +425,7 @@ def _ellipsoidal_inverse_equatorial(a, x1, x2):
     else:
         az = 90.0
         baz = -90.0
-    s12 = 2 * pi * a * abs(x1-x2)/360.0
+    s12 = 2 * pi * a * abs(diff)/360.0
     return az, baz, s12
 
 def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
-- 
2.43.0

