From b69359227cbef858a92681e067fc304234d48ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 01/23] fix: project onto a line whose direction is not a unit
 vector

---
 src/curve/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/line.rs b/src/curve/line.rs
index 355bc73..36734d5 100644
--- a/src/curve/line.rs
+++ b/src/curve/line.rs
@@ -13,6 +13,6 @@ impl Curve for Line {
     }
 
     fn project(&self, point: Point3) -> Float {
-        (point - self.origin).dot(self.direction)
+        (point - self.origin).dot(self.direction) / self.direction.length_squared()
     }
 }
-- 
2.43.0


From 65e96418cdd967dca018c4800fac29a6b331735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 02/23] fix: trimming a B-spline surface must not write files
 or debug output

---
 src/surface/bspline.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 5717765..7872d26 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -222,7 +222,6 @@ impl Surface for BSplineSurface<Point3> {
             })
             .flatten()
             .collect::<Vec<_>>();
-        save_bound_as_obj(&vertices, "bound.obj").unwrap();
         let mut points: Vec<Point2> = self.project_points(&vertices);
         let boundary_point_count = points.len();
 
@@ -259,7 +258,6 @@ impl Surface for BSplineSurface<Point3> {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-            dbg!(polygons.len());
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
-- 
2.43.0


From 3ab7c34ff5e497a653dd527d56e55e1669c5f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 03/23] fix: write point clouds completely

---
 src/points.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 77f3391..8db6a68 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -43,7 +43,7 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
 pub fn save_point_cloud<P: AsRef<Path>>(points: &[Point3], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
+        file.write_all(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
     }
     Ok(())
 }
@@ -54,7 +54,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 ) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for (point, normal) in points {
-        file.write(
+        file.write_all(
             format!(
                 "{} {} {} {} {} {}\n",
                 point.x, point.y, point.z, normal.x, normal.y, normal.z
@@ -68,7 +68,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 pub fn save_points<P: AsRef<Path>>(points: &[Point2], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{},{}\n", point.x, point.y).as_bytes())?;
+        file.write_all(format!("{},{}\n", point.x, point.y).as_bytes())?;
     }
     Ok(())
 }
-- 
2.43.0


From aae05d21044c77570027c80ff2df86b389384797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 04/23] fix: write STL files completely and report the errors
 of the last flush

---
 src/model.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index a75f71b..8f5c853 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -25,7 +25,7 @@ impl<F: Face> Model<F> {
     pub fn save_as_stl<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
         use std::io::{Seek, SeekFrom, Write};
         let path = std::path::Path::new(filename.as_ref());
-        let name = path.file_stem().unwrap().to_string_lossy();
+        let name = path.file_stem().unwrap_or_default().to_string_lossy();
         let file = std::fs::File::create(path)?;
         let mut writer = std::io::BufWriter::new(file);
 
@@ -33,34 +33,33 @@ impl<F: Face> Model<F> {
         let mut header = Vec::with_capacity(header_size);
         writeln!(header, "Binary STL file\nName: {:57}", name)?;
         header.truncate(header_size);
-        writer.write(&header)?;
+        writer.write_all(&header)?;
 
         let mut triangle_count: usize = 0;
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
 
         for face in &self.faces {
             let mesh = face.get_triangle_mesh();
             triangle_count += mesh.triangle_count();
             for triangle in mesh.triangles.chunks(3) {
                 // normal
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
                 // vertices
                 for index in triangle {
                     let point = &mesh.vertices[*index as usize];
-                    writer.write(&(point.x as f32).to_le_bytes())?;
-                    writer.write(&(point.y as f32).to_le_bytes())?;
-                    writer.write(&(point.z as f32).to_le_bytes())?;
+                    writer.write_all(&(point.x as f32).to_le_bytes())?;
+                    writer.write_all(&(point.y as f32).to_le_bytes())?;
+                    writer.write_all(&(point.z as f32).to_le_bytes())?;
                 }
                 // attribute byte count
-                writer.write(&[0u8, 0u8])?;
+                writer.write_all(&[0u8, 0u8])?;
             }
         }
         writer.seek(SeekFrom::Start(header_size as u64))?;
-        dbg!(triangle_count);
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
-        Ok(())
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
+        writer.flush()
     }
 
     pub fn save_as_obj<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
-- 
2.43.0


From 67f8d7e61ae049a20bcaa41462950edb4319a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 05/23] fix: boxed surfaces lost their normals

---
 src/surface.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface.rs b/src/surface.rs
index e9c65b7..1f50a33 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -24,6 +24,10 @@ impl Surface for Box<dyn Surface> {
         self.as_ref().get_point(u, v)
     }
 
+    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
+        self.as_ref().get_normals(params)
+    }
+
     fn trim(&self, bounds: &[EdgeLoop]) -> TriangleMesh {
         self.as_ref().trim(bounds)
     }
-- 
2.43.0


From e01f0f9cbdb94c1ec38867f952e637d114cd506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 06/23] fix: the polygon of an edge loop without edges is empty

---
 src/surface.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/surface.rs b/src/surface.rs
index 1f50a33..75b9dad 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -83,9 +83,10 @@ impl EdgeLoop {
             vertices.extend(edge.get_points());
         }
         vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));
-        if vertices[0]
-            .distance_squared(vertices[vertices.len() - 1])
-            .near(0.0)
+        if !vertices.is_empty()
+            && vertices[0]
+                .distance_squared(vertices[vertices.len() - 1])
+                .near(0.0)
         {
             vertices.pop();
         }
-- 
2.43.0


From bb2953f2071215a811f9dc1981f183b9a7700d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 07/23] fix: inner points of a cylinder with holes come from
 the ring

---
 src/surface/cylinder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 4259fed..6490266 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -114,7 +114,7 @@ impl Surface for Cylinder {
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
-                    .map(|p| self.get_point(p.x, p.y)),
+                    .map(|&p| self.generate_point_from_ring(p, d)),
             );
             return TriangleMesh {
                 vertices,
-- 
2.43.0


From 4a8ab1f4d42ba5f58800c965325b5ba6c3dfd0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 08/23] fix: an edge that starts and ends at one point of a
 circle is the full circle

---
 src/curve/circle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/circle.rs b/src/curve/circle.rs
index 216d839..29dc47b 100644
--- a/src/curve/circle.rs
+++ b/src/curve/circle.rs
@@ -31,10 +31,10 @@ impl Curve for Circle {
     // The sense of a curve is in the direction of increasing parameter
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
         let (a0, a1) = range;
-        if same_sense && a0 > a1 {
+        if same_sense && a0 >= a1 {
             return (a0, a1 + crate::consts::TAU);
         }
-        if !same_sense && a0 < a1 {
+        if !same_sense && a0 <= a1 {
             return (a0 + crate::consts::TAU, a1);
         }
         (a0, a1)
-- 
2.43.0


From f374e8de92952403ace1e5e271b3d3e2cefcec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 09/23] fix: rounding at the end of a polyline made get_point
 panic

---
 src/curve/polyline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index a244777..0a094ff 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -53,7 +53,7 @@ impl Curve for Polyline {
                         .lerp(self.vertices[index + 1], length / segment_length);
                 }
             }
-            unreachable!()
+            self.end()
         }
     }
 
-- 
2.43.0


From 5b161bfb4d42c7d1bcc628a7795760086f490555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 10/23] fix: projecting beyond a vertex of a polyline left the
 nearest segment

---
 src/curve/polyline.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index 0a094ff..0ccb385 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -69,9 +69,12 @@ impl Curve for Polyline {
             }
         }
 
+        let start = self.vertices[min_index];
+        let segment_length = self.segment_lengths[min_index];
+        let along = (point - start).dot(self.vertices[min_index + 1] - start)
+            * utils::inv_or_zero(segment_length);
         let length = self.segment_lengths.iter().take(min_index).sum::<Float>()
-            + (point - self.vertices[min_index])
-                .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize());
+            + along.clamp(0.0, segment_length);
         (length / self.length).clamp(0.0, 1.0)
     }
 }
-- 
2.43.0


From 6e3681410d9b00263efd4be1c71acb2255942fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 11/23] fix: parameters below the first knot belong to the
 first span

---
 src/knot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knot.rs b/src/knot.rs
index 79d792a..62814a5 100644
--- a/src/knot.rs
+++ b/src/knot.rs
@@ -57,7 +57,7 @@ impl KnotVector {
                 index
             }
         } else {
-            self.multiplicity(0)
+            self.multiplicity(0) - 1
         }
     }
 
-- 
2.43.0


From 050a520547dbe6de7cecde869673a82bc5d69329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 12/23] fix: inserting a knot into the first spans of an
 unclamped curve panicked

---
 src/curve/bspline.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 5dced54..90626d7 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -55,8 +55,12 @@ impl BSplineCurve<Point3> {
             for i in (start..end).rev() {
                 let delta = self.knots[i + p + 1] - self.knots[i];
                 let a = (knot - self.knots[i]) * utils::inv_or_zero(delta);
-                self.control_points[i] =
-                    self.control_points[i - 1] * (1.0 - a) + self.control_points[i] * a;
+                let previous = if i > 0 {
+                    self.control_points[i - 1]
+                } else {
+                    Point3::ZERO
+                };
+                self.control_points[i] = previous * (1.0 - a) + self.control_points[i] * a;
             }
         }
     }
-- 
2.43.0


From 8da2e28670687a439831292af7ef11a7ae9829e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 13/23] fix: triangulating a polygon without proper vertices
 panicked

---
 src/utils/polygon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 16d916d..f277e94 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -69,7 +69,7 @@ pub fn trianglate_polygon(
     mut concave_points: Vec<usize>,
 ) -> Vec<u32> {
     let n = vertices.len();
-    let mut triangles = Vec::with_capacity((n - 2) * 3);
+    let mut triangles = Vec::with_capacity(n.saturating_sub(2) * 3);
     let mut prev_m = usize::MAX;
 
     loop {
-- 
2.43.0


From f6088ef40668b899080517061b8529abd0ce7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 14/23] fix: projecting onto a B-spline curve of degree 1
 ignored its knots

---
 src/curve/bspline.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 90626d7..7f6bb4d 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -149,8 +149,17 @@ impl Curve for BSplineCurve<Point3> {
 
     fn project(&self, point: Point3) -> Float {
         if self.degree() == 1 {
-            let ratio = crate::curve::Polyline::new(self.control_points.clone()).project(point);
-            return utils::range_at(self.knots.range(), ratio);
+            // a polyline that passes its vertices at the inner knots
+            let polyline = crate::curve::Polyline::new(self.control_points.clone());
+            let mut length = polyline.project(point) * polyline.length;
+            for (index, &segment_length) in polyline.segment_lengths.iter().enumerate() {
+                if length <= segment_length {
+                    let span = (self.knots[index + 1], self.knots[index + 2]);
+                    return utils::range_at(span, length * utils::inv_or_zero(segment_length));
+                }
+                length -= segment_length;
+            }
+            return self.knots[self.control_points.len()];
         }
         let der1 = self.derivative();
         let der2 = der1.derivative();
-- 
2.43.0


From 7e136b3caf014f4f993a0c9a1721e0670245b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 15/23] fix: a malformed number in a point cloud is an error,
 not a panic

---
 src/points.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 8db6a68..0852398 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -8,6 +8,11 @@ pub fn scale_points(points: &[Point3], scale: Float) -> Vec<Point3> {
     points.iter().map(|&point| point * scale).collect()
 }
 
+fn parse_float(text: &str) -> std::io::Result<Float> {
+    Float::from_str(text)
+        .map_err(|error| std::io::Error::new(std::io::ErrorKind::InvalidData, error))
+}
+
 pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>> {
     let bytes = std::fs::read(file)?;
     let cursor = std::io::Cursor::new(bytes);
@@ -25,14 +30,14 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
             .as_slice()
         {
             [x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_float(x)?,
+                parse_float(y)?,
+                parse_float(z)?,
             )),
             [_, x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_float(x)?,
+                parse_float(y)?,
+                parse_float(z)?,
             )),
             _ => {}
         }
-- 
2.43.0


From 5ba862aefaf81be9b1f42f6828d4e67186ea66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 16/23] fix: the parameter of a STEP line is measured in its
 vector

---
 src/model/step_reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index a2d9416..b90a551 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -131,8 +131,11 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
             .unwrap();
         let direction = reader
             .get_entity::<Vector>(line.dir())
-            .and_then(|vector| reader.get_entity::<Direction>(vector.orientation()))
-            .map(|dir| vec3(dir.direction_ratios()))
+            .and_then(|vector| {
+                reader
+                    .get_entity::<Direction>(vector.orientation())
+                    .map(|dir| vec3(dir.direction_ratios()).normalize() * vector.magnitude().0)
+            })
             .unwrap();
         return Some(Box::new(crate::curve::Line { origin, direction }));
     }
-- 
2.43.0


From 1a31c22242b55451dffcc7803e362aafb5b4b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 17/23] fix: a curve trimmed by points as well as parameters
 made the STEP reader panic

---
 src/model/step_reader.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index b90a551..660b16f 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -399,12 +399,14 @@ fn extract_curve_segment(
     if let Some(segment) = reader.get_entity::<CompositeCurveSegment>(segment_ref) {
         if let Some(trimmed_curve) = reader.get_entity::<TrimmedCurve>(segment.parent_curve()) {
             if let Some(basis_curve) = extract_curve(reader, trimmed_curve.basis_curve()) {
-                let param1 =
-                    get_trimming_parameter_value(trimmed_curve.trim_1().iter().next().unwrap())
-                        .unwrap();
-                let param2 =
-                    get_trimming_parameter_value(trimmed_curve.trim_2().iter().next().unwrap())
-                        .unwrap();
+                let param1 = trimmed_curve
+                    .trim_1()
+                    .iter()
+                    .find_map(get_trimming_parameter_value)?;
+                let param2 = trimmed_curve
+                    .trim_2()
+                    .iter()
+                    .find_map(get_trimming_parameter_value)?;
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
                 return Some(CurveSegment {
-- 
2.43.0


From 868a2160434f34468040306c130346d219ca7a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 18/23] fix: composite curve segments of opposite sense were
 not reversed

---
 src/model/step_reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 660b16f..3b94a4b 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -384,6 +384,15 @@ fn extract_surface(
     return None;
 }
 
+/// Reverse a parameter range which is traversed against its direction
+fn directed((start, end): (Float, Float), same_sense: bool) -> (Float, Float) {
+    if same_sense {
+        (start, end)
+    } else {
+        (end, start)
+    }
+}
+
 fn get_trimming_parameter_value(measure: &TrimmingSelect) -> Option<f64> {
     if let TrimmingSelect::ParameterValue(value) = measure {
         Some(value.0)
@@ -409,6 +418,7 @@ fn extract_curve_segment(
                     .find_map(get_trimming_parameter_value)?;
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
+                let parameter_range = directed(parameter_range, segment.same_sense());
                 return Some(CurveSegment {
                     curve: basis_curve,
                     parameter_range,
-- 
2.43.0


From 12e3dfc463186221a0e82ccb3d6d84f7de635a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 19/23] fix: oriented edges of opposite orientation were not
 reversed

---
 src/model/step_reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 3b94a4b..6e87708 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -459,7 +459,11 @@ impl ModelReader {
                                 .iter()
                                 .filter_map(|edge| {
                                     reader.get_entity::<OrientedEdge>(edge).and_then(|edge| {
-                                        extract_edge_curve(&reader, edge.edge_element())
+                                        let mut segment =
+                                            extract_edge_curve(&reader, edge.edge_element())?;
+                                        segment.parameter_range =
+                                            directed(segment.parameter_range, edge.orientation());
+                                        Some(segment)
                                     })
                                 })
                                 .collect::<Vec<_>>();
-- 
2.43.0


From d3c79202a58fb0bd9b8bcf773d06286be41d87d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:11 +0000
Subject: [PATCH 20/23] fix: the outer bounds of STEP faces were dropped

---
 src/model/step_reader.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 6e87708..432baf6 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -452,8 +452,16 @@ impl ModelReader {
             if let Some(surface) = extract_surface(&reader, advanced_face) {
                 let mut bounds = Vec::with_capacity(advanced_face.bounds().len());
                 for bound in advanced_face.bounds() {
-                    if let Some(face_bound) = reader.get_entity::<FaceBound>(bound) {
-                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound.bound()) {
+                    let face_bound = reader
+                        .get_entity::<FaceBound>(bound)
+                        .map(|bound| bound.bound())
+                        .or_else(|| {
+                            reader
+                                .get_entity::<FaceOuterBound>(bound)
+                                .map(|bound| bound.bound())
+                        });
+                    if let Some(face_bound) = face_bound {
+                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound) {
                             let edges = edge_loop
                                 .edge_list()
                                 .iter()
-- 
2.43.0


From 41112e0dc4c6329777dad211f7c75870e3b2fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:11 +0000
Subject: [PATCH 21/23] fix: STEP face bounds of opposite orientation were not
 reversed

---
 src/model/step_reader.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 432baf6..6a74b42 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -454,15 +454,15 @@ impl ModelReader {
                 for bound in advanced_face.bounds() {
                     let face_bound = reader
                         .get_entity::<FaceBound>(bound)
-                        .map(|bound| bound.bound())
+                        .map(|bound| (bound.bound(), bound.orientation()))
                         .or_else(|| {
                             reader
                                 .get_entity::<FaceOuterBound>(bound)
-                                .map(|bound| bound.bound())
+                                .map(|bound| (bound.bound(), bound.orientation()))
                         });
-                    if let Some(face_bound) = face_bound {
+                    if let Some((face_bound, orientation)) = face_bound {
                         if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound) {
-                            let edges = edge_loop
+                            let mut edges = edge_loop
                                 .edge_list()
                                 .iter()
                                 .filter_map(|edge| {
@@ -475,6 +475,12 @@ impl ModelReader {
                                     })
                                 })
                                 .collect::<Vec<_>>();
+                            if !orientation {
+                                edges.reverse();
+                                for edge in &mut edges {
+                                    edge.parameter_range = directed(edge.parameter_range, false);
+                                }
+                            }
                             bounds.push(crate::surface::EdgeLoop { edges });
                         }
                     }
-- 
2.43.0


From ac6e9858cf166d4c7562be097ed5d017eddedef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 22/23] fix: STEP placements with omitted or unnormalised axes

---
 src/model/step_reader.rs | 54 +++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 6a74b42..0cfa0dc 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -33,22 +33,26 @@ fn vertex_point(reader: &Ap214Reader, vertex_ref: &EntityRef) -> Point3 {
         .unwrap()
 }
 
-fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Option<Vec3>) {
+/// Unit vector of an optional direction
+fn unit_direction(reader: &Ap214Reader, direction_ref: &Option<EntityRef>) -> Option<Vec3> {
+    direction_ref
+        .as_ref()
+        .and_then(|direction| reader.get_entity::<Direction>(direction))
+        .map(|direction| vec3(direction.direction_ratios()).normalize())
+}
+
+fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Vec3) {
     let placement = reader.get_entity::<Axis1Placement>(placement_ref).unwrap();
     let location = reader
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let axis = unit_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
     (location, axis)
 }
 
-fn axis2_placement_3d(
-    reader: &Ap214Reader,
-    placement_ref: &EntityRef,
-) -> (Point3, Option<Vec3>, Option<Vec3>) {
+/// Location, z axis and x axis of a placement, the axes are perpendicular unit vectors
+fn axis2_placement_3d(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Vec3, Vec3) {
     let placement = reader
         .get_entity::<Axis2Placement3d>(placement_ref)
         .unwrap();
@@ -56,12 +60,16 @@ fn axis2_placement_3d(
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let z_axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    let x_axis = reader
-        .get_entity::<Direction>(placement.ref_direction().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let z_axis = unit_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
+    let reference = unit_direction(reader, placement.ref_direction()).unwrap_or_else(|| {
+        if z_axis.cross(Vec3::X) == Vec3::ZERO {
+            Vec3::Y
+        } else {
+            Vec3::X
+        }
+    });
+    // the reference direction only approximates the x axis
+    let x_axis = (reference - z_axis * reference.dot(z_axis)).normalize();
     (location, z_axis, x_axis)
 }
 
@@ -143,8 +151,8 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
         let (center, axis, ref_dir) = axis2_placement_3d(reader, circle.position());
         return Some(Box::new(crate::curve::Circle {
             center,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: circle.radius().0,
         }));
     }
@@ -199,12 +207,8 @@ fn extract_surface(
     let same_sense = face.same_sense();
     if let Some(plane) = reader.get_entity::<Plane>(face.face_geometry()) {
         let (origin, z_axis, x_axis) = axis2_placement_3d(reader, plane.position());
-        let normal = if same_sense {
-            z_axis.unwrap()
-        } else {
-            -z_axis.unwrap()
-        };
-        let u_axis = x_axis.unwrap();
+        let normal = if same_sense { z_axis } else { -z_axis };
+        let u_axis = x_axis;
         let surface = crate::surface::Plane {
             origin,
             normal,
@@ -221,8 +225,8 @@ fn extract_surface(
         let (origin, axis, ref_dir) = axis2_placement_3d(reader, cylinder.position());
         let surface = crate::surface::Cylinder {
             origin,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: cylinder.radius().0,
         };
         return Some(SurfacePatch {
@@ -371,7 +375,7 @@ fn extract_surface(
             let (origin, axis) = axis1_placement(reader, revolution.axis_position());
             let surface = crate::surface::SpinSurface {
                 origin,
-                axis: axis.unwrap(),
+                axis,
                 section,
             };
             return Some(SurfacePatch {
-- 
2.43.0


From af9d63ac8bff538c4f23203de0c91a8bf1c5d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:29 +0000
Subject: [PATCH 23/23] fix: a vertex dropped as collinear while clipping ears
 still blocked other ears

---
 src/utils/polygon.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index f277e94..2749345 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -108,6 +108,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((m + i - 1).rem_euclid(m));
                             }
                             _ => {}
@@ -120,6 +121,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((i + 1).rem_euclid(m));
                             }
                             _ => {}
-- 
2.43.0

