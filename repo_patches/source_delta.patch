From 04d8f7923e11ba4aca25061b7143eb6072d8e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:22 +0000
Subject: [PATCH 01/14] fix: report a non-negative cell volume for left-handed
 lattices

The volume was the signed determinant. For a left-handed cell it was negative,
so the cube root used for the reduction tolerance became NaN and the Niggli
reduction returned its input unreduced.
---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 7d765df..d15f540 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -121,7 +121,7 @@ impl Structure {
 
     /// Volume of the unit cell in angstroms
     pub fn volume(&self) -> f64 {
-        self.lattice.determinant()
+        self.lattice.determinant().abs()
     }
 
     /// Metric tensor of lattice matrix
-- 
2.43.0


From 300cfa007c9f002fd0a375e2803b61820d479f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:24 +0000
Subject: [PATCH 02/14] fix: measure site separations in the cell the sites are
 folded into

Site differences are fractional in the new cell, but were converted to angstroms
with the old lattice. A large supercell merged distinct atoms and never
terminated, and folding into a smaller cell kept duplicates or dropped atoms.
---
 src/reduce.rs    | 13 +++++++++----
 src/structure.rs | 14 +++++++-------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index e6aff14..24177f8 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -171,6 +171,12 @@ impl Reducer {
 
         let new_lattice = Matrix3::from_columns(&final_cart_vecs);
 
+        let new_frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
         let temp_frac_coords = Structure::get_frac_coords(&new_lattice, &temp_structure.coords);
 
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
@@ -181,9 +187,8 @@ impl Reducer {
             let mut eq = false;
             for new_coord in new_frac_coords.iter() {
                 let mut coord_diff = vec![coord - new_coord];
-                normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                let cart_coord_delta =
-                    Structure::get_cart_coords(&temp_structure.lattice, &coord_diff);
+                normalize_frac_vectors(&mut coord_diff, &new_frac_tols);
+                let cart_coord_delta = Structure::get_cart_coords(&new_lattice, &coord_diff);
 
                 if cart_coord_delta[0].magnitude().abs() <= (self.dtol * 2.0) {
                     eq = true;
@@ -192,7 +197,7 @@ impl Reducer {
             }
             if !eq {
                 let norm_coord = *coord;
-                normalize_frac_vectors(&mut vec![norm_coord], &frac_tols);
+                normalize_frac_vectors(&mut vec![norm_coord], &new_frac_tols);
                 new_frac_coords.push(norm_coord);
                 new_species.push(specie.clone());
             }
diff --git a/src/structure.rs b/src/structure.rs
index d15f540..b66c3a5 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -139,12 +139,6 @@ impl Structure {
     /// * `transformation_matrix` - A 3x3 matrix representing the transformation.
     /// * `pos_tol` - Position tolerance in angstroms to use when comparing atomic sites.
     pub fn apply_transformation(&mut self, transformation_matrix: &Matrix3<f64>, pos_tol: &f64) {
-        let frac_tols = Vector3::from_iterator(
-            self.lattice
-                .column_iter()
-                .map(|col| pos_tol / col.magnitude()),
-        );
-
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
 
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
@@ -155,6 +149,12 @@ impl Structure {
 
         let new_lattice = self.lattice * transformation_matrix;
 
+        let frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| pos_tol / col.magnitude()),
+        );
+
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
@@ -179,7 +179,7 @@ impl Structure {
                     for new_coord in new_frac_coords.iter() {
                         let mut coord_diff = vec![frac_coord - new_coord];
                         normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                        let cart_coord_delta = Self::get_cart_coords(&self.lattice, &coord_diff);
+                        let cart_coord_delta = Self::get_cart_coords(&new_lattice, &coord_diff);
 
                         if cart_coord_delta[0].magnitude().abs() <= (pos_tol * 2.0) {
                             eq = true;
-- 
2.43.0


From 26f2e6336fe022498fec8a90e5436e17d40ddb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:24 +0000
Subject: [PATCH 03/14] fix: stop the site search at the expected number of
 sites

The volume ratio was rounded to two decimals. Ratios such as 1/6 or 2/3 were
rounded up, so the number of sites found never reached the target and the
search looped forever.
---
 src/structure.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index b66c3a5..b60c8b8 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -158,11 +158,12 @@ impl Structure {
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let volume_ratio = transformation_matrix.determinant().abs();
 
         // Search for new sites in transformed cell using volume ratio to determine proper number of sites
+        let num_new_sites = (self.coords.len() as f64 * volume_ratio - 0.01).ceil();
         let mut mult = 2;
-        while (new_frac_coords.len() as f64 / self.coords.len() as f64) < volume_ratio {
+        while (new_frac_coords.len() as f64) < num_new_sites {
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
-- 
2.43.0


From 833834f3b157602902e4c554efd5b7a2f7a6be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:24 +0000
Subject: [PATCH 04/14] fix: keep only operations whose transformed rotation is
 integral

A rotation was kept as soon as one entry was 0 or 1, so operations that are not
symmetries of the larger cell were rounded and returned. The count of kept
operations is now taken per pass, and the volume ratio is no longer rounded.
---
 src/spacegroup.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index e77a627..613e293 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -50,7 +50,7 @@ impl SpaceGroup {
 
         // Find extra unit translations included in new cell if it is bigger
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let volume_ratio = transformation_matrix.determinant().abs();
 
         let mut new_operations: Vec<SymmOp> = Vec::new();
 
@@ -60,7 +60,8 @@ impl SpaceGroup {
         let mut initial_num_ops = self.operations.len() as f64;
 
         let mut mult = 2;
-        while (new_operations.len() as f64 / initial_num_ops) < volume_ratio {
+        while (new_operations.len() as f64) < (initial_num_ops * volume_ratio - 0.01).ceil() {
+            initial_num_ops = self.operations.len() as f64;
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             // Generate unit translation vectors
@@ -76,7 +77,7 @@ impl SpaceGroup {
                 // Throw out non-integer rotation matrices
                 if !float_rot
                     .iter()
-                    .any(|val| (val.abs() < ZERO_TOL) || ((val.abs() - 1.0).abs() < ZERO_TOL))
+                    .all(|val| (val - val.round()).abs() < ZERO_TOL)
                 {
                     initial_num_ops -= 1.0;
                     continue;
-- 
2.43.0


From 02ba6daac3979a702e37a31f7cb5a4ce82c0a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:24 +0000
Subject: [PATCH 05/14] fix: assign the rhombohedral lattice system to hR
 lattices

hR was treated as hexagonal because of its first letter, so the seven
rhombohedral space groups could never be looked up.
---
 src/data/core.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/core.rs b/src/data/core.rs
index 9f38019..1a26820 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -127,6 +127,10 @@ impl BravaisType {
     }
 
     pub fn lattice_system(&self) -> LatticeSystem {
+        if *self == BravaisType::hR {
+            return LatticeSystem::Rhombohedral;
+        }
+
         let system: String = self.to_string().chars().next().unwrap().to_string();
 
         LatticeSystem::from_str(&system).expect("Problem determining lattice system.")
-- 
2.43.0


From f07fed0f06eb330373f3f30c60142029299ec1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:24 +0000
Subject: [PATCH 06/14] fix: fall through to the less restricted lattice
 character sets

A reduced cell with A=B (or A=B=C) that matches none of the characters of that
set was rejected with a panic instead of being tested against the remaining
sets.
---
 src/analyzer.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 9cb31b5..896a423 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -384,17 +384,19 @@ impl SymmetryAnalyzer {
 
         let mut char_num = 0;
 
-        let vecs: Vec<(Vector3<f64>, u8)>;
+        // A lattice with more equal lengths also belongs to the less restricted sets
+        let mut vecs: Vec<(Vector3<f64>, u8)> = Vec::new();
 
         if cust_eq(&a, &b, &epsilon) && cust_eq(&a, &c, &epsilon) {
-            vecs = Self::get_first_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&a, &b, &epsilon) {
-            vecs = Self::get_second_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&b, &c, &epsilon) {
-            vecs = Self::get_third_set(type_i, a, b, d, e, f, epsilon);
-        } else {
-            vecs = Self::get_fourth_set(type_i, a, b, d, e, f);
+            vecs.extend(Self::get_first_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&a, &b, &epsilon) {
+            vecs.extend(Self::get_second_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&b, &c, &epsilon) {
+            vecs.extend(Self::get_third_set(type_i, a, b, d, e, f, epsilon));
         }
+        vecs.extend(Self::get_fourth_set(type_i, a, b, d, e, f));
 
         for (vec, num) in vecs {
             if vec
-- 
2.43.0


From 5d9b40a33c44f8a6fe636d658439e2885a367d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:24 +0000
Subject: [PATCH 07/14] fix: count formula units with a type that cannot
 overflow

More than 127 sites of one species overflowed the 8-bit tally.
---
 src/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index b60c8b8..3a6c467 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -334,7 +334,7 @@ impl Structure {
 
     /// Formula and reduced formula of the structure.
     pub fn formulas(&self) -> (String, String) {
-        let mut species_tally = HashMap::<&String, i8>::new();
+        let mut species_tally = HashMap::<&String, usize>::new();
 
         let mut max_count = 0;
 
@@ -346,7 +346,7 @@ impl Structure {
                 max_count = *count;
             }
         }
-        let mut gcf: i8 = 1;
+        let mut gcf: usize = 1;
 
         for div in 2..(max_count + 1) {
             if species_tally.values().all(|&tally| (tally % div) == 0) {
-- 
2.43.0


From 20935ca137c363660727b4141faac6d80c986f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:24 +0000
Subject: [PATCH 08/14] fix: never return an unreduced cell from the Delaunay
 reduction

The iteration limit was off by one. A cell still unreduced after 101 steps was
returned as reduced, and one reduced in exactly 100 steps was rejected.
---
 src/reduce.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 24177f8..93f8af5 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -431,7 +431,11 @@ impl Reducer {
         let mut count = 0;
 
         // Iterate until all scalar prods are <= zero
-        while scalar_prods.iter().any(|val| val > &ZERO_TOL) && count <= 100 {
+        while scalar_prods.iter().any(|val| val > &ZERO_TOL) {
+            if count == 100 {
+                panic!("Reached max number of iterations without reduction!")
+            }
+
             let mut max_scalar_prod = &0.0;
             let mut max_index = 0_usize;
             for (i, entry) in scalar_prods.iter().enumerate() {
@@ -460,10 +464,6 @@ impl Reducer {
             count += 1;
         }
 
-        if count == 100 {
-            panic!("Reached max number of iterations without reduction!")
-        }
-
         let new_lattice: Matrix3<f64>;
 
         if full_reduction {
-- 
2.43.0


From d2c2e93043ef8807826bee2ff8042ae5e6dca6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:20 +0000
Subject: [PATCH 09/14] fix: find spanning translations for left-handed cells

Only translations on the positive side of the first two were accepted as third
vector. A left-handed input could offer none, and a singular cell was returned.
The third vector is now the shortest non-coplanar one, negated when needed.
---
 src/reduce.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 93f8af5..7ef1013 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -532,13 +532,17 @@ impl Reducer {
         }
 
         for (vec_num, cart_vec) in cart_vecs[(second_ind + 1)..].iter().enumerate() {
-            if cross_vec.dot(cart_vec) > self.dtol {
+            if cross_vec.dot(cart_vec).abs() > self.dtol {
                 third_ind = vec_num + second_ind + 1;
                 break;
             }
         }
 
-        let final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], cart_vecs[third_ind]];
+        let mut final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], cart_vecs[third_ind]];
+
+        if cross_vec.dot(&final_vecs[2]) < 0.0 {
+            final_vecs[2] *= -1.0;
+        }
 
         final_vecs
     }
-- 
2.43.0


From 89a6eb36986fc40f6e64ba6bb663408688ba97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:55 +0000
Subject: [PATCH 10/14] fix: generate space groups with the composition of
 operations

The product operator pairs the rotation R1*R2 with the translation of the
reverse order. For operations that do not commute, generated groups contained
operations that are not products of the generators.
---
 src/spacegroup.rs |  2 +-
 src/symmop.rs     | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 613e293..afb8f6c 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -140,7 +140,7 @@ impl SpaceGroup {
             let mut generated: Vec<SymmOp> = Vec::new();
 
             for (m1, m2) in iproduct!(symm_ops.clone(), new_ops) {
-                let mut op = m1 * m2;
+                let mut op = m1.compose(&m2);
 
                 if !(symm_ops
                     .iter()
diff --git a/src/symmop.rs b/src/symmop.rs
index d1147bd..27178ee 100644
--- a/src/symmop.rs
+++ b/src/symmop.rs
@@ -40,6 +40,20 @@ impl SymmOp {
 
         self.translation = new_translation[0];
     }
+
+    /// Composition of symmetry operations `{ R1*R2 | (R1*t2)+t1 }`, which applies `op` first and then `self`.
+    ///
+    /// # Arguments
+    ///
+    /// * `op` - Symmetry operation to apply first.
+    pub fn compose(&self, op: &Self) -> Self {
+        let float_rotation: Matrix3<f64> = self.rotation.cast::<f64>();
+
+        Self {
+            rotation: self.rotation * op.rotation,
+            translation: (float_rotation * op.translation) + self.translation,
+        }
+    }
 }
 
 impl Mul for SymmOp {
-- 
2.43.0


From a83c01b42dd878b5e3ba5e7a850f2e33415bb796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:33 +0000
Subject: [PATCH 11/14] fix: choose translation vectors that span the full
 primitive lattice

The three shortest non-coplanar candidates may only span a sublattice for skewed
supercells, and a non-primitive cell was returned. Triples are now accepted by
the volume of the primitive cell, which the number of translations determines.
---
 src/reduce.rs | 58 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 7ef1013..8390b0b 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -118,7 +118,11 @@ impl Reducer {
         let mut cart_translation_vecs: Vec<Vector3<f64>> =
             Structure::get_cart_coords(&temp_structure.lattice, &translation_vecs);
 
-        let frac_translation_vecs = self.get_shortest_translation_vecs(&mut cart_translation_vecs);
+        // Every translation besides the three cell vectors adds a primitive cell to the input cell
+        let prim_volume = temp_structure.volume() / (translation_vecs.len() - 2) as f64;
+
+        let frac_translation_vecs =
+            self.get_shortest_translation_vecs(&mut cart_translation_vecs, prim_volume);
 
         //
         // 5.) Add combinations of shortest vectors
@@ -162,7 +166,8 @@ impl Reducer {
         let mut cart_translation_vecs: Vec<Vector3<f64>> =
             Structure::get_cart_coords(&temp_structure.lattice, &combination_vecs);
 
-        let final_cart_vecs = self.get_shortest_translation_vecs(&mut cart_translation_vecs);
+        let final_cart_vecs =
+            self.get_shortest_translation_vecs(&mut cart_translation_vecs, prim_volume);
 
         //
         // 6.) Create a new structure object with new lattice and coords.
@@ -514,37 +519,38 @@ impl Reducer {
     }
 
     /// Function to get three shortest (right-handed) cartestian translation vectors which still span the lattice.
-    fn get_shortest_translation_vecs(&self, cart_vecs: &mut [Vector3<f64>]) -> Vec<Vector3<f64>> {
+    ///
+    /// # Arguments
+    ///
+    /// * `cart_vecs` - Cartesian translation vectors to choose from.
+    /// * `volume` - Volume of the primitive cell.
+    fn get_shortest_translation_vecs(
+        &self,
+        cart_vecs: &mut [Vector3<f64>],
+        volume: f64,
+    ) -> Vec<Vector3<f64>> {
         cart_vecs.sort_by(|a, b| a.magnitude().partial_cmp(&b.magnitude()).unwrap());
 
-        let first = cart_vecs[0];
-        let mut cross_vec: Vector3<f64> = Vector3::new(0.0, 0.0, 0.0);
-        let mut second_ind = 1;
-        let mut third_ind = 2;
-
-        for (vec_num, cart_vec) in cart_vecs[1..].iter().enumerate() {
-            cross_vec = first.cross(cart_vec);
+        for i in 0..cart_vecs.len() {
+            for j in (i + 1)..cart_vecs.len() {
+                let cross_vec = cart_vecs[i].cross(&cart_vecs[j]);
 
-            if cross_vec.magnitude().abs() > self.dtol {
-                second_ind = vec_num + 1;
-                break;
-            }
-        }
+                for k in (j + 1)..cart_vecs.len() {
+                    let triple_prod = cross_vec.dot(&cart_vecs[k]);
 
-        for (vec_num, cart_vec) in cart_vecs[(second_ind + 1)..].iter().enumerate() {
-            if cross_vec.dot(cart_vec).abs() > self.dtol {
-                third_ind = vec_num + second_ind + 1;
-                break;
+                    // Shortest vectors may only span a sublattice, which has a larger volume
+                    if (triple_prod.abs() - volume).abs() < 0.1 * volume {
+                        return vec![
+                            cart_vecs[i],
+                            cart_vecs[j],
+                            cart_vecs[k] * triple_prod.signum(),
+                        ];
+                    }
+                }
             }
         }
 
-        let mut final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], cart_vecs[third_ind]];
-
-        if cross_vec.dot(&final_vecs[2]) < 0.0 {
-            final_vecs[2] *= -1.0;
-        }
-
-        final_vecs
+        panic!("Could not find translation vectors which span the lattice!")
     }
 
     /// Function to get scalar products from the Delaunay matrix
-- 
2.43.0


From 014ce8eaca141db2b75456bcfa06de8ba4daabee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:08 +0000
Subject: [PATCH 12/14] fix: invert the lattice directly where the pseudo
 inverse is inaccurate

The singular value decomposition of some well-conditioned lattices stops
short of convergence, which moved converted sites by up to 1e-3 Angstrom.
---
 src/structure.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 3a6c467..f3c9579 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -282,9 +282,7 @@ impl Structure {
         lattice: &Matrix3<f64>,
         cart_coords: &[Vector3<f64>],
     ) -> Vec<Vector3<f64>> {
-        let inverted_lattice = (*lattice)
-            .pseudo_inverse(ZERO_TOL)
-            .expect("Crystal lattice is not invertible!");
+        let inverted_lattice = Self::invert_lattice(lattice);
 
         let mut new_coords = cart_coords.to_owned();
 
@@ -294,6 +292,24 @@ impl Structure {
         new_coords
     }
 
+    /// Inverse of a lattice matrix. The pseudo inverse can miss the true one by far more than
+    /// rounding, in which case the lattice is inverted directly.
+    fn invert_lattice(lattice: &Matrix3<f64>) -> Matrix3<f64> {
+        let inverted_lattice = (*lattice)
+            .pseudo_inverse(ZERO_TOL)
+            .expect("Crystal lattice is not invertible!");
+
+        let error = lattice * inverted_lattice - Matrix3::identity();
+
+        if error.iter().all(|val| val.abs() <= 1e-12) {
+            inverted_lattice
+        } else {
+            (*lattice)
+                .try_inverse()
+                .expect("Crystal lattice is not invertible!")
+        }
+    }
+
     /// Reciprocal lattice of the structure
     pub fn reciprocal_lattice(&self) -> Matrix3<f64> {
         let mut reciprocal_lattice = Matrix3::identity();
@@ -384,10 +400,7 @@ impl Structure {
     ///
     /// * `structure` - A transformed structure
     pub fn get_transformation_matrix(&self, structure: &Structure) -> Matrix3<f64> {
-        let inv_lattice: Matrix3<f64> = self
-            .lattice
-            .pseudo_inverse(ZERO_TOL)
-            .expect("Crystal lattice is not invertible!");
+        let inv_lattice: Matrix3<f64> = Self::invert_lattice(&self.lattice);
 
         inv_lattice * structure.lattice
     }
-- 
2.43.0


From f84de92a9fc1d791fa3da7c84ff28bc1705fe2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:44 +0000
Subject: [PATCH 13/14] fix: make the conventional basis of lattice character
 17 right-handed

---
 src/data/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/core.rs b/src/data/core.rs
index 1a26820..0d96b5a 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -238,7 +238,7 @@ lazy_static! {
             (15, Matrix3::new(1,0,0,0,1,0,1,1,2)),
             (16, Matrix3::new(-1,-1,0,1,-1,0,1,1,2)),
             (14, Matrix3::new(1,1,0,-1,1,0,0,0,1)),
-            (17, Matrix3::new(1,-1,0,1,1,0,-1,0,-1)),
+            (17, Matrix3::new(-1,1,0,-1,-1,0,1,0,1)),
             // Third set, B=C
             (18, Matrix3::new(0,-1,1,1,-1,-1,1,0,0)),
             (19, Matrix3::new(-1,0,0,0,-1,1,-1,1,1)),
-- 
2.43.0


From f0e6528d017072b3dd251c61f5f084ae2e7be7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:29 +0000
Subject: [PATCH 14/14] fix: classify the angles of a reduced cell with the
 tolerance of the Niggli reduction

---
 src/analyzer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 896a423..b8c14d0 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -375,8 +375,9 @@ impl SymmetryAnalyzer {
         let e = a_vec.dot(&c_vec);
         let f = a_vec.dot(&b_vec);
 
-        // Count negatives to avoid floating point multiplication
-        let (num_negative, num_zero) = num_negative_zero(&vec![d, e, f], &epsilon);
+        // Count negatives to avoid floating point multiplication, with the scale of the Niggli reduction
+        let (num_negative, num_zero) =
+            num_negative_zero(&vec![2.0 * d, 2.0 * e, 2.0 * f], &epsilon);
 
         let type_i = (num_negative % 2 == 0) && (num_zero == 0);
 
-- 
2.43.0

