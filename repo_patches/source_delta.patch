From b9d026ae5d8362cbe5a9495c099627c9e8b1ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:23 +0000
Subject: [PATCH 01/24] fix: offset first ghost coordinate by the whole padding
 in Grid::generate

The first stored node was placed one cell outside the box whatever the
padding, so that with setPadding(p), p != 1, every coordinate was shifted
by p - 1 cells.
---
 src/cpu/grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index 00a7f95..b0a0ca5 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -188,7 +188,7 @@ void GALS::CPU::Grid<T, DIM>::generate(T x_min, T x_max, T y_min, T y_max, T z_m
 
   for (int i = 0; i < DIM; ++i) m_one_over_dx[i] = static_cast<T>(1.) / m_dx[i];
 
-  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_mask[i]);
+  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_pad * m_mask[i]);
 
   Vec3<T> elem;
 
-- 
2.43.0


From 4cbaf171125acbcc32f846a4bd301453c1edd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:23 +0000
Subject: [PATCH 02/24] fix: no signed overflow in Grid::index for the unused
 axes of a node id

baseNodeId leaves INT_MAX on the axes a grid does not have; INT_MAX + pad
was evaluated before the mask removed it.
---
 src/cpu/grid.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index b0a0ca5..d3926c4 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -116,8 +116,8 @@ const int GALS::CPU::Grid<T, DIM>::getPadding() const
 template <typename T, int DIM>
 const std::size_t GALS::CPU::Grid<T, DIM>::index(const int i, const int j, const int k) const
 {
-  const std::size_t idx = ((k + m_pad) * (m_nx + 2 * m_pad) * (m_ny + 2 * m_pad) * m_mask[2]) +
-                          ((j + m_pad) * (m_nx + 2 * m_pad) * m_mask[1]) + ((i + m_pad) * m_mask[0]);
+  const std::size_t idx = ((k * m_mask[2] + m_pad) * (m_nx + 2 * m_pad) * (m_ny + 2 * m_pad) * m_mask[2]) +
+                          ((j * m_mask[1] + m_pad) * (m_nx + 2 * m_pad) * m_mask[1]) + ((i + m_pad) * m_mask[0]);
 
   return idx;
 }
-- 
2.43.0


From e42b683f3a3553c1ce105ab524d3368f7b593df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:23 +0000
Subject: [PATCH 03/24] fix: keep Grid::baseNodeId within the stored nodes

A departure point beyond the ghost layer gave a base node whose
neighbours lie outside the storage: Hermite interpolation then read (and
the double to int conversion overflowed) out of bounds.
---
 src/cpu/grid.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index d3926c4..2956c61 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -134,7 +134,11 @@ const GALS::CPU::Vec3<int> GALS::CPU::Grid<T, DIM>::baseNodeId(const Vec3<T>& x)
   Vec3<int> base_node_id(INT_MAX, INT_MAX, INT_MAX);
 
   for (int axis = 0; axis < DIM; ++axis) {
-    base_node_id[axis] = floor(((x[axis] - m_box_min[axis]) * m_one_over_dx[axis]) - 0.5);
+    const T node_min = -m_pad, node_max = this->numCells()[axis] + m_pad - 2;
+    const T node = floor(((x[axis] - m_box_min[axis]) * m_one_over_dx[axis]) - 0.5);
+
+    // Positions beyond the outermost nodes use the outermost cell.
+    base_node_id[axis] = node < node_min ? node_min : (node > node_max ? node_max : node);
   }
 
   return base_node_id;
-- 
2.43.0


From 19e2c1a03dc38a710e58065cb29503c0331669b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:23 +0000
Subject: [PATCH 04/24] fix: difference along the derivative axis in the
 gradient of a vector field

Entry (axis, cmpt) is d alpha[axis] / d x[cmpt], but the stencil was laid
along axis: every off-diagonal entry was wrong.
---
 src/cpu/gradient/second-order-central.cc | 4 ++--
 src/cpu/gradient/third-order.cc          | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/gradient/second-order-central.cc b/src/cpu/gradient/second-order-central.cc
index da69738..ca00650 100644
--- a/src/cpu/gradient/second-order-central.cc
+++ b/src/cpu/gradient/second-order-central.cc
@@ -81,8 +81,8 @@ void GALS::CPU::SecondOrderCentral<T, T_GRID>::compute(const Array<T_GRID, Vec3<
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / dx[cmpt];
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] -
-                 alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis]) *
+                (alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] -
+                 alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx * static_cast<T>(0.5);
           }
         }
diff --git a/src/cpu/gradient/third-order.cc b/src/cpu/gradient/third-order.cc
index be3f517..005fd2d 100644
--- a/src/cpu/gradient/third-order.cc
+++ b/src/cpu/gradient/third-order.cc
@@ -81,11 +81,11 @@ void GALS::CPU::ThirdOrder<T, T_GRID>::compute(const Array<T_GRID, Vec3<T>> &alp
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / (6 * dx[cmpt]);
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (2 * alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] +
+                (2 * alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] +
                  3 * alpha(i, j, k)[axis] -
-                 6 * alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis] +
-                 1 * alpha(i - 2 * axis_vectors(axis, 0), j - 2 * axis_vectors(axis, 1),
-                           k - 2 * axis_vectors(axis, 2))[axis]) *
+                 6 * alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis] +
+                 1 * alpha(i - 2 * axis_vectors(cmpt, 0), j - 2 * axis_vectors(cmpt, 1),
+                           k - 2 * axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx;
           }
         }
-- 
2.43.0


From b56b1442bb40fb9309a65d061403297860473a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:23 +0000
Subject: [PATCH 05/24] fix: Vec3::min for tied minimal components

(1, 1, 2).min() returned 2.
---
 src/cpu/vec3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/vec3.cc b/src/cpu/vec3.cc
index b9a67b5..00626e1 100644
--- a/src/cpu/vec3.cc
+++ b/src/cpu/vec3.cc
@@ -76,8 +76,8 @@ const double GALS::CPU::Vec3<T>::mag() const
 template <typename T>
 const T GALS::CPU::Vec3<T>::min() const
 {
-  if (m_data[0] < m_data[1] && m_data[0] < m_data[2]) return m_data[0];
-  if (m_data[1] < m_data[0] && m_data[1] < m_data[2]) return m_data[1];
+  if (m_data[0] <= m_data[1] && m_data[0] <= m_data[2]) return m_data[0];
+  if (m_data[1] <= m_data[0] && m_data[1] <= m_data[2]) return m_data[1];
   return m_data[2];
 }
 
-- 
2.43.0


From 77caaac6cca3c63c3589807728ff187fddb47759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:23 +0000
Subject: [PATCH 06/24] fix: centre of the analytical circular velocity field

The y-component of the centre was subtracted from x and vice versa.
---
 src/cpu/analytical-fields/velocity.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 7bf653e..c6ac50f 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -69,8 +69,8 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
         for (int j = 0; j < num_cells[1]; ++j)
           for (int k = 0; k < num_cells[2]; ++k) {
             for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
-              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt] - positions(i, j, k)[cmpt + 1]);
-              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt]);
+              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt + 1] - positions(i, j, k)[cmpt + 1]);
+              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt - 1]);
             }
 
             velocity(i, j, k) = velocity_node;
-- 
2.43.0


From b797d07ac151feb54a243776c2c63440365b92c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:23 +0000
Subject: [PATCH 07/24] fix: write the analytical velocity gradient at every
 node

velocity_gradient[cmpt][derv] addressed the storage of nodes 0 and 1
instead of the entries of the gradient at (i, j, k).
---
 src/cpu/analytical-fields/velocity.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index c6ac50f..4a058dd 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -85,10 +85,10 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
             for (int k = 0; k < num_cells[2]; ++k) {
               for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
                 for (int derv = 0; derv < T_GRID::dim; ++derv) {
-                  if (cmpt == 0 && derv == 0) velocity_gradient[cmpt][derv] = static_cast<T>(0);
-                  if (cmpt == 0 && derv == 1) velocity_gradient[cmpt][derv] = -coeff;
-                  if (cmpt == 1 && derv == 0) velocity_gradient[cmpt][derv] = coeff;
-                  if (cmpt == 1 && derv == 1) velocity_gradient[cmpt][derv] = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = -coeff;
+                  if (cmpt == 1 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = coeff;
+                  if (cmpt == 1 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                 }
               }
             }
-- 
2.43.0


From 74139ce686b02d4d085091bbde937c464ebb2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 08/24] fix: initialise the input fields

new X leaves the numeric members of these structs indeterminate; a field
missing from the input file was then read uninitialised.
---
 src/cpu/input-fields/input-fields.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpu/input-fields/input-fields.cc b/src/cpu/input-fields/input-fields.cc
index 469e761..b397d6b 100644
--- a/src/cpu/input-fields/input-fields.cc
+++ b/src/cpu/input-fields/input-fields.cc
@@ -32,11 +32,11 @@
 #include "gals/input-fields/input-fields.h"
 
 GALS::INPUT_FIELDS::InputFields::InputFields()
-    : m_general(new GALS::INPUT_FIELDS::General),
-      m_grid(new GALS::INPUT_FIELDS::Grid),
-      m_time(new GALS::INPUT_FIELDS::Time),
-      m_velocity(new GALS::INPUT_FIELDS::Velocity),
-      m_levelset(new GALS::INPUT_FIELDS::Levelset)
+    : m_general(new GALS::INPUT_FIELDS::General()),
+      m_grid(new GALS::INPUT_FIELDS::Grid()),
+      m_time(new GALS::INPUT_FIELDS::Time()),
+      m_velocity(new GALS::INPUT_FIELDS::Velocity()),
+      m_levelset(new GALS::INPUT_FIELDS::Levelset())
 {
 }
 
-- 
2.43.0


From 37fcd542886c6675cec347d2372f290762244f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 09/24] fix: InputFields owns raw pointers, do not let it be
 copied

The implicit copy shared the pointers and both destructors deleted them.
---
 include/gals/input-fields/input-fields.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gals/input-fields/input-fields.h b/include/gals/input-fields/input-fields.h
index b33561f..ae2a4fc 100644
--- a/include/gals/input-fields/input-fields.h
+++ b/include/gals/input-fields/input-fields.h
@@ -52,6 +52,11 @@ class InputFields
    */
   InputFields();
 
+  /*! The object owns its fields, hence it cannot be copied.
+   */
+  InputFields(const InputFields &) = delete;
+  InputFields &operator=(const InputFields &) = delete;
+
   /*! Destructor
    */
   ~InputFields();
-- 
2.43.0


From 9619c7450835fbf01fe72ec5f71989f79fe38ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 10/24] fix: do not insert into the global field name maps on
 lookup

operator[] added every unknown name to a mutable global map from inside
compute, which makes concurrent computations race.
---
 src/cpu/analytical-fields/levelset.cc | 4 +++-
 src/cpu/analytical-fields/velocity.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/levelset.cc b/src/cpu/analytical-fields/levelset.cc
index 03d006d..0064845 100644
--- a/src/cpu/analytical-fields/levelset.cc
+++ b/src/cpu/analytical-fields/levelset.cc
@@ -50,7 +50,9 @@ void GALS::ANALYTICAL_FIELDS::Levelset<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& levelset_name = m_inputs.name;
 
-  switch (levelset_name_map[levelset_name]) {
+  const auto entry = levelset_name_map.find(levelset_name);
+
+  switch (entry == levelset_name_map.end() ? LevelsetFieldNames::NOT_DEFINED : entry->second) {
     case LevelsetFieldNames::CIRCLE: {
       auto& phi = levelset.phi();
 
diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 4a058dd..8a125d4 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -54,7 +54,9 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& velocity_name = m_inputs.name;
 
-  switch (velocity_name_map[velocity_name]) {
+  const auto entry = velocity_name_map.find(velocity_name);
+
+  switch (entry == velocity_name_map.end() ? VelocityFieldNames::NOT_DEFINED : entry->second) {
     case VelocityFieldNames::CIRCULAR: {
       auto& velocity = levelset_velocity.velocity();
 
-- 
2.43.0


From 7930d468de62aedace1b415b105fc4bd39f30ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 11/24] fix: instantiate FileUtils::write for 3D scalar arrays

It is provided for scalar arrays in 1D and 2D only; a 3D caller does not link.
---
 src/cpu/file-utils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpu/file-utils.cc b/src/cpu/file-utils.cc
index 0ae2b87..536528b 100644
--- a/src/cpu/file-utils.cc
+++ b/src/cpu/file-utils.cc
@@ -96,4 +96,5 @@ _INSTANTIATE_WRITE_(P(GALS::CPU::Array<GALS::CPU::Grid<double, 1>, double>));
 _INSTANTIATE_WRITE_(P(GALS::CPU::Array<GALS::CPU::Grid<double, 1>, GALS::CPU::Vec3<double>>));
 _INSTANTIATE_WRITE_(P(GALS::CPU::Array<GALS::CPU::Grid<double, 2>, double>));
 _INSTANTIATE_WRITE_(P(GALS::CPU::Array<GALS::CPU::Grid<double, 2>, GALS::CPU::Vec3<double>>));
+_INSTANTIATE_WRITE_(P(GALS::CPU::Array<GALS::CPU::Grid<double, 3>, double>));
 _INSTANTIATE_WRITE_(P(GALS::CPU::Array<GALS::CPU::Grid<double, 3>, GALS::CPU::Vec3<double>>));
-- 
2.43.0


From c393e8d1e286a1a01f3b6f1948679d9a472ab4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 12/24] fix: start the advection clock at the configured start
 time

time.start was parsed and ignored.
---
 applications/advection/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index ddbe361..6a64586 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -128,7 +128,7 @@ int main(int argc, char **argv)
   T t_end = time_inputs.end;
   T dt = time_inputs.dt;
   bool is_dt_fixed = std::strcmp(time_inputs.constant_dt.c_str(), "NO");
-  T sim_time = static_cast<T>(0);
+  T sim_time = t_start;
 
   if (!is_dt_fixed) {
     dt = grid.dX().min() * static_cast<T>(0.5);
-- 
2.43.0


From dfa8affebfdd996ff60bcd3f7d0a7395f8dc6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 13/24] fix: two ghost cells for the third order gradient in
 the advection application

ThirdOrder reads alpha(i - 2, ...): with the default padding of one the
read leaves the row, and the storage at its first node.
---
 applications/advection/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 6a64586..284bd31 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -78,6 +78,7 @@ int main(int argc, char **argv)
   // Construct grid.
   const auto &grid_inputs = *(input_fields.m_grid);
   T_GRID grid(grid_inputs.nx, grid_inputs.ny, grid_inputs.nz);
+  grid.setPadding(2);  // The third order gradient reads two cells upwind.
   grid.generate(grid_inputs.x_min, grid_inputs.x_max, grid_inputs.y_min, grid_inputs.y_max, grid_inputs.z_min,
                 grid_inputs.z_max);
 
-- 
2.43.0


From b066c8c2031fb9f35d1e73333ef1ea9258376a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:18 +0000
Subject: [PATCH 14/24] fix: reject a list of cells that is too short

field["cells"] with fewer than three entries was read out of bounds.
---
 src/cpu/input-parser/grid.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpu/input-parser/grid.cc b/src/cpu/input-parser/grid.cc
index 39041ca..9b58de1 100644
--- a/src/cpu/input-parser/grid.cc
+++ b/src/cpu/input-parser/grid.cc
@@ -51,9 +51,9 @@ void GALS::INPUT_PARSER::Grid::parse(const YAML::Node &field, GALS::INPUT_FIELDS
   input_fields.m_grid->z_max = field["box"]["z_max"].as<double>();
 
   // Number of cells.
-  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>()[0];
-  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>()[1];
-  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>()[2];
+  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>().at(0);
+  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>().at(1);
+  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>().at(2);
 }
 
 void GALS::INPUT_PARSER::Grid::operator()(const YAML::Node &field, GALS::INPUT_FIELDS::InputFields *p_input_fields)
-- 
2.43.0


From 87473cf6a7d72888abab2508b89a28c10a35d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:52 +0000
Subject: [PATCH 15/24] fix: abort macros guarded by an if end the process only
 when the condition holds

GALS_ABORT expanded to two statements, so 'if (bad) GALS_ABORT(...)' in Vec3's
constructor from a std::vector called exit(0) unconditionally in production.
---
 include/gals/utilities/utilities.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/gals/utilities/utilities.h b/include/gals/utilities/utilities.h
index 3261c35..bf77167 100644
--- a/include/gals/utilities/utilities.h
+++ b/include/gals/utilities/utilities.h
@@ -37,17 +37,21 @@
 namespace GALS
 {
 #ifndef BUILD_TESTS
-#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                        \
-  std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
-  exit(0);
+#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                          \
+  {                                                                 \
+    std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
+    exit(0);                                                        \
+  }
 #else
 #define GALS_FUNCTION_NOT_IMPLEMENTED(var) std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl;
 #endif
 
 #ifndef BUILD_TESTS
-#define GALS_ABORT(var)                        \
-  std::cout << "ERROR: " << #var << std::endl; \
-  exit(0);
+#define GALS_ABORT(var)                          \
+  {                                              \
+    std::cout << "ERROR: " << #var << std::endl; \
+    exit(0);                                     \
+  }
 #else
 #define GALS_ABORT(var) std::cout << "ERROR: " << #var << std::endl;
 #endif
-- 
2.43.0


From 60198887e32ada3e83134f5fbd260832315ad97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:02 +0000
Subject: [PATCH 16/24] fix: zero out-of-plane entries of the analytical
 velocity gradient in 3D

The gradient of the rigid rotation is documented as the analytical one, but
its third row and column kept whatever the array held before.
---
 src/cpu/analytical-fields/velocity.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 8a125d4..5354546 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -91,6 +91,7 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
                   if (cmpt == 0 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = -coeff;
                   if (cmpt == 1 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = coeff;
                   if (cmpt == 1 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
+                  if (cmpt == 2 || derv == 2) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                 }
               }
             }
-- 
2.43.0


From 8d3888e1bbb851a86c38f2f192459e06ef192380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:24 +0000
Subject: [PATCH 17/24] fix: automatic time step ignores the spacing of axes
 the grid does not have

---
 applications/advection/main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 284bd31..c3617b1 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 
@@ -132,7 +133,10 @@ int main(int argc, char **argv)
   T sim_time = t_start;
 
   if (!is_dt_fixed) {
-    dt = grid.dX().min() * static_cast<T>(0.5);
+    // Spacings of axes the grid does not have (a flat box, say) do not limit the step.
+    T dx_min = grid.dX()[0];
+    for (int axis = 1; axis < dim; ++axis) dx_min = std::min(dx_min, grid.dX()[axis]);
+    dt = dx_min * static_cast<T>(0.5);
   }
 
   // Time loop
-- 
2.43.0


From 55b4f5c0152d6d8a53ba5b0689fa300dc082e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:00 +0000
Subject: [PATCH 18/24] fix: reference advection_point computes the foot points
 of the last row and column too

---
 src/reference/AdvectionPointCalcs.h            | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index c799590..7a8b04b 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index c799590..7a8b04b 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
-- 
2.43.0


From 9bb78d25bce5d94b0f09ee46f17f3d8017889585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:00 +0000
Subject: [PATCH 19/24] fix: scratch variables of reference
 update_mixed_derivatives are private to each OpenMP iteration

---
 src/reference/AdvectionPointCalcs.h            | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index 7a8b04b..c0947af 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -377,13 +377,13 @@ namespace galsfunctions
 void update_mixed_derivatives(gridarray &temppsix, gridarray &temppsiy, gridarray &temppsixy,
 				unsigned int nx, unsigned int ny, double dx, double dy)
 {
-double dxy1, dxy2;
-double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
 # pragma omp for schedule(static) collapse(2) 
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
+        double dxy1, dxy2;
+        double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
         if ((k == 0 || k == ny - 1) && (l != 0 && l != nx - 1)){
             temppsixy[k][l] = (temppsiy[k][l+1] - temppsiy[k][l-1])/(2 * dx);
         }
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index 7a8b04b..c0947af 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -377,13 +377,13 @@ namespace galsfunctions
 void update_mixed_derivatives(gridarray &temppsix, gridarray &temppsiy, gridarray &temppsixy,
 				unsigned int nx, unsigned int ny, double dx, double dy)
 {
-double dxy1, dxy2;
-double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
 # pragma omp for schedule(static) collapse(2) 
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
+        double dxy1, dxy2;
+        double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
         if ((k == 0 || k == ny - 1) && (l != 0 && l != nx - 1)){
             temppsixy[k][l] = (temppsiy[k][l+1] - temppsiy[k][l-1])/(2 * dx);
         }
-- 
2.43.0


From 6f23a0443fa1cccd347bfa484ef5a133eaa4d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:00 +0000
Subject: [PATCH 20/24] fix: reference CUDA mixed derivative at the upper left
 corner uses the right hand edge

---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index a5659b8..d76835f 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -234,7 +234,7 @@ __global__ void update_mixed_derivatives(double *temppsix, double *temppsiy, dou
                 else if(index_y == ny-1 && index_x == 0){
                     double d1 = (temppsiy[nx *(ny-2) + 1] - temppsiy[nx *(ny-2)])/dx;
                     double d2 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2)])/dy;
-                    double d3 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2) + 1])/dy;
+                    double d3 = (temppsix[nx *(ny-1) + 1] - temppsix[nx *(ny-2) + 1])/dy;
                     double d4 = (temppsiy[nx *(ny-1) + 1] - temppsiy[nx *(ny-1)])/dx;
                     temppsixy[indexToWrite] = 0.75 * (d2 + d4) - 0.25 * (d3 + d1);
                     
-- 
2.43.0


From 186de75fd5bb0cb05bda5ff4ffcd02790b6c012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:00 +0000
Subject: [PATCH 21/24] fix: second step of reference Heuns_internal uses the
 predicted gradient in both components

---
 src/reference/CUDA/TimeSteppingMethodsCUDA.cu  | 8 ++++----
 src/reference/SerialCode/TimeSteppingMethods.h | 8 ++++----
 src/reference/TimeSteppingMethods.h            | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/reference/CUDA/TimeSteppingMethodsCUDA.cu b/src/reference/CUDA/TimeSteppingMethodsCUDA.cu
index ee31c43..5125ee5 100755
--- a/src/reference/CUDA/TimeSteppingMethodsCUDA.cu
+++ b/src/reference/CUDA/TimeSteppingMethodsCUDA.cu
@@ -17,12 +17,12 @@ __device__ void Heuns_internal(double xnode, double ynode, double xadv, double y
     double gradvyroot = gradVy(xadv, yadv, t * dt, T_period);
     
     // Heun's RK-2 method - first step - for x & y
-    temppsix[indexToWrite] = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
-    temppsiy[indexToWrite] = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
+    double predpsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
+    double predpsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
     
     // Heun's RK-2 method - second step - for x & y
-    temppsix[indexToWrite] = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * temppsix[indexToWrite] + gradvxnode * temppsiy[indexToWrite]);
-    temppsiy[indexToWrite] = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * temppsix[indexToWrite] + gradvynode * temppsiy[indexToWrite]);
+    temppsix[indexToWrite] = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * predpsix + gradvxnode * predpsiy);
+    temppsiy[indexToWrite] = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * predpsix + gradvynode * predpsiy);
 }
 
 __device__ double Heuns_X(double xnode, double ynode, double rootpsix, double rootpsiy, double temppsixy, double temppsix,
diff --git a/src/reference/SerialCode/TimeSteppingMethods.h b/src/reference/SerialCode/TimeSteppingMethods.h
index e82d5da..0827e75 100755
--- a/src/reference/SerialCode/TimeSteppingMethods.h
+++ b/src/reference/SerialCode/TimeSteppingMethods.h
@@ -19,12 +19,12 @@ namespace galsfunctions
         double gradvyroot = gradVy(xadv, yadv, t * dt, T_period);
         
         // Heun's RK-2 method - first step - for x & y
-        double temppsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
-        double temppsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
+        double predpsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
+        double predpsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
         
         // Heun's RK-2 method - second step - for x & y
-        temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * temppsix + gradvxnode * temppsiy);
-        temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * temppsix + gradvynode * temppsiy);
+        double temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * predpsix + gradvxnode * predpsiy);
+        double temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * predpsix + gradvynode * predpsiy);
         return std::make_tuple(temppsix,temppsiy);
     }
     
diff --git a/src/reference/TimeSteppingMethods.h b/src/reference/TimeSteppingMethods.h
index e82d5da..0827e75 100755
--- a/src/reference/TimeSteppingMethods.h
+++ b/src/reference/TimeSteppingMethods.h
@@ -19,12 +19,12 @@ namespace galsfunctions
         double gradvyroot = gradVy(xadv, yadv, t * dt, T_period);
         
         // Heun's RK-2 method - first step - for x & y
-        double temppsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
-        double temppsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
+        double predpsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
+        double predpsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
         
         // Heun's RK-2 method - second step - for x & y
-        temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * temppsix + gradvxnode * temppsiy);
-        temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * temppsix + gradvynode * temppsiy);
+        double temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * predpsix + gradvxnode * predpsiy);
+        double temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * predpsix + gradvynode * predpsiy);
         return std::make_tuple(temppsix,temppsiy);
     }
     
-- 
2.43.0


From e4221d7d960ff8f49f3d59eda985e2b3a1681336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:00 +0000
Subject: [PATCH 22/24] fix: reference MPI programs transmit their double
 buffers as MPI_DOUBLE

---
 src/reference/GALS_Advection_MPI.cpp        | 20 ++++++++++----------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index f0c07ab..59d95e9 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -146,8 +146,8 @@ int main(int argc, char **argv){
             advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
             
             // receive the data from node-2
-            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -169,9 +169,9 @@ int main(int argc, char **argv){
             find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
             
             // receive the data from node-2
-            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -235,8 +235,8 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
             
             
@@ -256,9 +256,9 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
         }  	    // end of node-2
     } // end of time marching loop
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index 998a589..f8d6fde 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -150,8 +150,8 @@ int main(int argc, char **argv){
         advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
 
 	// receive the data from node-2
-	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -175,9 +175,9 @@ int main(int argc, char **argv){
 	find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
 
 	// receive the data from node-2
-	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -252,8 +252,8 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 
 	// end of fct-1
         //---------------------------------------------------------------------------
@@ -279,9 +279,9 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-	MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 	// end of fct-2
 	// ---------------------------------------------------------------------------	
 
-- 
2.43.0


From 89923290d13a5722cfe5479156fe6987faab4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:58 +0000
Subject: [PATCH 23/24] fix: copy the whole psiy array back before the CUDA
 program writes it

---
 src/reference/CUDA/GALS_Advection.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index e9571d5..ff51c4f 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -196,7 +196,7 @@ int main(){
             cudaEventRecord(startEvent,0);
             cudaMemcpy(mphi, masterdphi, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsix, masterdpsix, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
-            cudaMemcpy(mpsiy, masterdpsiy, gridmemoryint, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsiy, masterdpsiy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
             cudaEventRecord(stopEvent,0);
             cudaEventSynchronize(stopEvent);
             cudaEventElapsedTime(&tempt, startEvent, stopEvent);
-- 
2.43.0


From 468174755d40211ac0ebee387ba880bdfc7c9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:58 +0000
Subject: [PATCH 24/24] fix: write the current mixed derivative from the CUDA
 program, not the initial one

---
 src/reference/CUDA/GALS_Advection.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index ff51c4f..ce11b38 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -197,11 +197,11 @@ int main(){
             cudaMemcpy(mphi, masterdphi, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsix, masterdpsix, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsiy, masterdpsiy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsixy, dpsixy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
             cudaEventRecord(stopEvent,0);
             cudaEventSynchronize(stopEvent);
             cudaEventElapsedTime(&tempt, startEvent, stopEvent);
             t_transfer += tempt;
-            //cudaMemcpy(mpsixy, masterdpsixy, gridmemoryint, cudaMemcpyDeviceToHost);  // Writing back to host memory
             fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,(t+1)*dt,T_period);
         }
         cout<< t+1;
-- 
2.43.0

