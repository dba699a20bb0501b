From a85d0e1acc1679b475ba017eb96e0e8d4e64128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 01/32] fix: fill the LoadStep column of the solver's
 statistics table

The column was declared but never filled, hence every call to
output_data_to_file() aborted (Debug) or read out of bounds (Release)
after the first converged load step.
---
 source/gradient_crystal_plasticity/solve.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index ae477d7..b091d58 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -141,6 +141,10 @@ solve_nonlinear_system(const bool flag_skip_extrapolation)
   // points based on the converged solution
   store_effective_opening_displacement_in_quadrature_history();
 
+  // Every column of the table has to have the same number of rows
+  table_handler.add_value("LoadStep",
+                          discrete_time.get_step_number() + 1);
+
   // Update the actual solution vector
   fe_field->solution = trial_solution;
 
-- 
2.43.0


From ab68dddf49987fb0d9e29ac7da97e8044cc6b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 02/32] fix: start the integral of the macroscopic damage from
 zero

---
 source/gradient_crystal_plasticity/assembly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 7c67d82..f11205c 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -2016,7 +2016,7 @@ double GradientCrystalPlasticitySolver<dim>::get_macroscopic_damage()
   // at the quadrature points
   std::vector<double> JxW_values(n_face_quadrature_points);
 
-  double              domain_integral_damage_variable;
+  double              domain_integral_damage_variable = 0.0;
 
   double              cell_integral_damage_variable;
 
-- 
2.43.0


From 588050e4eb485babea54591821869688afba8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 03/32] fix: same round-off tolerance for the interaction
 moduli in 3D as in 2D

---
 source/constitutive_laws.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 77f2c60..57e4933 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -937,14 +937,14 @@ MicrotractionLaw<3>::get_grain_interaction_moduli(
 
         AssertThrow(
           std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
 
         AssertThrow(
           std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
-- 
2.43.0


From c7d007e27e5789444b16fecdd62cabe4335b62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 04/32] fix: damage does not heal below the endurance limit

---
 source/gradient_crystal_plasticity/quadrature_point_history.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index e80c5f6..4cfafda 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -170,7 +170,7 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
                       old_effective_opening_displacement) *
     std::pow(1.0 - damage_variable + damage_decay_constant,
      damage_decay_exponent) *
-    (thermodynamic_force - endurance_limit);
+    macaulay_brackets(thermodynamic_force - endurance_limit);
 
   if (damage_variable > 1.0)
     damage_variable = 1.0;
-- 
2.43.0


From 264d4e68763040b7bce95e31ea87f573d4bf25a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 05/32] fix: compression does not count as opening of a grain
 boundary

---
 .../gradient_crystal_plasticity/quadrature_point_history.cc   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index 4cfafda..8a255c3 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -206,7 +206,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
@@ -249,7 +249,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
-- 
2.43.0


From 3c2f05f63e8bd6286dee4e382f2f974ec4d0e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 06/32] fix: line search copes with cubics without a minimum

---
 source/line_search.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/line_search.cc b/source/line_search.cc
index 98221e4..95f7d5c 100644
--- a/source/line_search.cc
+++ b/source/line_search.cc
@@ -150,10 +150,22 @@ double LineSearch::cubic_backtracking()
 
   coefficients *= factor;
 
-  double lambda = (-coefficients[1] +
-                  std::sqrt(coefficients[1]*coefficients[1] -
-                            3.0 * coefficients[0] *descent_direction)) /
-                  (3. * coefficients[0]);
+  const double discriminant =
+    coefficients[1] * coefficients[1] -
+    3.0 * coefficients[0] * descent_direction;
+
+  double lambda;
+
+  if (coefficients[0] == 0.0)
+    lambda = - descent_direction / (2.0 * coefficients[1]);
+  else if (discriminant < 0.0)
+    lambda = 0.5 * old_lambda;
+  else if (coefficients[1] <= 0.0)
+    lambda = (-coefficients[1] + std::sqrt(discriminant)) /
+             (3. * coefficients[0]);
+  else
+    lambda = - descent_direction /
+             (coefficients[1] + std::sqrt(discriminant));
 
   if (lambda < 0.1*old_lambda)
     return 0.1*old_lambda;
-- 
2.43.0


From 64916fab45d84a9523ce7d952a93c608ec86a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 07/32] fix: displacement control follows the configured
 loading type

---
 source/boundary_conditions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index aeaf6b4..f1afa23 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -25,7 +25,7 @@ DisplacementControl<dim>::DisplacementControl(
 dealii::Function<dim>(n_components, parameters.start_time),
 n_crystals(n_crystals),
 strip_height(strip_height),
-loading_type(RunTimeParameters::LoadingType::Monotonic),
+loading_type(parameters.loading_type),
 max_strain_load(parameters.max_load),
 min_strain_load(parameters.min_load),
 component(component),
-- 
2.43.0


From 5a5b6cf8514eff4d7dd3f8591070d9cf84c77fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 08/32] fix: cyclic displacement scales with the strip height
 and the duration of the ramps

---
 source/boundary_conditions.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index f1afa23..7f80691 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -72,19 +72,23 @@ void DisplacementControl<dim>::vector_value(
 
         if (time < start_of_cyclic_phase)
         {
-          displacement_load = time * strip_height * offset;
+          displacement_load = strip_height * offset *
+                              time / start_of_cyclic_phase;
         }
         else if (time < start_of_unloading)
         {
-          displacement_load = peak_amplitude *
-                              std::sin(2.0 * M_PI / period *
-                                      (time - start_of_cyclic_phase))
-                              +
-                              offset;
+          displacement_load = strip_height *
+                              (peak_amplitude *
+                               std::sin(2.0 * M_PI / period *
+                                        (time - start_of_cyclic_phase))
+                               +
+                               offset);
         }
         else
         {
-          displacement_load = offset * (1 - time + start_of_unloading);
+          displacement_load = strip_height * offset *
+                              (1 - (time - start_of_unloading) /
+                                   start_of_cyclic_phase);
         }
       }
       break;
-- 
2.43.0


From 55a5b7371e752d3b81267b0fd3ddb128c0914534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 09/32] fix: opening of a grain boundary keeps its sign when
 stored

---
 .../gradient_crystal_plasticity/quadrature_point_history.cc   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index 8a255c3..2fcc1bf 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -185,8 +185,8 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector)
 {
   /*if (flag_values_were_updated)
@@ -227,8 +227,8 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector,
   const double                effective_cohesive_traction)
 {
-- 
2.43.0


From 110f32aa55e42a020f08df8602959b60c446c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 10/32] fix: driving force of the damage is evaluated with the
 committed damage

---
 source/gradient_crystal_plasticity/assembly.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index f11205c..637783e 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1496,6 +1496,11 @@ update_local_quadrature_point_history(
 
           case RunTimeParameters::DamageEvolutionModel::M1:
             {
+              // The thermodynamic force is evaluated with the damage
+              // variable at the beginning of the step
+              local_interface_quadrature_point_history[face_q_point]->
+                reset_values();
+
               scratch.thermodynamic_force_values[face_q_point] =
                 - degradation_function->
                     get_degradation_function_derivative_value(
-- 
2.43.0


From 40621034f0f14d6801a4d5d92e9c72d79618f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 11/32] fix: cohesive law tolerates round-off between the two
 sides of an interface

---
 source/constitutive_laws.cc | 38 +++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 57e4933..7ce1a6e 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -1208,9 +1208,15 @@ CohesiveLaw<dim>::get_cohesive_traction(
   const EffectiveQuantities effective_quantities =
     get_effective_quantities(opening_displacement, normal_vector);
 
+  // Both sides of an interface update the maximum. Their effective
+  // opening displacements only agree up to round-off errors
+  const double tolerance =
+    1e-10 * max_effective_opening_displacement +
+    1e-12 * critical_opening_displacement / characteristic_displacement;
+
   Assert(
     effective_quantities.opening_displacement <=
-      max_effective_opening_displacement,
+      max_effective_opening_displacement + tolerance,
     dealii::ExcMessage(
       "The effective opening displacement is not suppose to be "
       "bigger than the maximum. An update_values() call ought to "
@@ -1227,8 +1233,8 @@ CohesiveLaw<dim>::get_cohesive_traction(
   cohesive_traction = effective_quantities.direction;
 
   // Loading behavior
-  if (effective_quantities.opening_displacement ==
-        max_effective_opening_displacement &&
+  if (effective_quantities.opening_displacement >=
+        max_effective_opening_displacement - tolerance &&
       effective_opening_displacement_rate >= 0.0)
   {
     cohesive_traction *=
@@ -1237,11 +1243,8 @@ CohesiveLaw<dim>::get_cohesive_traction(
         effective_quantities.opening_displacement);
   }
   // Unloading and reloading behavior
-  else if (effective_quantities.opening_displacement <
-             max_effective_opening_displacement ||
-           (effective_quantities.opening_displacement ==
-              max_effective_opening_displacement &&
-            effective_opening_displacement_rate < 0.0))
+  else if (effective_quantities.opening_displacement <=
+             max_effective_opening_displacement + tolerance)
   {
     cohesive_traction *=
       get_effective_cohesive_traction(
@@ -1292,17 +1295,23 @@ CohesiveLaw<dim>::get_jacobian(
      old_effective_opening_displacement) /
     time_step_size;
 
+  // Both sides of an interface update the maximum. Their effective
+  // opening displacements only agree up to round-off errors
+  const double tolerance =
+    1e-10 * max_effective_opening_displacement +
+    1e-12 * critical_opening_displacement / characteristic_displacement;
+
   Assert(
     effective_quantities.opening_displacement <=
-      max_effective_opening_displacement,
+      max_effective_opening_displacement + tolerance,
     dealii::ExcMessage(
       "The effective opening displacement is not suppose to be "
       "bigger than the maximum. An update_values() call ought to "
       "be missing in code."));
 
   // Loading behavior
-  if (effective_quantities.opening_displacement ==
-        max_effective_opening_displacement &&
+  if (effective_quantities.opening_displacement >=
+        max_effective_opening_displacement - tolerance &&
       effective_opening_displacement_rate >= 0.0)
   {
     jacobian =
@@ -1321,11 +1330,8 @@ CohesiveLaw<dim>::get_jacobian(
         effective_quantities.direction)));
   }
   // Unloading and reloading behavior
-  else if (effective_quantities.opening_displacement <
-             max_effective_opening_displacement ||
-           (effective_quantities.opening_displacement ==
-              max_effective_opening_displacement &&
-            effective_opening_displacement_rate < 0.0))
+  else if (effective_quantities.opening_displacement <=
+             max_effective_opening_displacement + tolerance)
   {
     jacobian =
       get_effective_cohesive_traction(
-- 
2.43.0


From 1fd472628180fce13a4ab3329f0f70d90680c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 12/32] fix: relative tolerance when the norms of the parts of
 a vector are checked

---
 source/fe_field.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/fe_field.cc b/source/fe_field.cc
index 89eecbb..1ad44d3 100644
--- a/source/fe_field.cc
+++ b/source/fe_field.cc
@@ -669,8 +669,6 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     l2_norms[1] = distributed_vector_tmp.block(1).l2_norm();
   }
 
-  l2_norms[0] /= factor;
-
   auto to_string =
       [](const double number)
   {
@@ -686,7 +684,7 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     Assert(
       std::fabs(l2_norm - l2_norms.l2_norm()) <
         std::numeric_limits<double>::epsilon() *
-          tolerance_relaxation_factor,
+          tolerance_relaxation_factor * std::max(1.0, l2_norm),
       dealii::ExcMessage("The norms do not match (" +
         to_string(l2_norm) + ", " + to_string(l2_norms.l2_norm()) +
           ")"));
@@ -696,6 +694,8 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     (void)tolerance_relaxation_factor;
   }
 
+  l2_norms[0] /= factor;
+
   return l2_norms;
 }
 
-- 
2.43.0


From e29803bf84c47592d0561aed8e32417b1eb84a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 13/32] fix: vectorial microstress law is told whether the
 problem is dimensionless

---
 source/gradient_crystal_plasticity/setup.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/setup.cc b/source/gradient_crystal_plasticity/setup.cc
index c7d4733..f54ed93 100644
--- a/source/gradient_crystal_plasticity/setup.cc
+++ b/source/gradient_crystal_plasticity/setup.cc
@@ -107,7 +107,7 @@ void GradientCrystalPlasticitySolver<dim>::init()
 
   vectorial_microstress_law->init(
     parameters.dimensionless_form_parameters.
-      dimensionless_numbers[3] != 1.0);
+      flag_solve_dimensionless_problem);
 
   init_quadrature_point_history();
 
-- 
2.43.0


From f642a02031f020ccaaa75dce9076da0b887860d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 14/32] fix: prescribed tractions are scaled as the other terms
 of the dimensionless linear momentum balance

---
 source/gradient_crystal_plasticity/assembly.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 637783e..2238318 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1135,6 +1135,10 @@ void GradientCrystalPlasticitySolver<dim>::assemble_local_residual(
           // Loop over degrees of freedom
           for (unsigned int i = 0; i < scratch.dofs_per_cell; ++i)
             data.local_rhs(i) +=
+              parameters.dimensionless_form_parameters.
+                dimensionless_numbers[3] /
+                  parameters.dimensionless_form_parameters.
+                    dimensionless_numbers[0] *
               scratch.face_vector_phi[i] *
               scratch.neumann_boundary_values[face_q_point] *
               scratch.face_JxW_values[face_q_point];
-- 
2.43.0


From 2a1764ec6505f7f6b07aace415d39afc9fe8048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 15/32] fix: one of the two cells at a grain boundary updates
 their common history

---
 source/gradient_crystal_plasticity/assembly.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 2238318..a4abc32 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1418,6 +1418,14 @@ update_local_quadrature_point_history(
           cell->material_id() !=
             cell->neighbor(face_index)->material_id())
       {
+        // The history is shared by both cells. Only one of them updates
+        // it, as they might be visited at the same time
+        if (cell->neighbor(face_index)->is_locally_owned() &&
+            cell->neighbor(face_index)->id() < cell->id())
+        {
+          continue;
+        }
+
         // Get the crystal identifier for the neighbor cell
         const unsigned int neighbor_crystal_id =
           cell->neighbor(face_index)->material_id();
@@ -1625,6 +1633,14 @@ store_local_effective_opening_displacement(
           cell->material_id() !=
             cell->neighbor(face_index)->material_id())
       {
+        // The history is shared by both cells. Only one of them updates
+        // it, as they might be visited at the same time
+        if (cell->neighbor(face_index)->is_locally_owned() &&
+            cell->neighbor(face_index)->id() < cell->id())
+        {
+          continue;
+        }
+
         // Get the crystal identifier for the neighbor cell
         const unsigned int neighbor_crystal_id =
           cell->neighbor(face_index)->material_id();
-- 
2.43.0


From a7e513b0829ec43b07143bddf48586113d66189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 16/32] fix: bound the number of restarts with a new active set

---
 source/gradient_crystal_plasticity/solve.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index b091d58..0cd03e8 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -157,7 +157,8 @@ template <int dim>
 void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 {
   // Instance local variables and references
-  unsigned int nonlinear_iteration = 0;
+  unsigned int nonlinear_iteration   = 0,
+               n_active_set_restarts = 0;
 
   bool flag_successful_convergence = false,
        flag_compute_active_set = true;
@@ -302,6 +303,15 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
         {
           flag_successful_convergence = false;
 
+          // The active set may cycle. The number of restarts is therefore
+          // bounded just as the number of iterations
+          n_active_set_restarts++;
+
+          AssertThrow(
+            n_active_set_restarts <=
+              newton_parameters.n_max_iterations,
+            ExcMaxIterations(newton_parameters.n_max_iterations));
+
           nonlinear_iteration = 0;
 
           reset_trial_solution(true);
-- 
2.43.0


From 495a2dcdb6a9070176878e1c752fbdbedd5d4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 17/32] fix: restart with the old values of the slips that are
 not active

---
 source/gradient_crystal_plasticity/solve.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 0cd03e8..3c41a8c 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -316,6 +316,8 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
           reset_trial_solution(true);
 
+          reset_inactive_set_values();
+
           *pcout
             << std::endl
             << "Active set mismatch. Restarting Newton-loop with the "
-- 
2.43.0


From 4a4ada22b6b9e627164cf991f4774ecd0c17b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 18/32] fix: active set compares the trial microstress with the
 committed slip resistance

---
 source/gradient_crystal_plasticity/active_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index 4557cf9..eec8db4 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -80,7 +80,7 @@ void GradientCrystalPlasticitySolver<dim>::determine_active_set()
       }
       else
       {
-        local_yield_stress = slip_resistance(locally_owned_dof);
+        local_yield_stress = tmp_slip_resistance(locally_owned_dof);
       }
 
       if (std::abs(trial_microstress->
-- 
2.43.0


From ba8eca0074c6101a0bd8e4bc6a16641ff0c87c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 19/32] fix: embracing algorithm determines the active set in
 every micro loop

---
 source/gradient_crystal_plasticity/solve.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 3c41a8c..e39ae26 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -899,6 +899,8 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
       // Increase iteration counter
       micro_nonlinear_iteration = 0;
 
+      flag_compute_active_set = true;
+
       // Determine the active (and also inactive) set
       active_set_algorithm(flag_compute_active_set);
 
-- 
2.43.0


From 14f77a5b6e3cafe7465b868ff7757e88af8d609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 20/32] fix: line search in the micro problem backtracks from
 the stored slips

---
 source/gradient_crystal_plasticity/solve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index e39ae26..ffdda9e 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1640,7 +1640,7 @@ line_search_algorithm(
       line_search->get_lambda(objective_function_value,
                               relaxation_parameter);
 
-    reset_trial_solution();
+    reset_trial_solution(false, block_index);
 
     update_trial_solution(relaxation_parameter, block_index);
 
-- 
2.43.0


From c4adbe01b48bc8f02baf5e444e55be85d0e143fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 21/32] fix: line search accepts a step between two states
 without residual

---
 include/gCP/line_search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gCP/line_search.h b/include/gCP/line_search.h
index 65a1b36..1d1a9a8 100644
--- a/include/gCP/line_search.h
+++ b/include/gCP/line_search.h
@@ -102,7 +102,7 @@ namespace gCP
         std::cout << "Second conditions not fulfilled" << std::endl;
       }*/
 
-      return (trial_scalar_function_value <
+      return (trial_scalar_function_value <=
               initial_scalar_function_value +
                   alpha * lambda * descent_direction);
     }
-- 
2.43.0


From 1017e2606b844d5859589f7e5173d3802a6c043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 22/32] fix: fluctuation stresses scaled twice by the
 characteristic stress

---
 source/postprocessing.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index f953daf..31fd34d 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -480,7 +480,6 @@ void Postprocessor<dim>::evaluate_vector_field(
             plastic_strain_tensor;
 
         stress_tensor =
-          parameters.characteristic_quantities.stress *
           hooke_law->get_stiffness_tetrad_3d(material_id) *
           convert_2d_to_3d(elastic_strain_tensor);
 
-- 
2.43.0


From 47e7261461e8e3d847b9efc4207c93df50f618fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 23/32] fix: boundary stress in three dimensions averaged over
 the width instead of the area

---
 source/postprocessing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 31fd34d..9943c9b 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -890,7 +890,7 @@ void SimpleShear<dim>::compute_stress_12_at_boundary()
   // Gather the values of each processor
   stress_12 = dealii::Utilities::MPI::sum(stress_12, MPI_COMM_WORLD);
 
-  average_stress_12 = stress_12 / width;
+  average_stress_12 = stress_12 / std::pow(width, dim - 1);
 }
 
 
-- 
2.43.0


From 547acfe5a7ba15b2c20fc436c66388817f695a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:03 +0000
Subject: [PATCH 24/32] fix: reported shear of cyclic programmes is not the
 prescribed one

---
 applications/simple_shear.cc |  3 ++-
 include/gCP/postprocessing.h |  6 +++++-
 source/postprocessing.cc     | 31 ++++++++++++++++++++++---------
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 7a09818..13c4ba6 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -176,7 +176,8 @@ simple_shear(
   parameters.simple_loading.duration_loading_and_unloading_phase,
   parameters.simple_loading.loading_type,
   3,
-  1. / parameters.n_elements_in_y_direction),
+  1. / parameters.n_elements_in_y_direction,
+  parameters.simple_loading.start_of_unloading_phase),
 string_width(
   (std::to_string((unsigned int)(
   (parameters.simple_loading.end_time -
diff --git a/include/gCP/postprocessing.h b/include/gCP/postprocessing.h
index 2143b0c..e753109 100644
--- a/include/gCP/postprocessing.h
+++ b/include/gCP/postprocessing.h
@@ -143,7 +143,9 @@ public:
     const double                          initial_loading_time,
     const RunTimeParameters::LoadingType  loading_type,
     const dealii::types::boundary_id      upper_boundary_id,
-    const double                          width);
+    const double                          width,
+    const double                          start_of_unloading =
+      std::numeric_limits<double>::max());
 
   void init(
     std::shared_ptr<const Kinematics::ElasticStrain<dim>>   elastic_strain,
@@ -172,6 +174,8 @@ private:
 
   const double                                            initial_loading_time;
 
+  const double                                            start_of_unloading;
+
   RunTimeParameters::LoadingType                          loading_type;
 
   const dealii::types::boundary_id                        upper_boundary_id;
diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 9943c9b..1e59723 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -683,7 +683,8 @@ SimpleShear<dim>::SimpleShear(
   const double                          initial_loading_time,
   const RunTimeParameters::LoadingType  loading_type,
   const dealii::types::boundary_id      upper_boundary_id,
-  const double                          width)
+  const double                          width,
+  const double                          start_of_unloading)
 :
 fe_field(fe_field),
 mapping_collection(*mapping),
@@ -691,6 +692,7 @@ max_shear_strain_at_upper_boundary(max_shear_strain_at_upper_boundary),
 min_shear_strain_at_upper_boundary(min_shear_strain_at_upper_boundary),
 period(period),
 initial_loading_time(initial_loading_time),
+start_of_unloading(start_of_unloading),
 loading_type(loading_type),
 upper_boundary_id(upper_boundary_id),
 width(width),
@@ -746,17 +748,28 @@ void SimpleShear<dim>::compute_data(const double time)
       break;
     case RunTimeParameters::LoadingType::Cyclic:
       {
-        if (time >= initial_loading_time)
+        // The same loading programme as in
+        // BoundaryConditions::DisplacementControl
+        const double peak_amplitude =
+          (max_shear_strain_at_upper_boundary -
+           min_shear_strain_at_upper_boundary) / 2.0;
+
+        const double offset =
+          (max_shear_strain_at_upper_boundary +
+           min_shear_strain_at_upper_boundary) / 2.0;
+
+        if (time < initial_loading_time)
           displacement_load =
-            (max_shear_strain_at_upper_boundary -
-             min_shear_strain_at_upper_boundary) / 2.0 *
-            std::cos(2.0 * M_PI / period * (time - initial_loading_time)) +
-            (max_shear_strain_at_upper_boundary +
-             min_shear_strain_at_upper_boundary) / 2.0;
+            offset * time / initial_loading_time;
+        else if (time < start_of_unloading)
+          displacement_load =
+            peak_amplitude *
+            std::sin(2.0 * M_PI / period * (time - initial_loading_time)) +
+            offset;
         else
           displacement_load =
-            max_shear_strain_at_upper_boundary *
-            std::sin(M_PI / 2.0 / initial_loading_time * time);
+            offset *
+            (1.0 - (time - start_of_unloading) / initial_loading_time);
       }
       break;
     case RunTimeParameters::LoadingType::CyclicWithUnloading:
-- 
2.43.0


From 86c9f388a9cfe66a6c2fccf2fdf422c44b8dc293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 25/32] fix: microhard grain boundaries constrain the wrong
 face unknowns

The face unknowns were looked up in the table of the cell, and with
decohesion the displacements of all crystals but the first were taken
for slips.
---
 applications/simple_shear.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 13c4ba6..155d1e8 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -485,7 +485,9 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                if (fe_field->get_fe_collection()[crystal_id].
+                      face_system_to_component_index(i, face_index).first >=
+                        fe_field->get_slip_extractor(crystal_id, 0).component)
                 {
                   affine_constraints.add_line(
                     local_face_dof_indices[i]);
@@ -586,7 +588,9 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                if (fe_field->get_fe_collection()[crystal_id].
+                      face_system_to_component_index(i, face_index).first >=
+                        fe_field->get_slip_extractor(crystal_id, 0).component)
                 {
                   newton_method_constraints.add_line(
                     local_face_dof_indices[i]);
-- 
2.43.0


From cbe983e2a7be61dd570998d0889547a4a498ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:22 +0000
Subject: [PATCH 26/32] fix: fluctuation fields asked for are never written

---
 applications/simple_shear.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 155d1e8..3cbc71f 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -166,7 +166,8 @@ postprocessor(
   crystals_data,
   parameters.solver_parameters.dimensionless_form_parameters,
   false,
-  parameters.output.flag_output_dimensionless_quantities),
+  parameters.output.flag_output_dimensionless_quantities,
+  parameters.output.flag_output_fluctuations),
 simple_shear(
   fe_field,
   mapping,
-- 
2.43.0


From 4228841ccc7ca0eed5c258368244347be45e32a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:22 +0000
Subject: [PATCH 27/32] fix: an output frequency of zero is accepted and ends
 the run in a division by zero

---
 source/run_time_parameters.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 1f401e5..95992d2 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -1824,7 +1824,7 @@ void Output::declare_parameters(
 
     prm.declare_entry("Graphical output frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
 
     prm.declare_entry("Terminal output frequency",
                       "1",
@@ -1939,7 +1939,7 @@ void Homogenization::declare_parameters(
 
     prm.declare_entry("Homogenization frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
   }
   prm.leave_subsection();
 }
-- 
2.43.0


From 3b3b515b423b041027c0fabd6c3d291b3a06a06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 28/32] fix: processes write the parameter log before its
 directory exists

---
 source/run_time_parameters.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 95992d2..f729ccd 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -2121,9 +2121,10 @@ InfiniteStripProblem()
     }
     prm.leave_subsection();
 
-    prm.print_parameters(
-      output_folder_path + "parameter_file.prm",
-      dealii::ParameterHandler::OutputStyle::ShortPRM);
+    if (dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0)
+      prm.print_parameters(
+        output_folder_path + "parameter_file.prm",
+        dealii::ParameterHandler::OutputStyle::ShortPRM);
   }
 }
 
-- 
2.43.0


From a4562c44ceda230efb17d3f4df3246a7d3efb6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:02 +0000
Subject: [PATCH 29/32] fix: field output fails with several processes

The ghosted vectors did not know their owned entries, and the numbering
of a single block was not contiguous on each process, both of which the
output of deal.II needs.
---
 source/fe_field.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/fe_field.cc b/source/fe_field.cc
index 1ad44d3..e2ce607 100644
--- a/source/fe_field.cc
+++ b/source/fe_field.cc
@@ -262,8 +262,12 @@ void FEField<dim>::setup_dofs()
       block_component[i] = 1;
     }
 
-    dealii::DoFRenumbering::component_wise(
-      *dof_handler, block_component);
+    // A single block has to stay contiguous on each process
+    if (!flag_use_single_block)
+    {
+      dealii::DoFRenumbering::component_wise(
+        *dof_handler, block_component);
+    }
 
     dofs_per_block =
       dealii::DoFTools::count_dofs_per_fe_block(
@@ -498,6 +502,7 @@ void FEField<dim>::setup_vectors()
 
   // BlockVector instances
   solution.reinit(
+    locally_owned_dofs_per_block,
     locally_relevant_dofs_per_block,
     MPI_COMM_WORLD);
 
-- 
2.43.0


From f3db32c56111b6dc0b56b487ab993b94afbdb1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:34 +0000
Subject: [PATCH 30/32] fix: an exactly vanishing residual ends the run in an
 assertion

---
 source/gradient_crystal_plasticity/solve.cc | 57 +++++++++++++++------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index ffdda9e..27a6a0c 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -10,6 +10,30 @@ namespace gCP
 
 
 
+namespace
+{
+  /*!
+   * @brief Ratio of the logarithms of two consecutive residual norms
+   *
+   * @details It is not defined if the residual vanishes or if the
+   * previous one is equal to one. Zero is reported in these cases.
+   */
+  double order_of_convergence_of(
+    const double residual_l2_norm,
+    const double old_residual_l2_norm)
+  {
+    if (residual_l2_norm == 0.0 || old_residual_l2_norm == 0.0 ||
+        old_residual_l2_norm == 1.0)
+    {
+      return (0.0);
+    }
+
+    return (std::log(residual_l2_norm) / std::log(old_residual_l2_norm));
+  }
+}
+
+
+
 template <int dim>
 void GradientCrystalPlasticitySolver<dim>::
 extrapolate_initial_trial_solution(const bool flag_skip_extrapolation)
@@ -261,8 +285,9 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
         fe_field->get_sub_l2_norms(newton_update);
 
       const double order_of_convergence =
-        std::log(residual_l2_norms.l2_norm()) /
-          std::log(old_residual_l2_norms.l2_norm());
+        order_of_convergence_of(
+          residual_l2_norms.l2_norm(),
+          old_residual_l2_norms.l2_norm());
 
       average_order_of_convergence += order_of_convergence;
 
@@ -558,10 +583,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
               fe_field->get_sub_l2_norms(newton_update);
 
             const double order_of_convergence =
-              old_residual_l2_norms[1] != 0. ?
-                std::log(residual_l2_norms[1]) /
-                  std::log(old_residual_l2_norms[1])
-              : 0.0;
+              order_of_convergence_of(
+                residual_l2_norms[1],
+                old_residual_l2_norms[1]);
 
             local_average_micro_order_of_convergence +=
               order_of_convergence;
@@ -693,8 +717,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
           fe_field->get_sub_l2_norms(newton_update);
 
         const double order_of_convergence =
-          std::log(residual_l2_norms[0]) /
-          std::log(old_residual_l2_norms[0]);
+          order_of_convergence_of(
+            residual_l2_norms[0],
+            old_residual_l2_norms[0]);
 
         local_average_macro_order_of_convergence +=
           order_of_convergence;
@@ -870,8 +895,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
       // Terminal and log output
       {
         const double order_of_convergence =
-          std::log(residual_l2_norms[0]) /
-          std::log(old_residual_l2_norms[0]);
+          order_of_convergence_of(
+            residual_l2_norms[0],
+            old_residual_l2_norms[0]);
 
         average_macro_order_of_convergence += order_of_convergence;
 
@@ -984,9 +1010,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
         // Terminal and log output
         {
           const double order_of_convergence =
-            tmp_old_residual_l2_norms[1] != 0. ?
-              std::log(tmp_residual_l2_norms[1]) /
-                std::log(tmp_old_residual_l2_norms[1]) : 0.0;
+            order_of_convergence_of(
+              tmp_residual_l2_norms[1],
+              tmp_old_residual_l2_norms[1]);
 
           local_average_micro_order_of_convergence +=
             order_of_convergence;
@@ -1022,8 +1048,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
     {
       // Terminal and log output
       const double order_of_convergence =
-        std::log(tmp_residual_l2_norms[0]) /
-        std::log(old_residual_l2_norms[0]);
+        order_of_convergence_of(
+          tmp_residual_l2_norms[0],
+          old_residual_l2_norms[0]);
 
       update_and_output_nonlinear_solver_logger(
         0,
-- 
2.43.0


From f632ca4ce68291d36c1a41d4e690eb94d9855e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:02 +0000
Subject: [PATCH 31/32] fix: average convergence of a step with one iteration
 is reported as not a number

---
 source/gradient_crystal_plasticity/solve.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 27a6a0c..7d013c7 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1071,8 +1071,10 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
           average_macro_order_of_convergence / macro_nonlinear_iteration);
         table_handler.add_value(
           "ReducedMacroAverageConvergence",
-          reduced_average_macro_order_of_convergence /
-            (macro_nonlinear_iteration - 1));
+          (macro_nonlinear_iteration > 1) ?
+            reduced_average_macro_order_of_convergence /
+              (macro_nonlinear_iteration - 1) :
+            0.0);
         table_handler.add_value(
           "MicroAverageConvergence",
           average_micro_order_of_convergence / macro_nonlinear_iteration);
-- 
2.43.0


From 1fe0e45f5ee9b0b57e7eb15d9cf2a17dc78290bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:48 +0000
Subject: [PATCH 32/32] fix: reduced linear system of the embracing algorithm
 is not solved

AztecOO evaluates the Schur complement through the Apply() method of its
payload, which does not yield the product of the composite operator. The
returned updates left the residual of the reduced system unchanged.
---
 source/gradient_crystal_plasticity/solve.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 7d013c7..bb44b12 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -2,6 +2,7 @@
 
 #include <deal.II/numerics/data_out.h>
 
+#include <deal.II/lac/solver_cg.h>
 #include <deal.II/lac/trilinos_linear_operator.h>
 #include <deal.II/lac/packaged_operation.h>
 
@@ -1476,7 +1477,11 @@ solve_reduced_linearized_system()
         macro_krylov_parameters.relative_tolerance,
       macro_krylov_parameters.absolute_tolerance));
 
-  dealii::LinearAlgebraTrilinos::SolverCG solver(solver_control);
+  // The Schur complement is a composite operator, of which only the
+  // vmult() method evaluates the composition. AztecOO works on the
+  // payload's Apply() method instead, which does not
+  dealii::SolverCG<dealii::LinearAlgebraTrilinos::MPI::Vector>
+    solver(solver_control);
 
   dealii::LinearAlgebraTrilinos::MPI::PreconditionILU preconditioner;
 
-- 
2.43.0

