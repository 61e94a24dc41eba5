From c4431f5eef5512cf7e721180ce3741bfdcfc80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:41 +0000
Subject: [PATCH 01/56] fix: relax the moment N, not Jy, with the MRT option
 'Dellar D2Q9 Only N'

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 2eb5849..7f2fc71 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -326,7 +326,7 @@ template<> const array<double, 9> make_diag(double tau, MomentBasis basis,
 		// Dellar relax only moment 'N'
 	case DELLAR_RELAX_ONLY_N: {
 		assert(basis == DELLAR_D2Q9);
-		diag.at(8) = 1.0;
+		diag.at(6) = 1.0; // 'N' is the seventh moment
 		break;
 	} /* case DELLAR_RELAX_FULL */
 
-- 
2.43.0


From 3ff923c57fb90c632000de67489f2d144ae2a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:41 +0000
Subject: [PATCH 02/56] fix: external forces were lost with the MRT relaxation
 times 'DHumieres Paper'

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 7f2fc71..4a0aeed 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -385,7 +385,10 @@ template<> const array<double, 19> make_diag(double tau, MomentBasis basis,
 			double s10 = 1.4;
 			double s4 = 1.2;
 			double s16 = 1.98;
-			diag = {{0, s1, s2, 0, s4, 0, s4, 0, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
+			// the momentum is not conserved when a force shifts the equilibrium velocity:
+			// as in the other modes it has to be relaxed with 1/tau then
+			double s3 = 1. / tau;
+			diag = {{0, s1, s2, s3, s4, s3, s4, s3, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
 			break;
 		} /* case DHUMIERES_D3Q19 */
 		default: {
-- 
2.43.0


From cc341e6976460c55795d368a3f63c784b6a985de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:41 +0000
Subject: [PATCH 03/56] fix: use the quartic equilibrium for D3Q45 and D3Q77
 when it is configured

---
 src/library/natrium/collision_advanced/CollisionSelection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionSelection.h b/src/library/natrium/collision_advanced/CollisionSelection.h
index ff1ef31..e5ba008 100644
--- a/src/library/natrium/collision_advanced/CollisionSelection.h
+++ b/src/library/natrium/collision_advanced/CollisionSelection.h
@@ -196,10 +196,10 @@ inline void selectCollision<3>(SolverConfiguration& configuration,
     DEFINE_POSSIBLE_COLLISION(3,27, Stencil_D3Q27, BGK_REGULARIZED, BGK_EQUILIBRIUM, Regularized, BGKEquilibrium);
 
     DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 	DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 
     //DEFINE_POSSIBLE_COLLISION(3,27, Stencil_RD3Q27, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, IncompressibleEquilibrium);
-- 
2.43.0


From d121dd1c89c4690a21a7c0a746a0e4a2c363ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:41 +0000
Subject: [PATCH 04/56] fix: relax the heat flux of the internal energy with
 the configured Prandtl number

---
 .../natrium/collision_advanced/AuxiliaryCollisionFunctions.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
index 648da1d..02964d3 100644
--- a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
+++ b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
@@ -509,7 +509,7 @@ inline void calculateGeqFromFeq(const std::array<double, T_Q>& feq,std::array<do
         for (size_t a = 0; a < T_D; a++) {
             for (size_t i = 0; i < T_Q; i++) {
                 gStar[i] += p.weight[i] * (centeredFluxTensorG[a] * p.e[i][a]) /
-                                    p.temperature;
+                                    p.cs2;
                     }
                 }
             }
-- 
2.43.0


From 11989aa8f212b1f1040a8234d87f74a301e454dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:41 +0000
Subject: [PATCH 05/56] fix: the regularized collision added tau*dt*F instead
 of dt*F

---
 .../natrium/collision_advanced/CollisionSchemes.h     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/library/natrium/collision_advanced/CollisionSchemes.h b/src/library/natrium/collision_advanced/CollisionSchemes.h
index d7b0612..36f83a9 100644
--- a/src/library/natrium/collision_advanced/CollisionSchemes.h
+++ b/src/library/natrium/collision_advanced/CollisionSchemes.h
@@ -185,9 +185,20 @@ public:
 			}
 		}
 
+		// first order non-equilibrium moment (non-zero if a force shifts the equilibrium velocity)
+		std::array<double, T_D> j1 = {{ 0.0 }};
+		for (int j = 0; j < T_Q; j++) {
+			for (int m = 0; m < T_D; m++) {
+				j1[m] += (fLocal[j] - genData.feq[j]) * genData.e[j][m];
+			}
+		}
+
 		std::array<double, T_Q> fi1 = {{ 0.0 }};
 
 		for (int a = 0; a < T_Q; a++) {
+			for (int b = 0; b < T_D; b++) {
+				fi1[a] += genData.weight[a] / genData.cs2 * genData.e[a][b] * j1[b];
+			}
 			for (int b = 0; b < T_D; b++) {
 				for (int c = 0; c < T_D; c++) {
 
-- 
2.43.0


From 1feda8c4e6e4741b8f05e415ae9bed617c97c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 06/56] fix: reject the MRT option 'Dellar D2Q9 Only N' for
 other moment bases

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 4a0aeed..766bd38 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -325,7 +325,10 @@ template<> const array<double, 9> make_diag(double tau, MomentBasis basis,
 
 		// Dellar relax only moment 'N'
 	case DELLAR_RELAX_ONLY_N: {
-		assert(basis == DELLAR_D2Q9);
+		if (basis != DELLAR_D2Q9) {
+			throw MRTException(
+					"MRT relaxation not defined. DELLAR_RELAX_ONLY_N is only supported for DELLAR_D2Q9 Moment basis.");
+		}
 		diag.at(6) = 1.0; // 'N' is the seventh moment
 		break;
 	} /* case DELLAR_RELAX_FULL */
-- 
2.43.0


From ff04a85ffce87e9ef7c3d1ac13abd5bca26c5c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:55 +0000
Subject: [PATCH 07/56] fix: order the hit points in a cell, most boundary hits
 were lost

---
 src/library/natrium/boundaries/BoundaryHit.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/BoundaryHit.h b/src/library/natrium/boundaries/BoundaryHit.h
index cebe408..4379b07 100755
--- a/src/library/natrium/boundaries/BoundaryHit.h
+++ b/src/library/natrium/boundaries/BoundaryHit.h
@@ -98,7 +98,13 @@ template<size_t dim>
 struct PointComp {
 	bool operator()(const dealii::Point<dim>& lhs,
 			const dealii::Point<dim>& rhs) const {
-		return lhs.distance(rhs) < 1e-10;
+		// lexicographic order; coordinates that differ by round-off are equal
+		for (size_t i = 0; i < dim; i++) {
+			if (fabs(lhs[i] - rhs[i]) > 1e-10) {
+				return lhs[i] < rhs[i];
+			}
+		}
+		return false;
 	}
 };
 
-- 
2.43.0


From 0bf63ee55a473297a8aa3466740d16dc0d1be2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:15 +0000
Subject: [PATCH 08/56] fix: assembling the semi-Lagrangian matrix again
 doubled its entries and the boundary hits

---
 src/library/natrium/advection/SemiLagrangian.cpp             | 4 ++++
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.h       | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 9be474a..4910401 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -81,6 +81,10 @@ void SemiLagrangian<dim>::reassemble() {
 	assert(Base::m_systemMatrix.n() != 0);
 	assert(Base::m_systemMatrix.m() != 0);
 
+	// the entries of a previous assembly must not add up
+	Base::m_systemMatrix = 0;
+	m_boundaryHandler.clear();
+
 	fillSparseObject(false); // "false" says that you want to fill the system matrix, not the sparsity pattern
 
 	Base::m_systemMatrix.compress(dealii::VectorOperation::add);
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
index d88ce1c..bc7d2ad 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
@@ -78,6 +78,11 @@ public:
 	}
 	void addHit(const LagrangianPathTracker<dim>& tracker, size_t boundary_id);
 
+	/// forget all hits (before they are collected anew)
+	void clear() {
+		m_hitList.clear();
+	}
+
 	void apply(DistributionFunctions& f_new, const DistributionFunctions& f_old, double t);
     void apply(DistributionFunctions& f_new, const DistributionFunctions& f_old, DistributionFunctions& g, double t);
     void operate(GlobalBoundaryData g_data, double t);
-- 
2.43.0


From 765b1be55a07933fd464a995398e371703fa48ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:15 +0000
Subject: [PATCH 09/56] fix: semi-Lagrangian paths crashed at the interface to
 refined cells

---
 .../natrium/advection/SemiLagrangian.cpp        | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 4910401..373ec59 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -423,9 +423,22 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 					// Interior faces
 					el.currentPoint = p_boundary;
 					if (el.currentCell->neighbor(face_id)->has_children()) {
+						// the neighbor is refined: go to its child behind the crossed
+						// part of the face (child_id refers to the current cell)
+						size_t subface = 0;
+						while (subface + 1 < dealii::GeometryInfo<dim>::max_children_per_face
+								and dealii::GeometryInfo<dim>::child_cell_on_face(
+										dealii::RefinementCase<dim>::isotropic_refinement,
+										face_id, subface,
+										el.currentCell->face_orientation(face_id),
+										el.currentCell->face_flip(face_id),
+										el.currentCell->face_rotation(face_id))
+										!= child_id) {
+							subface++;
+						}
 						el.currentCell =
-								el.currentCell->child(child_id)->neighbor(
-										face_id);
+								el.currentCell->neighbor_child_on_subface(
+										face_id, subface);
 					} else {
 						el.currentCell = el.currentCell->neighbor(face_id);
 					}
-- 
2.43.0


From a740a1eda2cf7d077b4f2ebf815485e69687ef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:15 +0000
Subject: [PATCH 10/56] fix: semi-Lagrangian paths in 3D cells whose mapping
 cannot be inverted

---
 src/library/natrium/advection/SemiLagrangian.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 373ec59..e7c27a7 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -560,7 +560,7 @@ int SemiLagrangian<dim>::faceCrossedFirst(
 	try {
 		// the bilinear mapping function might not be invertible outside the cell
 		po_unit = Base::m_mapping->transform_real_to_unit_cell(ci, p_outside);
-	} catch (dealii::Mapping<2, 2>::ExcTransformationFailed& e) {
+	} catch (typename dealii::Mapping<dim, dim>::ExcTransformationFailed& e) {
 		LOG(WARNING)
 				<< " using cell_around_active_point is a workaround! "
 						"Close to boundaries, the departure point (p_outside) could either reside outside the cell, "
@@ -744,11 +744,20 @@ int SemiLagrangian<dim>::faceCrossedFirstWithoutMapping(
 		// inserting (1) into (2) gives
 		// => lambda = (p_inside - p) * n / (p_inside - p_outside) * n
 
+		// make n point out of the cell; a face can only be crossed outwards
+		// (the path may start on the face and lead into the cell)
+		if ((ci->center() - p) * n > 0) {
+			n *= -1;
+		}
+		if ((p_outside - p_inside) * n <= 0) {
+			// wrong direction
+			continue;
+		}
 		lam = ((p_inside - p) * n) / ((p_inside - p_outside) * n);
 		//cout << i << lam << endl;
 		if (lam < 0) {
-			// wrong direction
-			continue;
+			// round-off: the path starts on the face
+			lam = 0;
 		}
 		if (lam < lambda_min) {
 			lambda_min = lam;
-- 
2.43.0


From 0123ab3275dffe848a28276900386c1414d6c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 11/56] fix: boundary conditions were evaluated at unit cell
 coordinates instead of the wall point

---
 src/library/natrium/boundaries/FEBoundaryValues.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/boundaries/FEBoundaryValues.h b/src/library/natrium/boundaries/FEBoundaryValues.h
index 415c4dd..838913a 100755
--- a/src/library/natrium/boundaries/FEBoundaryValues.h
+++ b/src/library/natrium/boundaries/FEBoundaryValues.h
@@ -225,8 +225,9 @@ public:
 		return result;
 	}
 
+	/// coordinates of the hit point (in the domain, not in the unit cell)
 	const dealii::Point<dim>& getPoint(size_t q_point){
-		return m_feValues.get_quadrature().point(q_point);
+		return m_feValues.quadrature_point(q_point);
 	}
 
 	const GlobalBoundaryData& getData() const {
@@ -236,7 +237,7 @@ public:
 private:
 
 	dealii::UpdateFlags getFEValuesFlags(BoundaryFlags& flags) {
-		dealii::UpdateFlags result = dealii::update_values;
+		dealii::UpdateFlags result = dealii::update_values | dealii::update_quadrature_points;
 		if (boundary_drho_dt & flags) {
 			result |= dealii::update_gradients;
 		}
-- 
2.43.0


From f36e605d675c220f6422ca0691c9be3e21f6417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 12/56] fix: prescribed temperatures of a boundary were taken
 from the pressure and lost on copying

---
 src/library/natrium/boundaries/BoundaryFlags.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/BoundaryFlags.h b/src/library/natrium/boundaries/BoundaryFlags.h
index c821e97..4b15dc8 100755
--- a/src/library/natrium/boundaries/BoundaryFlags.h
+++ b/src/library/natrium/boundaries/BoundaryFlags.h
@@ -80,6 +80,7 @@ public:
 		m_prescribedValues = other.m_prescribedValues;
 		m_pressure = other.m_pressure;
 		m_velocity = other.m_velocity;
+		m_temperature = other.m_temperature;
 		m_velocityGradient = other.m_velocityGradient;
 	}
 
@@ -143,7 +144,7 @@ public:
         m_velocity = boost::make_shared<BoundaryTools::BoundaryVelocity<dim> >(
                 u);
         m_temperature = boost::make_shared<BoundaryTools::BoundaryTemperature<dim> >(
-                p);
+                T);
     }
 
 	/**
-- 
2.43.0


From 7624864922c297e0449b8a080df483ba97e668e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 13/56] fix: the equilibrium boundary ignored its temperature
 in the second population set

---
 src/library/natrium/boundaries/SLEquilibriumBoundary.h |  5 +++++
 .../boundaries/SemiLagrangianBoundaryHandler.cpp       | 10 +++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/boundaries/SLEquilibriumBoundary.h b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
index a0714ca..ca2dd98 100755
--- a/src/library/natrium/boundaries/SLEquilibriumBoundary.h
+++ b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
@@ -181,6 +181,11 @@ public:
                     destination.index) = feq;
 
     }
+
+    double getTemperature() const {
+        return m_temperature;
+    }
+
 private:
     double m_temperature;
 };
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index e6335e4..3ef0214 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -7,6 +7,7 @@
 
 #include "SemiLagrangianBoundaryHandler.h"
 #include "BoundaryFlags.h"
+#include "SLEquilibriumBoundary.h"
 
 namespace natrium {
 
@@ -112,8 +113,6 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
     void SemiLagrangianBoundaryHandler<dim>::applyToG(DistributionFunctions &f, DistributionFunctions &g, double t, const double gamma) {
 
         const double C_v = 1. / (gamma - 1.0);
-        const double temperature = 1.0;
-
         std::vector<dealii::Point<dim> > local_hit_points;
         typename HitList<dim>::iterator cell_it = m_hitList.begin();
         typename HitList<dim>::iterator cell_end = m_hitList.end();
@@ -144,10 +143,15 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
                 for (size_t i = 0; i < point_hits.n_hits(); i++) {
                     const BoundaryHit<dim> &hit = point_hits.at(i);
                     if (m_boundaries.getBoundary(hit.getBoundaryId())->getBoundaryName() ==
-                        VELOCITY_EQUILIBRIUM_BOUNDARY)
+                        VELOCITY_EQUILIBRIUM_BOUNDARY) {
+                        const boost::shared_ptr<SLEquilibriumBoundary<dim> > eq_boundary =
+                                boost::dynamic_pointer_cast<SLEquilibriumBoundary<dim> >(
+                                        m_boundaries.getBoundary(hit.getBoundaryId()));
+                        const double temperature = eq_boundary ? eq_boundary->getTemperature() : 1.0;
                         g.at(hit.getDestination().direction)(hit.getDestination().index) =
                                 f.at(hit.getDestination().direction)(hit.getDestination().index) * (temperature) *
                                 (2.0 * C_v - dim);
+                    }
 // calculate new g distribution functions at hits
 
                 } /* for all hits */
-- 
2.43.0


From d760be27ad676e44f7289242023b11ba2c242cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 14/56] fix: paths trapped in a corner added all their wall
 hits in every time step

---
 .../natrium/advection/SemiLagrangian.cpp        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index e7c27a7..509bd9e 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -245,6 +245,9 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 				}
 			}
 
+			// boundary hits of the current path
+			std::vector<std::pair<LagrangianPathTracker<dim>, size_t> > hits_of_path;
+
 			// -- Recursively follow Lagrangian paths ---
 			// while there are points that have not been found, yet
 			while (not not_found.empty()) {
@@ -270,6 +273,8 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 								el.destination.index, el.destination.index,
 								1.0);
 					}
+					// the distribution function does not change, so its hits do not count
+					hits_of_path.clear();
 					not_found.pop();
 					continue;
 				}
@@ -330,6 +335,11 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 					} else {
 						it->second.push_back(el);
 					}
+					for (size_t h = 0; h < hits_of_path.size(); h++) {
+						m_boundaryHandler.addHit(hits_of_path[h].first,
+								hits_of_path[h].second);
+					}
+					hits_of_path.clear();
 					not_found.pop();
 
 					// ================================================================================================
@@ -383,7 +393,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 												* distance / vel_direction;
 							}
 							if (not sparsity_pattern) {
-								m_boundaryHandler.addHit(el, bi);
+								hits_of_path.push_back(std::make_pair(el, bi));
 							}
 
 						}
@@ -410,8 +420,13 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 							// ================================================================================================
 							if (not sparsity_pattern) {
 								el.currentPoint = p_boundary;
+								for (size_t h = 0; h < hits_of_path.size(); h++) {
+									m_boundaryHandler.addHit(hits_of_path[h].first,
+											hits_of_path[h].second);
+								}
 								m_boundaryHandler.addHit(el, bi);
 							}
+							hits_of_path.clear();
 							not_found.pop();
 
 						}
-- 
2.43.0


From c3ea5f177a3b0c4649f403f043e63dacaa8c0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:02 +0000
Subject: [PATCH 15/56] fix: moving walls pushed populations the wrong way when
 the path hits two walls

---
 src/library/natrium/advection/SemiLagrangian.cpp         | 1 +
 src/library/natrium/advection/SemiLagrangianTools.h      | 6 ++++--
 src/library/natrium/boundaries/VelocityNeqBounceBack.cpp | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 509bd9e..5ed0c19 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -370,6 +370,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 						// ================================= VelocityNeqBounceBack ========================================
 						// ================================================================================================
 						if (is_velocity_neq_bb(Base::getBoundaries()->getBoundary(bi)->getBoundaryName())) {
+							el.destination.hitDirection = el.currentDirection;
 							el.currentDirection =
 									Base::m_stencil->getIndexOfOppositeDirection(
 											el.currentDirection);
diff --git a/src/library/natrium/advection/SemiLagrangianTools.h b/src/library/natrium/advection/SemiLagrangianTools.h
index 9170211..8ff4b9d 100755
--- a/src/library/natrium/advection/SemiLagrangianTools.h
+++ b/src/library/natrium/advection/SemiLagrangianTools.h
@@ -36,11 +36,13 @@ public:
 struct LagrangianPathDestination {
 	size_t index;
 	size_t direction; // in case of a boundary: the outgoing direction
+	size_t hitDirection; // direction in which the particles leave the wall (differs from direction, if they hit another wall afterwards)
 	LagrangianPathDestination(size_t i, size_t alpha) :
-			index(i), direction(alpha) {
+			index(i), direction(alpha), hitDirection(alpha) {
 	}
 	LagrangianPathDestination(const LagrangianPathDestination& other) :
-			index(other.index), direction(other.direction) {
+			index(other.index), direction(other.direction), hitDirection(
+					other.hitDirection) {
 	}
 };
 
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 07174ae..56e2133 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -172,7 +172,7 @@ void VelocityNeqBounceBack<dim>::calculateBoundaryValues(
 
 	// calculate scalar product
 	for (size_t i = 0; i < dim; i++) {	// TODO efficient multiplication
-		exu += u[i] * stencil.getDirection(destination.direction)(i);
+		exu += u[i] * stencil.getDirection(destination.hitDirection)(i);
 		uxu += u[i] * u[i];
 	}
 
-- 
2.43.0


From 53ddb469346834c81e9edcde52d6f79cc64f5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 16/56] fix: reject periodic boundaries whose opposite cells
 have different refinement levels

---
 src/library/natrium/utilities/DealiiExtensions.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/utilities/DealiiExtensions.cpp b/src/library/natrium/utilities/DealiiExtensions.cpp
index ee7eb72..aef48e2 100644
--- a/src/library/natrium/utilities/DealiiExtensions.cpp
+++ b/src/library/natrium/utilities/DealiiExtensions.cpp
@@ -477,11 +477,12 @@ void make_periodicity_map_dg(const typename DH::cell_iterator &cell_1,
 		// Anisotropic refinement is also left out here for simplicity.
 		// Consequently, opposite cells at periodic boundaries have to have the same
 		// refinement level.
-		if (cell_1->has_children())
-			PeriodicBoundaryNotPossible(
+		// (artificial cells do not know about the refinement on other processes)
+		if (cell_1->has_children() and not cell_2->is_artificial())
+			throw PeriodicBoundaryNotPossible(
 					"Opposite cells at periodic boundaries have to have the same refinement level.");
-		if (cell_2->has_children())
-			PeriodicBoundaryNotPossible(
+		if (cell_2->has_children() and not cell_1->is_artificial())
+			throw PeriodicBoundaryNotPossible(
 					"Opposite cells at periodic boundaries have to have the same refinement level.");
 
 		// taken from make_periodicity_constraints: make sure faces are not artificial
-- 
2.43.0


From a2c8398a35c711be2f6b70ecb8ffcb1b54de7240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 17/56] fix: reject boundaries whose indicator is used already

---
 .../problemdescription/BoundaryCollection.h   | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/library/natrium/problemdescription/BoundaryCollection.h b/src/library/natrium/problemdescription/BoundaryCollection.h
index c40c90c..ae04263 100644
--- a/src/library/natrium/problemdescription/BoundaryCollection.h
+++ b/src/library/natrium/problemdescription/BoundaryCollection.h
@@ -74,18 +74,17 @@ public:
 	 */
 	void addBoundary(boost::shared_ptr<PeriodicBoundary<dim> > boundary) {
 		assert (boundary->isPeriodic());
-			bool success1 =
-					m_boundaries.insert(
-							std::make_pair(boundary->getBoundaryIndicator1(),
-									boundary)).second;
-			bool success2 =
-					m_boundaries.insert(
-							std::make_pair(boundary->getBoundaryIndicator2(),
-									boundary)).second;
-			if ((not success1) or (not success2)) {
+			if (hasID(boundary->getBoundaryIndicator1())
+					or hasID(boundary->getBoundaryIndicator2())) {
 				throw BoundaryCollectionException(
 						"Boundary could not be inserted. Boundary indicators must be unique.");
 			}
+			m_boundaries.insert(
+					std::make_pair(boundary->getBoundaryIndicator1(),
+							boundary));
+			m_boundaries.insert(
+					std::make_pair(boundary->getBoundaryIndicator2(),
+							boundary));
 			m_periodicBoundaries.insert(
 					std::make_pair(boundary->getBoundaryIndicator1(), boundary));
 			m_periodicBoundaries.insert(
@@ -96,6 +95,10 @@ public:
 
 	void addBoundary(boost::shared_ptr<Boundary<dim> > boundary) {
 		assert (not boundary->isPeriodic()) ;
+		if (hasID(boundary->getBoundaryIndicator())) {
+			throw BoundaryCollectionException(
+					"Boundary could not be inserted. Boundary indicators must be unique.");
+		}
 		m_boundaries.insert(std::make_pair(boundary->getBoundaryIndicator(), boundary));
 	}
 
-- 
2.43.0


From 2c06a64f16ae5e2a96a94b02cfd0351ac7485429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:45 +0000
Subject: [PATCH 18/56] fix: evaluate moving walls at the time of the hit, not
 one time step earlier

---
 src/library/natrium/solver/CFDSolver.cpp           | 8 +++++---
 src/library/natrium/solver/CompressibleCFDSolver.h | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 6965ea1..303f1fd 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -669,8 +669,10 @@ void CFDSolver<dim>::stream() {
 	if (SEMI_LAGRANGIAN == m_configuration->getAdvectionScheme()) {
 
 		DistributionFunctions f_tmp(m_f);
+		// wall hits are dated back from the end of the step
+		const double time_of_next_step = m_time + getTimeStepSize();
 		systemMatrix.vmult(m_f.getFStream(), f_tmp.getFStream());
-		m_advectionOperator->applyBoundaryConditions(f_tmp, m_f, m_time);
+		m_advectionOperator->applyBoundaryConditions(f_tmp, m_f, time_of_next_step);
 		/*distributed_block_vector f_tmp(f.n_blocks());
 		 reinitVector(f_tmp, f);
 		 f_tmp = f;
@@ -693,7 +695,7 @@ void CFDSolver<dim>::stream() {
 			systemMatrix.vmult(m_multistepData->getFormerF().getFStream(),
 					f_tmp.getFStream());
 			m_advectionOperator->applyBoundaryConditions(f_tmp,
-					m_multistepData->getFormerF(), m_time);
+					m_multistepData->getFormerF(), time_of_next_step);
 			//m_advectionOperator->applyBoundaryConditions( f_tmp, formerF,  m_time);
 			if (m_configuration->isVmultLimiter()) {
 				TimerOutput::Scope timer_section(Timing::getTimer(), "Limiter");
@@ -708,7 +710,7 @@ void CFDSolver<dim>::stream() {
 			systemMatrix.vmult(m_multistepData->getFormerFEq().getFStream(),
 					f_tmp.getFStream());
 			m_advectionOperator->applyBoundaryConditions(f_tmp,
-					m_multistepData->getFormerFEq(), m_time);
+					m_multistepData->getFormerFEq(), time_of_next_step);
 			//m_advectionOperator->applyBoundaryConditions( f_tmp, formerFEq,  m_time);
 			if (m_configuration->isVmultLimiter()) {
 				TimerOutput::Scope timer_section(Timing::getTimer(), "Limiter");
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index f21f94f..20a2052 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -191,8 +191,10 @@ public:
         if (SEMI_LAGRANGIAN == this->m_configuration->getAdvectionScheme()) {
 
             DistributionFunctions f_tmp(this->m_f);
+            // wall hits are dated back from the end of the step
+            const double time_of_next_step = this->m_time + this->getTimeStepSize();
             systemMatrix.vmult(this->m_f.getFStream(), f_tmp.getFStream());
-            this->m_advectionOperator->applyBoundaryConditions(f_tmp, this->m_f, m_g, this->m_time);
+            this->m_advectionOperator->applyBoundaryConditions(f_tmp, this->m_f, m_g, time_of_next_step);
             /*distributed_block_vector f_tmp(f.n_blocks());
              reinitVector(f_tmp, f);
              f_tmp = f;
@@ -215,7 +217,7 @@ public:
                 systemMatrix.vmult(this->m_multistepData->getFormerF().getFStream(),
                                    f_tmp.getFStream());
                 this->m_advectionOperator->applyBoundaryConditions(f_tmp,
-                                                                   this->m_multistepData->getFormerF(), this->m_time);
+                                                                   this->m_multistepData->getFormerF(), time_of_next_step);
                 //m_advectionOperator->applyBoundaryConditions( f_tmp, formerF,  m_time);
                 if (this->m_configuration->isVmultLimiter()) {
                     TimerOutput::Scope timer_section(Timing::getTimer(), "Limiter");
@@ -230,7 +232,7 @@ public:
                 systemMatrix.vmult(this->m_multistepData->getFormerFEq().getFStream(),
                                    f_tmp.getFStream());
                 this->m_advectionOperator->applyBoundaryConditions(f_tmp,
-                                                                   this->m_multistepData->getFormerFEq(), this->m_time);
+                                                                   this->m_multistepData->getFormerFEq(), time_of_next_step);
                 //m_advectionOperator->applyBoundaryConditions( f_tmp, formerFEq,  m_time);
                 if (this->m_configuration->isVmultLimiter()) {
                     TimerOutput::Scope timer_section(Timing::getTimer(), "Limiter");
-- 
2.43.0


From f0394f2052db94efc9da4b8458d917ce0c2e0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:58 +0000
Subject: [PATCH 19/56] fix: declare the parameters when a configuration is
 constructed from a file

---
 src/library/natrium/solver/SolverConfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.cpp b/src/library/natrium/solver/SolverConfiguration.cpp
index 8ad2100..18b6a0b 100644
--- a/src/library/natrium/solver/SolverConfiguration.cpp
+++ b/src/library/natrium/solver/SolverConfiguration.cpp
@@ -294,8 +294,8 @@ SolverConfiguration::SolverConfiguration() {
 
 }
 
-SolverConfiguration::SolverConfiguration(const std::string& XMLfilename) {
-	SolverConfiguration();
+SolverConfiguration::SolverConfiguration(const std::string& XMLfilename) :
+		SolverConfiguration() {
 	readFromXMLFile(XMLfilename);
 }
 
-- 
2.43.0


From 08e8cbb928ce64ac08e37a9cc3c687ea65cccab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 20/56] fix: set empty lists of wall-normal coordinates, and
 keep the digits of the coordinates

---
 src/library/natrium/solver/SolverConfiguration.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.h b/src/library/natrium/solver/SolverConfiguration.h
index e081acb..ed2ff63 100644
--- a/src/library/natrium/solver/SolverConfiguration.h
+++ b/src/library/natrium/solver/SolverConfiguration.h
@@ -10,6 +10,7 @@
 
 #include <ctime>
 #include <fstream>
+#include <iomanip>
 #include <sstream>
 #include <stdlib.h>
 
@@ -2478,9 +2479,10 @@ public:
 		enter_subsection("Output");
 		enter_subsection("Turbulence Statistics");
 		std::stringstream s;
+		s << std::setprecision(16);
 		try {
 			size_t n = wall_normal_coordinates.size();
-			for (size_t i = 0; i < n - 1; i++) {
+			for (size_t i = 0; i + 1 < n; i++) {
 				s << wall_normal_coordinates.at(i) << ",";
 			}
 			if (n != 0) {
-- 
2.43.0


From 402754eb8a9dc6bf43d9c377e466262dfa44c9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 21/56] fix: leave the subsections when embedded integrator
 parameters are rejected

---
 .../natrium/solver/SolverConfiguration.h      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.h b/src/library/natrium/solver/SolverConfiguration.h
index ed2ff63..3113188 100644
--- a/src/library/natrium/solver/SolverConfiguration.h
+++ b/src/library/natrium/solver/SolverConfiguration.h
@@ -1979,12 +1979,20 @@ public:
 		enter_subsection("Advection");
 		enter_subsection("Embedded Parameters");
 
-		set("Coarsen parameter", coarsen_param);
-		set("Refinement parameter", refine_param);
-		set("Minimum CFL", min_delta);
-		set("Maximum CFL", max_delta);
-		set("Refinement tolerance", refine_tol);
-		set("Coarsen tolerance", coarsen_tol);
+		try {
+			set("Coarsen parameter", coarsen_param);
+			set("Refinement parameter", refine_param);
+			set("Minimum CFL", min_delta);
+			set("Maximum CFL", max_delta);
+			set("Refinement tolerance", refine_tol);
+			set("Coarsen tolerance", coarsen_tol);
+		} catch (std::exception& e) {
+			std::stringstream msg;
+			msg << "Could not assign embedded parameters: " << e.what();
+			leave_subsection();
+			leave_subsection();
+			throw ConfigurationException(msg.str());
+		}
 
 		leave_subsection();
 		leave_subsection();
-- 
2.43.0


From fb6e7448e1fa8398d3f28ff3d1b2c9feb264d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 22/56] fix: accept output directories that are relative to the
 working directory

---
 src/library/natrium/solver/SolverConfiguration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.cpp b/src/library/natrium/solver/SolverConfiguration.cpp
index 18b6a0b..7160973 100644
--- a/src/library/natrium/solver/SolverConfiguration.cpp
+++ b/src/library/natrium/solver/SolverConfiguration.cpp
@@ -332,7 +332,8 @@ void SolverConfiguration::prepareOutputDirectory() {
 	// Make output directory
 	if (is_MPI_rank_0()) {
 		/// If not exists, try to create output directory
-		boost::filesystem::path parentDir(outputDir.branch_path());
+		boost::filesystem::path parentDir(
+				boost::filesystem::absolute(outputDir).branch_path());
 		if (not boost::filesystem::is_directory(parentDir)) {
 			std::stringstream msg;
 			msg << "You want to put your output directory into "
-- 
2.43.0


From 40b57c12f61aa4eef99c2c8b308dcf1880041533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 23/56] fix: reject unknown values of --mrt-relax

---
 src/library/natrium/utilities/CommandLineParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index e01cc0d..5cdf0e5 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -486,7 +486,7 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 			cfg.setMRTRelaxationTimes(RELAX_FULL);
 		} else if ("dellar-only-N" == relax) {
 			cfg.setMRTRelaxationTimes(DELLAR_RELAX_ONLY_N);
-		} else if ("dhumieres-paper") {
+		} else if ("dhumieres-paper" == relax) {
 			cfg.setMRTRelaxationTimes(RELAX_DHUMIERES_PAPER);
 		} else {
 			std::stringstream msg;
-- 
2.43.0


From a8c82fffd4706ff97677df70659b743ae401dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 24/56] fix: report arguments that are read with a wrong type,
 as documented

---
 src/library/natrium/utilities/CommandLineParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 5cdf0e5..ef7cd91 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -631,8 +631,7 @@ type CommandLineParser::getArgument(std::string name) {
 			msg << endl;
 			msg << "Original error message:" << e.what();
 			throw CommandLineParserException(msg.str());
-		} catch (boost::exception_detail::clone_impl<
-				boost::exception_detail::error_info_injector<boost::bad_any_cast> >& e) {
+		} catch (boost::bad_any_cast& e) {
 			std::stringstream msg;
 			msg << "A problem occured when reading the argument ";
 			msg << name;
-- 
2.43.0


From 19a0a9dceca8ceba3e83d66d5151135fa672421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 25/56] fix: --standard-lbm-with conflicts with any other
 order, not with orders different from 2

---
 src/library/natrium/utilities/CommandLineParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index ef7cd91..7790ce1 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -97,9 +97,11 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 			throw CommandLineParserException(
 					"Conflicting arguments: standard-lbm and cfl");
 		}
-		if (hasArgument("order-fe") and (getArgument<int>("order-fe") != 2)) {
+		if (hasArgument("order-fe")
+				and (getArgument<int>("order-fe")
+						!= getArgument<int>("standard-lbm-with"))) {
 			throw CommandLineParserException(
-					"Conflicting arguments: standard-lbm and order-fe != 2");
+					"Conflicting arguments: standard-lbm-with and another order-fe");
 		}
 		if (hasArgument("streaming")
 				and (getArgument<string>("streaming") != "sl")) {
-- 
2.43.0


From c423be2fb88acfefbced0c34a9db5b6f1b3c2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 26/56] fix: do not store arguments with defaults into a
 variable that no longer exists

---
 src/library/natrium/utilities/CommandLineParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 7790ce1..e9ac5e5 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -569,9 +569,8 @@ void CommandLineParser::setArgument(std::string name, std::string description,
 		type default_value) {
 	assert_clean();
 	try {
-		type opt;
 		m_description.add_options()(name.c_str(),
-				po::value<type>(&opt)->default_value(default_value),
+				po::value<type>()->default_value(default_value),
 				description.c_str());
 	} catch (po::error& e) {
 		std::stringstream msg;
-- 
2.43.0


From 1fcd358b1d45231d72e2cca7f33c097d41dc9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 27/56] fix: the help message of --standard-lbm names the CFL
 number that is set

---
 src/library/natrium/utilities/CommandLineParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index e9ac5e5..d34298b 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -17,7 +17,7 @@ CommandLineParser::CommandLineParser(int argc, char** argv) :
 
 	// define standard arguments that can be used in all scripts to change the solver configuration
 	setFlag("standard-lbm",
-			"sets the order to 2 and cfl to 4*sqrt(2), giving standard lbm on regular grids");
+			"sets the order to 2 and cfl to 2*sqrt(2), giving standard lbm on regular grids");
 	setArgument<int>("standard-lbm-with",
 			"as standard-lbm, but with n-th order calculation of derivatives.");
 	setArgument<int>("order-fe", "order of finite elements");
-- 
2.43.0


From 2842cdc41f9b379af97ed84d6be9adc6de8474e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 28/56] fix: weight nodal values with the shape functions in
 meanVelocityX and entropy

---
 src/library/natrium/solver/PhysicalProperties.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/solver/PhysicalProperties.cpp b/src/library/natrium/solver/PhysicalProperties.cpp
index 952b13d..3416d9d 100644
--- a/src/library/natrium/solver/PhysicalProperties.cpp
+++ b/src/library/natrium/solver/PhysicalProperties.cpp
@@ -325,7 +325,7 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 
 // Integrate ux over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values | dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -347,9 +347,10 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 			feCellValues.reinit(cell);
 			for (size_t q = 0; q < n_q_points; q++) {
 				for (size_t i = 0; i < dofs_per_cell; i++) {
-					result += ux(localDoFIndices.at(i)) * feCellValues.JxW(q);
-					area += feCellValues.JxW(q);
+					result += ux(localDoFIndices.at(i))
+							* feCellValues.shape_value(i,q) * feCellValues.JxW(q);
 				}
+				area += feCellValues.JxW(q);
 			}
 		} /* if is locally owned */
 	} /* for all cells */
@@ -370,7 +371,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 
 	// Integrate rho over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values | dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -397,7 +398,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 						// atGhosted gives a vector that also contains the ghost elements
 						result -= f.atGhosted(j)(local_i)
 								* log(f.atGhosted(j)(local_i) / weights.at(j))
-								* feCellValues.JxW(q);
+								* feCellValues.shape_value(i,q) * feCellValues.JxW(q);
 					}
 				}
 			}
-- 
2.43.0


From a398432ef29145cb89c3bc02acd04be2d298ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 29/56] fix: legends of the turbulence tables name the columns
 that are written

---
 .../natrium/dataprocessors/CompressibleTurbulenceStats.cpp  | 6 +++++-
 .../natrium/dataprocessors/GlobalTurbulenceStats.cpp        | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
index a9faf73..331c564 100644
--- a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
@@ -54,12 +54,16 @@ CompressibleTurbulenceStats<dim>::CompressibleTurbulenceStats(CompressibleCFDSol
                            << m_legendFilename << endl;
             std::ofstream legend_file(m_legendFilename, std::fstream::out);
 
-            int k = 0;
+            legend_file << "1  iteration" << endl;
+            legend_file << "2  time" << endl;
+            int k = 3;
             legend_file << k << "  <dilatation>" << endl;
             k++;
             legend_file << k << "  <solenoidal>" << endl;
             k++;
             legend_file << k << "  maxMach" << endl;
+            k++;
+            legend_file << k << "  totalEnergy" << endl;
             legend_file.close();
 
         } /* is_MPI_rank 0 */
diff --git a/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp b/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
index 95b2ceb..6d3fe18 100755
--- a/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
@@ -90,7 +90,7 @@ void GlobalTurbulenceStats<dim>::printHeaderLine() {
 
 		// write legend file
 		legend_file << "1  iteration" << endl;
-		legend_file << "3  time" << endl;
+		legend_file << "2  time" << endl;
 		size_t k = 3;
 		for (size_t i = 0; i < m_nofObservables; i++) {
 			legend_file << k << "  < " << m_names.at(i) << " >" << endl;
-- 
2.43.0


From db8489d0a97a3df7582d358d7dc9c8e6b63e4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 30/56] fix: compressible turbulence statistics are taken after
 the collision, from the state of their iteration

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 20a2052..e85a5e3 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -1024,9 +1024,6 @@ void compressibleFilter() {
             this->stream();
             gStream();
             compressibleFilter();
-            if (this->m_configuration->isOutputCompressibleTurbulenceStatistics()) {
-                this->m_compressibleTurbulenceStats->apply();
-            }
             if(this->m_i==200) {
 
 
@@ -1036,6 +1033,9 @@ void compressibleFilter() {
 
             this->collide();
 
+            if (this->m_configuration->isOutputCompressibleTurbulenceStatistics()) {
+                this->m_compressibleTurbulenceStats->apply();
+            }
             for (size_t i = 0; i < this->m_dataProcessors.size(); i++) {
                 this->m_dataProcessors.at(i)->apply();
             }
-- 
2.43.0


From 606453d9dd0a09e4eba6096d8d9e5251442f2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 31/56] fix: sign of the neighbour's (and opposite direction's)
 part of the central flux

---
 src/library/natrium/advection/SEDGMinLee.cpp             | 2 +-
 src/library/natrium/boundaries/VelocityNeqBounceBack.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 5d38864..930a39e 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -514,7 +514,7 @@ void SEDGMinLee<dim>::assembleAndDistributeInternalFace(size_t alpha,
 
 		if (m_useCentralFlux) {
 			cell_entry = 0.5 * prefactor;
-			neighbor_entry = 0.5 * prefactor;
+			neighbor_entry = -0.5 * prefactor;
 
 		} else if (exn < 0) { // otherwise: no contributions
 			cell_entry = prefactor;
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 56e2133..6a2b953 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -98,7 +98,7 @@ template<size_t dim> void VelocityNeqBounceBack<dim>::assembleBoundary(
 
 		if (useCentralFlux) {
 			cellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
-			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
+			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = -0.5 * prefactor;
 			cellFaceVector(thisDoF) = -prefactor * stencil.getWeight(alpha)
 					* density * exu / stencil.getSpeedOfSoundSquare();
 		} else if (exn < 0) {
-- 
2.43.0


From 83e03c9353b7a7235265b0821a6a76ae4880fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 32/56] fix: SEDGMinLee::reassemble added the new operator on
 top of the old one

---
 src/library/natrium/advection/SEDGMinLee.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 930a39e..69245e9 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -96,6 +96,11 @@ void SEDGMinLee<dim>::reassemble() {
 	distributed_sparse_block_matrix& system_matrix = Base::m_systemMatrix;
 	assert(system_matrix.n() != 0);
 	assert(system_matrix.m() != 0);
+
+// start from zero (the local contributions are added up below)
+	system_matrix = 0;
+	m_systemVector = 0;
+
 /////////////////////////////////
 // Initialize Finite Element ////
 /////////////////////////////////
-- 
2.43.0


From 86db1a9cc245bca8f5673f2d9bc32fe2c113e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 33/56] fix: checkpoints kept only six digits of the time and
 the stencil scaling

---
 src/library/natrium/solver/Checkpoint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 8d26035..d90658f 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -79,6 +79,7 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 	// write status
 	if (is_MPI_rank_0()) {
 		std::ofstream outfile(m_statusFile.string());
+		outfile.precision(17);
 		outfile << status.iterationNumber << endl;
 		// time
 		outfile << status.time << endl;
-- 
2.43.0


From 1bcf8bb55bec2a11fbac77e2496bd1c582baa46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 34/56] fix: looking for the most recent checkpoint failed if
 there were checkpoints of g

---
 src/library/natrium/solver/Checkpoint.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index d90658f..12ce004 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -12,6 +12,7 @@
 
 #include "boost/filesystem.hpp"
 #include "boost/algorithm/string/replace.hpp"
+#include "boost/algorithm/string/predicate.hpp"
 
 #include "deal.II/fe/fe_dgq.h"
 #include "deal.II/dofs/dof_handler.h"
@@ -39,6 +40,10 @@ Checkpoint<dim>::Checkpoint(size_t iteration,
 					!= ".stat") {
 				continue;
 			}
+			// do not mix up the checkpoints of f and g
+			if (boost::starts_with(this_filename, "checkpointG_") != isG) {
+				continue;
+			}
 			if (!isG){
 			boost::replace_all(this_filename, "checkpoint_", "");
 			boost::replace_all(this_filename, ".stat", "");
-- 
2.43.0


From bbeedc972726157adc8601edf84e557ff27bb8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 35/56] fix: restart failed with stencils that make_stencil
 does not know (although its result is not used)

---
 src/library/natrium/solver/Checkpoint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 12ce004..dd40bf6 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -324,8 +324,8 @@ void Checkpoint<dim>::load(DistributionFunctions& f,
 	// TODO Enable transfer to new scaling
 	LOG(DETAILED) << "Transfer to new scaling (not implemented)" << endl;
 	// transfer to current stencil scaling, if required
-	boost::shared_ptr<Stencil> old_stencil = CFDSolverUtilities::make_stencil(
-			new_stencil->getD(), new_stencil->getQ(), status.stencilScaling);
+	//boost::shared_ptr<Stencil> old_stencil = CFDSolverUtilities::make_stencil(
+	//		new_stencil->getD(), new_stencil->getQ(), status.stencilScaling);
 	//f.transferFromOtherScaling(*old_stencil, *new_stencil,
     //dof_handler.locally_owned_dofs());
 	f.compress(dealii::VectorOperation::insert);
-- 
2.43.0


From 66126c47be5b78548af67f3b230c4530dee8c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 36/56] fix: velocities after a restart were not calculated
 from the distribution functions

---
 src/library/natrium/solver/CFDSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 303f1fd..78631c9 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1516,7 +1516,7 @@ void CFDSolver<dim>::calculateDensitiesAndVelocities() {
 		size_t i = *it;
 		double one_by_rho_i = 1.0 / writeable_rho(i);
 		for (size_t j = 0; j < dim; j++) {
-			writeable_u[j](i) = m_velocity[j](i) * one_by_rho_i;
+			writeable_u[j](i) *= one_by_rho_i;
 		}
 	}
 
-- 
2.43.0


From 5c26de3bf9ee757b59871f06b979140a29a88a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 37/56] fix: the checkpoint of iteration 1 overwrote the most
 recent one in the directory

---
 src/library/natrium/solver/Checkpoint.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index dd40bf6..67fbd97 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -80,6 +80,13 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 		const dealii::DoFHandler<dim>& dof_handler,
 		const CheckpointStatus& status) {
 
+	// the constructor replaces iteration 1 by the most recent checkpoint (to read it),
+	// which must not be overwritten
+	const std::string name = (m_isG ? "checkpointG_" : "checkpoint_")
+			+ std::to_string(status.iterationNumber);
+	m_statusFile = m_statusFile.parent_path() / (name + ".stat");
+	m_dataFile = m_dataFile.parent_path() / (name + ".data");
+
 	f.updateGhosted();
 	// write status
 	if (is_MPI_rank_0()) {
-- 
2.43.0


From 2b0c5eac2460068aec150a9d086499c23dd8361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 38/56] fix: a resumed run repeated the collision of the
 iteration of its checkpoint

---
 src/library/natrium/solver/CFDSolver.cpp           | 5 ++++-
 src/library/natrium/solver/CompressibleCFDSolver.h | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 78631c9..bae420a 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -878,7 +878,10 @@ void CFDSolver<dim>::filter() {
 template<size_t dim>
 void CFDSolver<dim>::run() {
 	m_i = m_iterationStart;
-	collide();
+	// checkpoints are written after the collision
+	if (0 == m_iterationStart) {
+		collide();
+	}
 	while (true) {
 		if (stopConditionMet()) {
 			break;
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index e85a5e3..d48ef99 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -1008,11 +1008,11 @@ void compressibleFilter() {
     void run()
     {
         this->m_i = this->m_iterationStart;
-        if(this->m_i<=1) {
+        // checkpoints are written after the collision
+        if(0 == this->m_iterationStart) {
             initializeDistributions();
-
+            collide();
         }
-        collide();
             while (true) {
             if (this->stopConditionMet()) {
                 break;
-- 
2.43.0


From c50cc5b0a0178adb0aa6f3649b5b26a7b449d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 39/56] fix: temperature after a restart: momentum and
 velocities of other points were used instead of the velocity

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index d48ef99..c5065c6 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -82,7 +82,7 @@ public:
                 for (size_t i = 0; i < this->m_stencil->getQ(); i++) {
                     double sum = 0.0;
                     for (size_t a = 0; a < dim; a++) {
-                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i));
+                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it));
                     }
                     temperature += sum * this->m_f.at(i)(*it) / this->getStencil()->getSpeedOfSoundSquare() +
                             m_g.at(i)(*it);
@@ -148,6 +148,9 @@ public:
                     }
 
 
+                    for (size_t a = 0; a < dim; a++) {
+                        vel[a] /= density;
+                    }
                         double temperature = 0.0;
                     for (size_t i = 0; i < this->m_stencil->getQ(); i++) {
                         double sum = 0.0;
-- 
2.43.0


From 2921eaf1d4424da9f27ec7ccaed6f9a14ec92827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 40/56] fix: the compressible solver wrote checkpoints with
 output switched off

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index c5065c6..78fc30b 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -556,7 +556,8 @@ void compressibleFilter() {
         }
         // output: checkpoint
         // no output if checkpoint interval > 10^8
-        if (((iteration % this->m_configuration->getOutputCheckpointInterval() == 0)
+        if ((not this->m_configuration->isSwitchOutputOff())
+            and ((iteration % this->m_configuration->getOutputCheckpointInterval() == 0)
              or is_final)
             and (this->m_configuration->getOutputCheckpointInterval() <= 1e8) and (this->m_iterationStart != this->m_i)) {
 
-- 
2.43.0


From 1cf0326737606b838f7ba21afde31698d8cb2f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 41/56] fix: the compressible solver did not load the
 populations g from the checkpoint

---
 src/library/natrium/solver/Checkpoint.h            | 5 +++++
 src/library/natrium/solver/CompressibleCFDSolver.h | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.h b/src/library/natrium/solver/Checkpoint.h
index 7d2bf23..db98a7f 100755
--- a/src/library/natrium/solver/Checkpoint.h
+++ b/src/library/natrium/solver/Checkpoint.h
@@ -115,6 +115,11 @@ public:
 			AdvectionOperator<dim>& advection, string directory, CheckpointStatus& status);
 	virtual ~Checkpoint();
 
+	/// how much finer the current mesh is than the mesh of the checkpoint that was loaded last
+	static int getNumberOfRefinements() {
+		return m_numberOfRefinements;
+	}
+
 	const boost::filesystem::path& getDataFile() const {
 		return m_dataFile;
 	}
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 78fc30b..d5b6777 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -170,8 +170,11 @@ public:
                 }
             }
 
-           // checkpoint->load(m_g, *(this->m_problemDescription), *(this->m_advectionOperator),
-            //                 checkpoint_status);
+            // on a refined mesh, g remains the estimate above
+            if (Checkpoint<dim>::getNumberOfRefinements() == 0) {
+                checkpoint->load(m_g, *(this->m_problemDescription), *(this->m_advectionOperator),
+                                 checkpoint_status);
+            }
 
         }
         m_g.updateGhosted();
-- 
2.43.0


From f9665bfd0bd37d68ce1addda41402e566e48ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 42/56] fix: deal.II time integrators did nothing, had wrong
 names and reused stages of the previous step

---
 .../natrium/timeintegration/DealIIWrapper.cpp | 61 +++++++++++++++----
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index 6e831fa..9de29d0 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -610,8 +610,7 @@ block_vector natrium::DealIIWrapper<sparse_block_matrix, block_vector>::evaluate
 template<class MATRIX, class VECTOR>
 double natrium::DealIIWrapper<MATRIX, VECTOR>::step(VECTOR& vector,
 		const MATRIX& systemMatrix, VECTOR& systemVector, double t,
-		double dt) { /*
-TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
+		double dt) {
 
 	if ((0.0 != dt) and dt != this->getTimeStepSize()) {
 		this->setTimeStepSize(dt);
@@ -626,15 +625,53 @@ TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
 
 	m_systemMatrix = &systemMatrix;
 	m_systemVector = &systemVector;
+	if (m_dealIIRKEmbedded) {
+		// the last stage of the previous step is not the first stage of this step:
+		// f is changed in between (e.g. by the collision)
+		m_dealIIRKEmbedded->free_memory();
+	}
 	return m_dealIIRKStepper->evolve_one_time_step(
-			dealii::std_cxx11::bind(&DealIIWrapper<MATRIX, VECTOR>::evaluateF,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2),
-			dealii::std_cxx11::bind(
-					&DealIIWrapper<MATRIX, VECTOR>::evaluateIdMinusTauJInverse,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2,
-					dealii::std_cxx11::_3), t, dt, vector);
+			[this](const double time, const VECTOR& f) {
+				return this->evaluateF(time, f);
+			},
+			[this](const double time, const double tau, const VECTOR& f) {
+				return this->evaluateIdMinusTauJInverse(time, tau, f);
+			}, t, dt, vector);
+
+}
 
-					*/}
+/// the enumerations of natrium and deal.II have different entries
+static dealii::TimeStepping::runge_kutta_method getDealIIMethod(
+		const DealIntegratorName rkScheme) {
+	switch (rkScheme) {
+	case FORWARD_EULER:
+		return dealii::TimeStepping::FORWARD_EULER;
+	case RK_THIRD_ORDER:
+		return dealii::TimeStepping::RK_THIRD_ORDER;
+	case RK_CLASSIC_FOURTH_ORDER:
+		return dealii::TimeStepping::RK_CLASSIC_FOURTH_ORDER;
+	case BACKWARD_EULER:
+		return dealii::TimeStepping::BACKWARD_EULER;
+	case IMPLICIT_MIDPOINT:
+		return dealii::TimeStepping::IMPLICIT_MIDPOINT;
+	case CRANK_NICOLSON:
+		return dealii::TimeStepping::CRANK_NICOLSON;
+	case SDIRK_TWO_STAGES:
+		return dealii::TimeStepping::SDIRK_TWO_STAGES;
+	case HEUN_EULER:
+		return dealii::TimeStepping::HEUN_EULER;
+	case BOGACKI_SHAMPINE:
+		return dealii::TimeStepping::BOGACKI_SHAMPINE;
+	case DOPRI:
+		return dealii::TimeStepping::DOPRI;
+	case FEHLBERG:
+		return dealii::TimeStepping::FEHLBERG;
+	case CASH_KARP:
+		return dealii::TimeStepping::CASH_KARP;
+	default:
+		return dealii::TimeStepping::invalid;
+	}
+}
 
 template<class MATRIX, class VECTOR>
 natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
@@ -644,8 +681,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	m_solver = linearSolver;
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
-	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+	dealii::TimeStepping::runge_kutta_method rk = getDealIIMethod(rkScheme);
 	if (rkScheme < 3) {
 		m_dealIIRKStepper = boost::make_shared<
 				dealii::TimeStepping::ExplicitRungeKutta<VECTOR> >(rk);
@@ -669,8 +705,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	m_solver = linearSolver;
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
-	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+	dealii::TimeStepping::runge_kutta_method rk = getDealIIMethod(rkScheme);
 	m_dealIIRKEmbedded = boost::make_shared<
 			dealii::TimeStepping::EmbeddedExplicitRungeKutta<VECTOR> >(rk,
 			coarsen_param, refine_param, min_delta, max_delta, refine_tol,
-- 
2.43.0


From db867a2f2a3ff3bf61be64d5eeefecafa5f26bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 43/56] fix: exponential integrator gave NaN for a state of
 zero and for singular Krylov matrices

---
 .../ExponentialTimeIntegrator.cpp             | 54 ++++++++++---------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
index 85fb499..6e8f744 100644
--- a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
+++ b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
@@ -111,6 +111,10 @@ template<class MATRIX, class VECTOR> double ExponentialTimeIntegrator<MATRIX,
 	m_w += systemVector;		// w = A*f + u
 
 	double beta = m_w.l2_norm();
+	if (beta == 0) {
+		// stationary; there is no Krylov space
+		return t + dt;
+	}
 
 	// the next two lines set m_V(i,0) =  m_w(i) / beta
 	// in a way that takes care about the individual blocks of block vectors
@@ -249,11 +253,12 @@ template<class MATRIX, class VECTOR> numeric_matrix ExponentialTimeIntegrator<
 
 template<class MATRIX, class VECTOR> numeric_matrix ExponentialTimeIntegrator<
 		MATRIX, VECTOR>::padeApproximation(numeric_matrix base) {
-	numeric_matrix exponential(arnoldiSize);  // Builds the identity matrix
-	numeric_matrix factor(arnoldiSize);
-	numeric_matrix aid(arnoldiSize);
-	numeric_matrix N(arnoldiSize);
-	numeric_matrix D(arnoldiSize);
+	const size_t size = base.m();
+	numeric_matrix exponential(size);
+	numeric_matrix factor(size);
+	numeric_matrix aid(size);
+	numeric_matrix N(size);
+	numeric_matrix D(size);
 	size_t m = taylorSteps;
 
 	double s = base.linfty_norm();
@@ -268,7 +273,7 @@ template<class MATRIX, class VECTOR> numeric_matrix ExponentialTimeIntegrator<
 
 	double fact = 1.0;
 
-	factor.copy_from(m_identityMatrix);
+	factor = dealii::IdentityMatrix(size);
 	N = factor;
 	D = factor;
 
@@ -311,25 +316,24 @@ template<class MATRIX, class VECTOR> void ExponentialTimeIntegrator<MATRIX,
 		VECTOR>::phiFunction(const numeric_matrix &Hm, numeric_matrix &phiOne,
 		numeric_matrix &phiTwo) // Builds phiOne and phiTwo
 		{
-	numeric_matrix exponential(arnoldiSize);
-	numeric_matrix inverse(arnoldiSize);
-	phiOne = Hm;
-	phiOne *= this->getTimeStepSize();
-
-	exponential = padeApproximation(phiOne);
-	exponential.add(makeIdentityMatrix(), (-1));
-
-	phiOne.gauss_jordan();
-
-	inverse = phiOne;
-
-	exponential.mmult(phiOne, inverse);
-
-	phiTwo = phiOne;
-	phiTwo.add(makeIdentityMatrix(), (-1));
-
-	exponential = phiTwo;
-	exponential.mmult(phiTwo, inverse);
+	// phi_1 and phi_2 are blocks of the exponential of an extended matrix;
+	// in contrast to their definition this works for singular matrices, too
+	const size_t m = arnoldiSize;
+	numeric_matrix extended(3 * m);
+	for (size_t i = 0; i < m; i++) {
+		for (size_t j = 0; j < m; j++) {
+			extended(i, j) = Hm(i, j) * this->getTimeStepSize();
+		}
+		extended(i, m + i) = 1;
+		extended(m + i, 2 * m + i) = 1;
+	}
+	numeric_matrix exponential = padeApproximation(extended);
+	for (size_t i = 0; i < m; i++) {
+		for (size_t j = 0; j < m; j++) {
+			phiOne(i, j) = exponential(i, m + j);
+			phiTwo(i, j) = exponential(i, 2 * m + j);
+		}
+	}
 
 }
 
-- 
2.43.0


From ae012929cfdc1e5d27c2e4c2a7b4b8daa6415613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 44/56] fix: temporary block vectors of serial block matrices
 had the wrong blocks

---
 src/library/natrium/utilities/SemiParallelMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/SemiParallelMatrix.cpp b/src/library/natrium/utilities/SemiParallelMatrix.cpp
index 7039915..b18d595 100755
--- a/src/library/natrium/utilities/SemiParallelMatrix.cpp
+++ b/src/library/natrium/utilities/SemiParallelMatrix.cpp
@@ -34,7 +34,7 @@ template<>
 void reinitVector<block_vector>(block_vector& dst,
 		const block_vector& src) {
 	if (dst.size() != src.size()) {
-		dst.reinit(src.size(), true);
+		dst.reinit(src, true);
 	}
 }
 
-- 
2.43.0


From bf6adb71af42d36510192462e5310c9275989a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 45/56] fix: the collision used the initial time step although
 embedded integrators changed it

---
 src/library/natrium/solver/CFDSolver.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index bae420a..06a450f 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -820,11 +820,8 @@ void CFDSolver<dim>::collide() {
 		CFDSolverUtilities::getWriteableDensity(writeable_rho, m_density,
 				m_advectionOperator->getLocallyOwnedDofs());
 
-		double delta_t = CFDSolverUtilities::calculateTimestep<dim>(
-					*(m_problemDescription->getMesh()),
-					m_configuration->getSedgOrderOfFiniteElement(), *m_stencil,
-					m_configuration->getCFL());
-
+		// embedded integrators change the time step
+		double delta_t = m_timeIntegrator->getTimeStepSize();
 
 // TODO member function collisionModel
 		selectCollision(*m_configuration, *m_problemDescription, m_f, writeable_rho, writeable_u,
-- 
2.43.0


From 2759b3cde407d7f00eac2c984a8486c9dcb77a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 46/56] fix: 3D filters assigned wrong degrees to the modes in
 y direction

---
 src/library/natrium/smoothing/ExponentialFilter.cpp | 2 +-
 src/library/natrium/smoothing/NewFilter.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/smoothing/ExponentialFilter.cpp b/src/library/natrium/smoothing/ExponentialFilter.cpp
index b22858c..bdecf5d 100755
--- a/src/library/natrium/smoothing/ExponentialFilter.cpp
+++ b/src/library/natrium/smoothing/ExponentialFilter.cpp
@@ -124,7 +124,7 @@ inline void ExponentialFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p + 1) * (p + 1) * (p + 1); i++) {
 		size_t ix = i / ((p + 1) * (p + 1));
 		size_t max = ix;
-		size_t iy = ( i % (p+1) * (p+1) ) / (p + 1);
+		size_t iy = (i % ((p + 1) * (p + 1))) / (p + 1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p + 1);
diff --git a/src/library/natrium/smoothing/NewFilter.cpp b/src/library/natrium/smoothing/NewFilter.cpp
index 848c5db..1fa6418 100755
--- a/src/library/natrium/smoothing/NewFilter.cpp
+++ b/src/library/natrium/smoothing/NewFilter.cpp
@@ -124,7 +124,7 @@ inline void NewFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p+1)*(p+1)*(p+1); i++) {
 		size_t ix = i / ((p+1) * (p+1));
 		size_t max = ix;
-		size_t iy = i / (p+1);
+		size_t iy = (i % ((p+1) * (p+1))) / (p+1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p+1);
-- 
2.43.0


From 4be86cd6a92151973f944c15d874bcf8c3b43528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 47/56] fix: the limiter did nothing

---
 .../natrium/smoothing/VmultLimiter.cpp        | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/library/natrium/smoothing/VmultLimiter.cpp b/src/library/natrium/smoothing/VmultLimiter.cpp
index fa0d1ad..c7d63bd 100644
--- a/src/library/natrium/smoothing/VmultLimiter.cpp
+++ b/src/library/natrium/smoothing/VmultLimiter.cpp
@@ -12,7 +12,7 @@ namespace natrium {
 
 void VmultLimiter::apply(const dealii::TrilinosWrappers::BlockSparseMatrix& matrix,
 		dealii::TrilinosWrappers::MPI::BlockVector& target,
-		const dealii::TrilinosWrappers::MPI::BlockVector& source){ /*
+		const dealii::TrilinosWrappers::MPI::BlockVector& source){
 	// iterate over all blocks
 	for (size_t i = 0; i < matrix.n_block_rows(); i++){
 		dealii::TrilinosWrappers::MPI::Vector & t = target.block(i);
@@ -21,13 +21,12 @@ void VmultLimiter::apply(const dealii::TrilinosWrappers::BlockSparseMatrix& matr
 			apply(matrix.block(i,j), t,s);
 		}
 	}
-*/
 }
 
 
 void VmultLimiter::apply(const dealii::TrilinosWrappers::SparseMatrix& matrix,
 		dealii::TrilinosWrappers::MPI::Vector& target,
-		const dealii::TrilinosWrappers::MPI::Vector& source){ /*
+		const dealii::TrilinosWrappers::MPI::Vector& source){
 	// Trilinos matrix format, iteration copied from dealii::TrilinosWrappers::SparseMatrix::print()
 	const Epetra_CrsMatrix& M = matrix.trilinos_matrix();
 	double *values;
@@ -53,7 +52,7 @@ void VmultLimiter::apply(const dealii::TrilinosWrappers::SparseMatrix& matrix,
 		glob_i = M.GRID(i);
 		// extract value
 		target_i = target(glob_i);
-		max = std::numeric_limits<double>::min();
+		max = std::numeric_limits<double>::lowest();
 		min = std::numeric_limits<double>::max();
 		for (dealii::TrilinosWrappers::types::int_type j = 0; j < num_entries; ++j){
 			//global column index
@@ -63,17 +62,21 @@ void VmultLimiter::apply(const dealii::TrilinosWrappers::SparseMatrix& matrix,
 			//	goto theveryend;
 
 			if (fabs(values[j]) > 1e-12){
-				if (non_local_source.el(glob_j) > max){
-					max = non_local_source.el(glob_j);
+				if (non_local_source(glob_j) > max){
+					max = non_local_source(glob_j);
 				}
-				if (non_local_source.el(glob_j) < min){
-					min = non_local_source.el(glob_j);
+				if (non_local_source(glob_j) < min){
+					min = non_local_source(glob_j);
 				}
 				if ((target_i <= max) and (target_i >= min)){
 					break;
 				}
 			}
 		}
+		// rows without sources
+		if (min > max){
+			continue;
+		}
 		// limiter
 		if (target_i > max){
 			target(glob_i) = max;
@@ -81,7 +84,7 @@ void VmultLimiter::apply(const dealii::TrilinosWrappers::SparseMatrix& matrix,
 			target(glob_i) = min;
 		}
 	}
-*/
+	target.compress(dealii::VectorOperation::insert);
 }
 
 
-- 
2.43.0


From 712a05da195000704b339662419d6e5d6d6aff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 48/56] fix: implicit integrators with several processes:
 deadlock and wrong diagonal

---
 .../natrium/timeintegration/DealIIWrapper.cpp |  6 ++++--
 .../natrium/timeintegration/ThetaMethod.cpp   | 19 ++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index 9de29d0..aa86a7c 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -432,8 +432,10 @@ distributed_block_vector natrium::DealIIWrapper<distributed_sparse_block_matrix,
 	distributed_block_vector result = f;
 
 	// check equality of sparsity patterns
-	if (m_tmpMatrix.memory_consumption()
-			!= m_systemMatrix->memory_consumption()) {
+	// (globally: all processes have to come to the same result)
+	if (m_tmpMatrix.m() != m_systemMatrix->m()
+			or m_tmpMatrix.n_nonzero_elements()
+					!= m_systemMatrix->n_nonzero_elements()) {
 		size_t n_blocks = m_systemMatrix->n_block_rows();
 		assert(
 				m_systemMatrix->n_block_cols()
diff --git a/src/library/natrium/timeintegration/ThetaMethod.cpp b/src/library/natrium/timeintegration/ThetaMethod.cpp
index 21b0eef..0f4a7de 100644
--- a/src/library/natrium/timeintegration/ThetaMethod.cpp
+++ b/src/library/natrium/timeintegration/ThetaMethod.cpp
@@ -76,9 +76,10 @@ template<> double ThetaMethod<distributed_sparse_matrix, distributed_vector>::st
 	if (m_tmpSystemVector.size() != f.size()) {
 		m_tmpSystemVector.reinit(f);
 	}
-	// check equality of sparsity patterns
-	// check equality of sparsity patterns
-	if (m_tmpMatrix.memory_consumption() != systemMatrix.memory_consumption()) {
+	// check equality of sparsity patterns (globally: all processes have to come to the same result)
+	if (m_tmpMatrix.m() != systemMatrix.m()
+			or m_tmpMatrix.n_nonzero_elements()
+					!= systemMatrix.n_nonzero_elements()) {
 		m_tmpMatrix.copy_from(systemMatrix);
 	}
 
@@ -94,7 +95,8 @@ template<> double ThetaMethod<distributed_sparse_matrix, distributed_vector>::st
 	}
 	// I-theta*dt*A
 	m_tmpMatrix *= (-m_theta);
-	for (size_t i = 0; i < m_tmpMatrix.n(); i++) {
+	for (size_t i = m_tmpMatrix.local_range().first;
+			i < m_tmpMatrix.local_range().second; i++) {
 		m_tmpMatrix.add(i, i, 1.0);
 	}
 	// (I-theta*dt*A)f(t) + dt*A*f(t) + dt*b
@@ -192,8 +194,10 @@ template<> double ThetaMethod<distributed_sparse_block_matrix,
 	if (m_tmpSystemVector.size() != f.size()) {
 		m_tmpSystemVector.reinit(f);
 	}
-	// check equality of sparsity patterns
-	if (m_tmpMatrix.memory_consumption() != systemMatrix.memory_consumption()) {
+	// check equality of sparsity patterns (globally: all processes have to come to the same result)
+	if (m_tmpMatrix.m() != systemMatrix.m()
+			or m_tmpMatrix.n_nonzero_elements()
+					!= systemMatrix.n_nonzero_elements()) {
 		size_t n_blocks = systemMatrix.n_block_rows();
 		assert(systemMatrix.n_block_cols() == systemMatrix.n_block_rows());
 		m_tmpMatrix.reinit(n_blocks, n_blocks);
@@ -224,7 +228,8 @@ template<> double ThetaMethod<distributed_sparse_block_matrix,
 	// I-theta*dt*A
 	m_tmpMatrix *= (-m_theta);
 	for (size_t I = 0; I < m_tmpMatrix.n_block_cols(); I++) {
-		for (size_t i = 0; i < m_tmpMatrix.block(I, I).n(); i++) {
+		for (size_t i = m_tmpMatrix.block(I, I).local_range().first;
+				i < m_tmpMatrix.block(I, I).local_range().second; i++) {
 			m_tmpMatrix.block(I, I).add(i, i, 1.0);
 		}
 	}
-- 
2.43.0


From d69fbab3ffbdc9c3a5f60c67c8cdd8caf76bdb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 49/56] fix: collisions failed on processes without points

---
 src/library/natrium/collision_advanced/CollisionOperator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionOperator.h b/src/library/natrium/collision_advanced/CollisionOperator.h
index 09a6801..d773203 100644
--- a/src/library/natrium/collision_advanced/CollisionOperator.h
+++ b/src/library/natrium/collision_advanced/CollisionOperator.h
@@ -103,7 +103,7 @@ public:
 
 		}
 
-        if (1e-10 >= genData.density) {
+        if (length > 0 and 1e-10 >= genData.density) {
             throw DensityZeroException(
                     "Density too small in collision. Decrease time step size.");
         }
@@ -215,7 +215,7 @@ public:
 
 		}
 
-        if (1e-10 >= genData.density) {
+        if (length > 0 and 1e-10 >= genData.density) {
             throw DensityZeroException(
                     "Density too small in collision. Decrease time step size.");
         }
-- 
2.43.0


From be7cefbdc12e21e888f850f9d4b66542791804b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 50/56] fix: the density deviation ignored points of other
 processes

---
 src/library/natrium/solver/CFDSolver.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.h b/src/library/natrium/solver/CFDSolver.h
index f2d7e84..1cee845 100644
--- a/src/library/natrium/solver/CFDSolver.h
+++ b/src/library/natrium/solver/CFDSolver.h
@@ -293,13 +293,14 @@ public:
 
 	double getMaxDensityDeviationFrom(double referenceDensity) const {
 		double maxdev = 0.0;
-		for (size_t i = 0; i < getNumberOfDoFs(); i++) {
-			double dev = fabs(m_density(i) - referenceDensity);
+		const dealii::IndexSet& owned = m_advectionOperator->getLocallyOwnedDofs();
+		for (auto it = owned.begin(); it != owned.end(); ++it) {
+			double dev = fabs(m_density(*it) - referenceDensity);
 			if (dev > maxdev) {
 				maxdev = dev;
 			}
 		}
-		return maxdev;
+		return dealii::Utilities::MPI::max(maxdev, MPI_COMM_WORLD);
 	}
 
 	size_t getIterationStart() const {
-- 
2.43.0


From 23daf646d1276a08e52e15f6cb36b5fe17c9117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:37 +0000
Subject: [PATCH 51/56] fix: consistent non-equilibrium populations in the
 initialization with gradients

The non-equilibrium part lacked the time step and the viscosity of other collision models than BGK,
and was added once per adjacent cell at grid points that several cells share.
---
 src/library/natrium/solver/CFDSolver.cpp | 33 +++++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 06a450f..8e2a0ef 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1148,13 +1148,22 @@ void CFDSolver<dim>::initializeDistributions() {
                                                  | dealii::update_JxW_values;
         const dealii::DoFHandler<dim> & dof_handler =
                 *(getAdvectionOperator()->getDoFHandler());
+        // evaluate the gradients at the grid points
+        const dealii::Quadrature<dim> grid_points(
+                getAdvectionOperator()->getFe()->get_unit_support_points());
         dealii::FEValues<dim> fe_values(this->getAdvectionOperator()->getMapping(),
-                *(this->getAdvectionOperator()->getFe()),
-                *(this->getAdvectionOperator()->getQuadrature()),
+                *(this->getAdvectionOperator()->getFe()), grid_points,
                 update_flags);
         size_t dofs_per_cell =
                 getAdvectionOperator()->getFe()->dofs_per_cell;
-        size_t n_q_points = getAdvectionOperator()->getQuadrature()->size();
+        size_t n_q_points = grid_points.size();
+
+        // grid points that are shared by several cells get the average over these cells
+        std::vector<distributed_vector> f_neq(m_stencil->getQ());
+        for (size_t i = 0; i < m_stencil->getQ(); i++) {
+            f_neq.at(i).reinit(locally_owned_dofs, MPI_COMM_WORLD);
+        }
+        distributed_vector n_cells(locally_owned_dofs, MPI_COMM_WORLD);
 
         std::vector<double> uxs;
         std::vector<double> uys;
@@ -1218,12 +1227,14 @@ void CFDSolver<dim>::initializeDistributions() {
                 fe_values.get_function_values(rho_local, rhos);
 
                 for (size_t q = 0; q < n_q_points; q++) {
-                    double dx = 1.0; //cell->minimum_vertex_distance()/ m_configuration->getSedgOrderOfFiniteElement();
-                    double tau = getTau() + 0.5;
+                    // relaxation time (in units of time) of the transformed distributions
+                    double tau = m_problemDescription->getViscosity()
+                            / m_stencil->getSpeedOfSoundSquare()
+                            + 0.5 * m_timeIntegrator->getTimeStepSize();
                     double Pi_1[dim][dim] = {{0.0}};
                     for (int a = 0; a < dim; a++) {
                         for (int b = 0; b < dim; b++) {
-                            Pi_1[a][b] = -1.0 * tau * rhos.at(q) / m_stencil->getSpeedOfSoundSquare() * dx;
+                            Pi_1[a][b] = -1.0 * tau * rhos.at(q) / m_stencil->getSpeedOfSoundSquare();
                         }
                     }
 
@@ -1258,12 +1269,20 @@ void CFDSolver<dim>::initializeDistributions() {
                             }
                         }
                         fneq.at(i)*=m_stencil->getWeight(i);
-                        m_f.at(i)(local_indices[q])+=fneq.at(i);
+                        f_neq.at(i)(local_indices[q])+=fneq.at(i);
                     }
+                    n_cells(local_indices[q]) += 1.0;
 
                 }
             }
         }
+        n_cells.compress(dealii::VectorOperation::add);
+        for (size_t i = 0; i < m_stencil->getQ(); i++) {
+            f_neq.at(i).compress(dealii::VectorOperation::add);
+            for (it = locally_owned_dofs.begin(); it != end; it++) {
+                m_f.at(i)(*it) = m_f.at(i)(*it) + f_neq.at(i)(*it) / n_cells(*it);
+            }
+        }
 
         break;
     }
-- 
2.43.0


From e8e36bd229a23708d6579ba37065b65c0f6fdf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:37 +0000
Subject: [PATCH 52/56] fix: iterative initialization stops after the
 configured number of iterations

---
 src/library/natrium/solver/CFDSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 8e2a0ef..f05250a 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1301,7 +1301,7 @@ void CFDSolver<dim>::initializeDistributions() {
 		distributed_vector oldDensities;
 		while (residual > m_configuration->getIterativeInitializationResidual()) {
 			if (loopCount
-					> m_configuration->getIterativeInitializationNumberOfIterations()) {
+					>= m_configuration->getIterativeInitializationNumberOfIterations()) {
 				LOG(WARNING)
 						<< "The iterative Initialization of equilibrium distribution functions could only reach residual "
 						<< residual << " after " << loopCount
-- 
2.43.0


From b384d63187851b5cc8e2ddacdf7df5af4d2726f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 53/56] fix: compressible iterative initialization streams the
 energy populations, too

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index d5b6777..2c6ca00 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -950,6 +950,7 @@ void compressibleFilter() {
                                                             locally_owned_dofs);
                     try {
                         this->stream();
+                        gStream();
                     } catch (std::exception& e) {
                         natrium_errorexit(e.what());
                     }
-- 
2.43.0


From e1ebd80ea1ff4ec3d21a06ec7ba525446192035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 54/56] fix: the benchmark solver writes the final output

---
 src/library/natrium/solver/BenchmarkCFDSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/BenchmarkCFDSolver.cpp b/src/library/natrium/solver/BenchmarkCFDSolver.cpp
index b4a5c97..dcb0348 100644
--- a/src/library/natrium/solver/BenchmarkCFDSolver.cpp
+++ b/src/library/natrium/solver/BenchmarkCFDSolver.cpp
@@ -43,8 +43,8 @@ template<size_t dim> BenchmarkCFDSolver<dim>::BenchmarkCFDSolver(
 } /*BenchmarkCFDSolver constructor */
 
 template<size_t dim>
-void BenchmarkCFDSolver<dim>::output(size_t iteration, bool ) {
-	CFDSolver<dim>::output(iteration);
+void BenchmarkCFDSolver<dim>::output(size_t iteration, bool is_final) {
+	CFDSolver<dim>::output(iteration, is_final);
 	// output error table
 	if (not this->getConfiguration()->isSwitchOutputOff()) {
 		if (this->getIteration()
-- 
2.43.0


From c792bd3b709cac8e1fe45c146879c1b83b49158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 55/56] fix: a run does not count as converged before residuals
 were calculated

---
 src/library/natrium/solver/CFDSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index f05250a..e8ed27c 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -931,7 +931,9 @@ bool CFDSolver<dim>::stopConditionMet() {
 			m_configuration->getConvergenceThreshold();
 	if (m_i % check_interval == 0) {
 		m_solverStats->calculateResiduals(m_i);
-		if ((m_residuumVelocity < convergence_threshold)
+		// the first residuals are known after one interval
+		if ((m_i - m_iterationStart >= check_interval)
+				and (m_residuumVelocity < convergence_threshold)
 		/*and (m_residuumDensity < convergence_threshold)*/) {
 			LOG(BASIC)
 					<< "Stop condition: Simulation converged below threshold "
-- 
2.43.0


From e043f10d60583e0c3168779faa1d8d323139bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:42 +0000
Subject: [PATCH 56/56] fix: compressible benchmarks write their table of
 errors

---
 .../natrium/solver/BenchmarkCompressibleCFDSolver.cpp      | 7 +++----
 .../natrium/solver/BenchmarkCompressibleCFDSolver.h        | 2 +-
 src/library/natrium/solver/CompressibleCFDSolver.h         | 2 +-
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
index e989a13..7aa7016 100644
--- a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
+++ b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
@@ -40,8 +40,8 @@ namespace natrium {
     } /*BenchmarkCFDSolver constructor */
 
     template<size_t dim>
-    void BenchmarkCompressibleCFDSolver<dim>::output(size_t iteration, bool ) {
-        CompressibleCFDSolver<dim>::output(iteration);
+    void BenchmarkCompressibleCFDSolver<dim>::compressibleOutput(size_t iteration, bool is_final) {
+        CompressibleCFDSolver<dim>::compressibleOutput(iteration, is_final);
         // output error table
         if (not this->getConfiguration()->isSwitchOutputOff()) {
             if (this->getIteration()
@@ -49,7 +49,7 @@ namespace natrium {
                 m_compressibleErrorStats->printNewLine();
             }
         }
-    } /*output*/
+    } /*compressibleOutput*/
 
     template<size_t dim>
     void BenchmarkCompressibleCFDSolver<dim>::getAllAnalyticDensities(double time,
@@ -59,7 +59,6 @@ namespace natrium {
         // get Function instance
         const boost::shared_ptr<dealii::Function<dim> > f_rho =
                 m_benchmark->getAnalyticRhoFunction(time);
-        cout << time << endl;
         const unsigned int dofs_per_cell = adv_op->getFe()->dofs_per_cell;
         vector<dealii::types::global_dof_index> local_dof_indices(dofs_per_cell);
         typename dealii::DoFHandler<dim>::active_cell_iterator cell =
diff --git a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h
index cd90e3f..299d037 100644
--- a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h
+++ b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h
@@ -40,7 +40,7 @@ namespace natrium {
         /**
          * @short create output data and write to file
          */
-        virtual void output(size_t iteration, bool is_final = false);
+        virtual void compressibleOutput(size_t iteration, bool is_final);
 
 /// gives the possibility for Benchmark instances to add the analytic solution to output
         virtual void addAnalyticSolutionToOutput(dealii::DataOut<dim>& data_out) {
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 2c6ca00..ef32c75 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -421,7 +421,7 @@ void compressibleFilter() {
 		member = writeable;
 	}
 
-	void compressibleOutput(size_t iteration, bool is_final) {
+	virtual void compressibleOutput(size_t iteration, bool is_final) {
 
 
 // start timer
-- 
2.43.0

