From 444ad8f3b95b670e1844f2898749386c3c68ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 01/12] fix: restore penalty forces when resuming a 2D ball
 simulation

---
 ball2d/Ball2DState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DState.cpp b/ball2d/Ball2DState.cpp
index 5af2610..4b3641f 100644
--- a/ball2d/Ball2DState.cpp
+++ b/ball2d/Ball2DState.cpp
@@ -9,6 +9,7 @@
 #include "scisim/Utilities.h"
 #include "scisim/StringUtilities.h"
 #include "Forces/Ball2DGravityForce.h"
+#include "Forces/PenaltyForce.h"
 
 #include "StaticGeometry/StaticDrum.h"
 #include "StaticGeometry/StaticPlane.h"
@@ -303,6 +304,10 @@ void Ball2DState::deserialize( std::istream& input_stream )
       {
         m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new Ball2DGravityForce{ input_stream } };
       }
+      else if( "hertzian_penalty" == force_name )
+      {
+        m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new PenaltyForce{ input_stream } };
+      }
       else
       {
         std::cerr << "Unknown force in deserialize." << std::endl;
-- 
2.43.0


From 4ff1f479d7e1b254abf5b6ec74d85935e9ebf6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 02/12] fix: restore symplectic Euler and absent integrators
 when resuming a 2D ball simulation

---
 ball2d/Ball2DUtilities.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ball2d/Ball2DUtilities.cpp b/ball2d/Ball2DUtilities.cpp
index 05b78c2..d9ca494 100644
--- a/ball2d/Ball2DUtilities.cpp
+++ b/ball2d/Ball2DUtilities.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include "scisim/StringUtilities.h"
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
+#include "ball2d/SymplecticEulerMap.h"
 #include "ball2d/VerletMap.h"
 
 #include <iostream>
@@ -34,10 +35,18 @@ std::unique_ptr<UnconstrainedMap> Ball2DUtilities::deserializeUnconstrainedMap(
   std::unique_ptr<UnconstrainedMap> unconstrained_map{ nullptr };
 
   const std::string integrator_name{ StringUtilities::deserialize( input_stream ) };
-  if( "verlet" == integrator_name )
+  if( "symplectic_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new SymplecticEulerMap{ input_stream } );
+  }
+  else if( "verlet" == integrator_name )
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
+  else if( "NULL" == integrator_name )
+  {
+    unconstrained_map.reset( nullptr );
+  }
   else
   {
     std::cerr << "Deserialization not supported for: " << integrator_name << std::endl;
-- 
2.43.0


From 3e8eec14a38d672c95fa7cc66c791096e7a0df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 03/12] fix: restore an absent integrator when resuming a 2D
 rigid body simulation

---
 rigidbody2d/RigidBody2DUtilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigidbody2d/RigidBody2DUtilities.cpp b/rigidbody2d/RigidBody2DUtilities.cpp
index 625255f..24bb230 100644
--- a/rigidbody2d/RigidBody2DUtilities.cpp
+++ b/rigidbody2d/RigidBody2DUtilities.cpp
@@ -44,6 +44,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody2DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
+  else if( "NULL" == integrator_name )
+  {
+    unconstrained_map.reset( nullptr );
+  }
   else
   {
     std::cerr << "Deserialization not supported for: " << integrator_name << std::endl;
-- 
2.43.0


From 7ddcc64880e8225fa001d948c49f6db4163c51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 04/12] fix: restore the exponential Euler integrator when
 resuming a 3D rigid body simulation

---
 rigidbody3d/RigidBody3DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigidbody3d/RigidBody3DUtilities.cpp b/rigidbody3d/RigidBody3DUtilities.cpp
index b384d0e..13fbe36 100644
--- a/rigidbody3d/RigidBody3DUtilities.cpp
+++ b/rigidbody3d/RigidBody3DUtilities.cpp
@@ -10,6 +10,7 @@
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
 
 #include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
+#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
 #include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
 
 #include <iostream>
@@ -45,6 +46,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody3DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new SplitHamMap );
   }
+  else if( "exponential_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new ExponentialEulerMap );
+  }
   else if( "NULL" == integrator_name )
   {
     unconstrained_map.reset( nullptr );
-- 
2.43.0


From e2c596dc10a569e5e292a6f9a384407cadba92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 05/12] fix: restore the GRR friction solver when resuming a
 simulation

---
 scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
index 74647d3..e9173f2 100644
--- a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
+++ b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
@@ -18,6 +18,7 @@
 #include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
 #include "scisim/ConstrainedMaps/StaggeredProjections.h"
 #include "scisim/ConstrainedMaps/Sobogus.h"
+#include "scisim/ConstrainedMaps/GRRFriction.h"
 #include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
 
 #ifdef IPOPT_FOUND
@@ -218,6 +219,10 @@ std::unique_ptr<FrictionSolver> ConstrainedMapUtilities::deserializeFrictionSolv
   {
     friction_solver.reset( new Sobogus{ input_stream } );
   }
+  else if( "grr_friction" == friction_solver_name )
+  {
+    friction_solver.reset( new GRRFriction{ input_stream } );
+  }
   else if( "NULL" == friction_solver_name )
   {
     friction_solver.reset( nullptr );
-- 
2.43.0


From 6445616014c65641eedad0040b19c399a26d0cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:00 +0000
Subject: [PATCH 06/12] fix: evaluate 3D rigid body forces at the requested
 configuration

---
 rigidbody3d/RigidBody3DSim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody3d/RigidBody3DSim.cpp b/rigidbody3d/RigidBody3DSim.cpp
index 946e86a..b2fa54f 100644
--- a/rigidbody3d/RigidBody3DSim.cpp
+++ b/rigidbody3d/RigidBody3DSim.cpp
@@ -176,7 +176,7 @@ void RigidBody3DSim::computeForce( const VectorXs& q, const VectorXs& v, const s
 
   for( std::vector<std::unique_ptr<Force>>::size_type frc_idx = 0; frc_idx < m_sim_state.forces().size(); ++frc_idx )
   {
-    m_sim_state.forces()[frc_idx]->computeForce( m_sim_state.q(), m_sim_state.v(), m_sim_state.M(), F );
+    m_sim_state.forces()[frc_idx]->computeForce( q, v, m_sim_state.M(), F );
   }
 }
 
-- 
2.43.0


From 7e6bcb8e4f1378bbdd912e2a2859b512f5d8c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:06 +0000
Subject: [PATCH 07/12] fix: bounding box of a staple encloses the wire's
 thickness

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index fab5f7e..dcdebaf 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -108,6 +108,9 @@ void RigidBodyStaple::computeAABB( const Vector3s& cm, const Matrix33sr& R, Arra
     min = min.min( transformed_vertex );
     max = max.max( transformed_vertex );
   }
+  // Account for the thickness of the staple
+  min -= m_r;
+  max += m_r;
   assert( ( min < max ).all() );
 }
 
-- 
2.43.0


From 02023aa0de322d0f0541c4429bc8d521e3bca477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:06 +0000
Subject: [PATCH 08/12] fix: inertia of a staple's cylinders uses squared
 lengths

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index dcdebaf..1a2338f 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -39,21 +39,21 @@ void RigidBodyStaple::computeMassAndInertia( const scalar& density, scalar& M, V
     I.x() += 2.0 * My * ( CMy.y() * CMy.y() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
     I.x() += Mx * ( m_r * m_r ) / 2.0;
-    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
 
     // Contributions from translating the cylinders
     I.y() = Mx * ( CMx.x() * CMx.x() + CMx.z() * CMx.z() );
     I.y() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
-    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
+    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
     I.y() += My * ( m_r * m_r );
 
     // Contributions from translating the cylinders
     I.z() = Mx * ( CMx.x() * CMx.x() + CMx.y() * CMx.y() );
     I.z() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.y() * CMy.y() );
     // Contributions from cylinders' centers of mass
-    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
-    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
+    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
   }
 
   R.setIdentity();
-- 
2.43.0


From 4401e73d8c18f5bf0150ed8cdea097d6fa9d2c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:40 +0000
Subject: [PATCH 09/12] fix: refuse 2D ball scenes whose values cannot be read

The loaders of balls, static drums and gravity ignored whether the text of an attribute could be parsed and simulated indeterminate values.
---
 ball2dutils/Ball2DSceneParser.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 52dfa8c..bf8cdf0 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -247,40 +247,40 @@ static bool loadBalls( const rapidxml::xml_node<>& node, std::vector<Ball2D>& ba
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the ball's velocity
     Vector2s v;
 
     const rapidxml::xml_attribute<>* const vx_attrib{ nd->first_attribute( "vx" ) };
     if( !vx_attrib ) { return false; }
-    StringUtilities::extractFromString( vx_attrib->value(), v.x() );
+    if( !StringUtilities::extractFromString( vx_attrib->value(), v.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const vy_attrib{ nd->first_attribute( "vy" ) };
     if( !vy_attrib ) { return false; }
-    StringUtilities::extractFromString( vy_attrib->value(), v.y() );
+    if( !StringUtilities::extractFromString( vy_attrib->value(), v.y() ) ) { return false; }
 
     // Attempt to parse the ball's mass
     scalar m;
     const rapidxml::xml_attribute<>* const m_attrib{ nd->first_attribute( "m" ) };
     if( !m_attrib ) { return false; }
-    StringUtilities::extractFromString( m_attrib->value(), m );
+    if( !StringUtilities::extractFromString( m_attrib->value(), m ) ) { return false; }
 
     // Attempt to parse the ball's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) ) { return false; }
 
     // Attempt to parse whether the ball is fixed
     bool fixed;
     const rapidxml::xml_attribute<>* const fixed_attrib{ nd->first_attribute( "fixed" ) };
     if( !fixed_attrib ) { return false; }
-    StringUtilities::extractFromString( fixed_attrib->value(), fixed );
+    if( !StringUtilities::extractFromString( fixed_attrib->value(), fixed ) ) { return false; }
 
     balls.emplace_back( x, v, m, r, fixed );
   }
@@ -297,17 +297,17 @@ static bool loadStaticDrums( const rapidxml::xml_node<>& node, std::vector<Stati
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the drums's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) ) { return false; }
 
     drums.emplace_back( x, r );
   }
@@ -1431,11 +1431,11 @@ static bool loadGravityForce( const rapidxml::xml_node<>& node, std::vector<std:
 
     const rapidxml::xml_attribute<>* x_attrib{ nd->first_attribute( "fx" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), f.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), f.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* y_attrib{ nd->first_attribute( "fy" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), f.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), f.y() ) ) { return false; }
 
     forces.emplace_back( new Ball2DGravityForce{ f } );
   }
-- 
2.43.0


From 3c4b73badb0fea47a555b7ac820dd9228100d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 10/12] fix: refuse renderers of planes and cylinders one past
 the last

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 2b013f9..a777996 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -814,7 +814,7 @@ static bool loadStaticPlaneRenderers( const rapidxml::xml_node<>& node, const st
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > planes.size() )
+      if( idx >= planes.size() )
       {
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Invalid plane index specified." << std::endl;
         return false;
@@ -864,7 +864,7 @@ static bool loadStaticCylinderRenderers( const rapidxml::xml_node<>& node, const
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > cylinders.size() )
+      if( idx >= cylinders.size() )
       {
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Invalid cylinder index specified." << std::endl;
         return false;
-- 
2.43.0


From 586cfa9c13f5c728a902ad6a5f4af687d4d4e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 11/12] fix: refuse impact operators with a restitution outside
 0 to 1

---
 ball2dutils/Ball2DSceneParser.cpp           | 5 +++++
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 5 +++++
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index bf8cdf0..72ac56e 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -909,6 +909,11 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
       std::cerr << "Could not load CoR value" << std::endl;
       return false;
     }
+    if( CoR < 0.0 || CoR > 1.0 )
+    {
+      std::cerr << "Could not load CoR value, value of CoR must lie between 0 and 1" << std::endl;
+      return false;
+    }
   }
 
   // Attempt to load the impulse cache option
diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index 0082c68..cff65c2 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -804,6 +804,11 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
       std::cerr << "Could not load CoR value" << std::endl;
       return false;
     }
+    if( CoR < 0.0 || CoR > 1.0 )
+    {
+      std::cerr << "Could not load CoR value, value of CoR must lie between 0 and 1" << std::endl;
+      return false;
+    }
   }
 
   // Attempt to load the impulse cache option
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index a777996..7f188ce 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -1452,6 +1452,11 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
     std::cerr << "Could not load CoR value" << std::endl;
     return false;
   }
+  if( CoR < 0.0 || CoR > 1.0 )
+  {
+    std::cerr << "Could not load CoR value, value of CoR must lie between 0 and 1" << std::endl;
+    return false;
+  }
 
   return loadImpactOperatorNoCoR( node, impact_operator );
 }
-- 
2.43.0


From 64ef88f09da48d109b4ac76741961bcb01e78b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 12/12] fix: refuse bodies whose density is not positive

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 7f188ce..d26cda5 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -373,9 +373,9 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
         return false;
       }
       const bool parsed{ StringUtilities::extractFromString( attrib->value(), rho ) };
-      if( !parsed )
+      if( !parsed || rho <= 0.0 )
       {
-        std::cerr << "Failed to load rho" << std::endl;
+        std::cerr << "Failed to load rho, must provide a single positive scalar" << std::endl;
         return false;
       }
     }
-- 
2.43.0

