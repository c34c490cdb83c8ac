From 21ab9417f981d5d6b9ddf18e75d46e257a0fd475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 01/22] fix: tokenize() called back() on an empty string

---
 scisim/StringUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/StringUtilities.cpp b/scisim/StringUtilities.cpp
index 437e79a..e759afd 100644
--- a/scisim/StringUtilities.cpp
+++ b/scisim/StringUtilities.cpp
@@ -136,7 +136,7 @@ void StringUtilities::tokenize( const std::string& str, const char chr, std::vec
     tokens.emplace_back( str.substr( substring_start ) );
   }
   // Case of final character the delimiter
-  if( str.back() == chr )
+  if( !str.empty() && str.back() == chr )
   {
     tokens.emplace_back( "" );
   }
-- 
2.43.0


From 3cfa0113ba5ca2bd8f6877bc70dbccd69a8c8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 02/22] fix: white space tests passed negative characters to
 std::isspace

---
 scisim/StringUtilities.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scisim/StringUtilities.cpp b/scisim/StringUtilities.cpp
index e759afd..8c654a8 100644
--- a/scisim/StringUtilities.cpp
+++ b/scisim/StringUtilities.cpp
@@ -85,14 +85,14 @@ std::string::size_type StringUtilities::computeNumCharactersToRight( const std::
 std::string StringUtilities::trimFront( const std::string& input_string )
 {
   std::string output_string = input_string;
-  output_string.erase( output_string.begin(), std::find_if( output_string.begin(), output_string.end(), []( const char x ){ return !std::isspace( x ); } ) );
+  output_string.erase( output_string.begin(), std::find_if( output_string.begin(), output_string.end(), []( const char x ){ return !std::isspace( static_cast<unsigned char>( x ) ); } ) );
   return output_string;
 }
 
 std::string StringUtilities::trimBack( const std::string& input_string )
 {
   std::string output_string = input_string;
-  output_string.erase( std::find_if( output_string.rbegin(), output_string.rend(), []( const char x ){ return !std::isspace( x ); } ).base(), output_string.end() );
+  output_string.erase( std::find_if( output_string.rbegin(), output_string.rend(), []( const char x ){ return !std::isspace( static_cast<unsigned char>( x ) ); } ).base(), output_string.end() );
   return output_string;
 }
 
@@ -104,7 +104,7 @@ std::string StringUtilities::trim( const std::string& input_string )
 std::string StringUtilities::removeWhiteSpace( const std::string& input_string )
 {
   std::string output_string = input_string;
-  output_string.erase( std::remove_if( output_string.begin(), output_string.end(), []( const char x ){ return std::isspace( x ); } ), output_string.end() );
+  output_string.erase( std::remove_if( output_string.begin(), output_string.end(), []( const char x ){ return std::isspace( static_cast<unsigned char>( x ) ); } ), output_string.end() );
   return output_string;
 }
 
-- 
2.43.0


From 2ed20211be946dd68659bf4d5269bf1752fa0698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:39 +0000
Subject: [PATCH 03/22] fix: parsing a negative decimal with zero integer part
 into a Rational lost the sign

---
 scisim/Math/Rational.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index dd4e4d2..5da7b6a 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -236,7 +236,7 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     T denominator = 1;
     for( std::string::size_type i = 0; i < num_digits; ++i ) { denominator *= 10; }
     // Compute the denominator
-    const T numerator{ left_int * denominator + ( left_int < 0 ? -1 : 1 ) * right_int };
+    const T numerator{ left_int * denominator + ( left_substring[0] == '-' ? -1 : 1 ) * right_int };
     output.set( numerator, denominator );
   }
   else
-- 
2.43.0


From c52480fe64518812497bd7f588550067088654d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:39 +0000
Subject: [PATCH 04/22] fix: parsing a Rational accepted strings with two
 slashes or two periods

---
 scisim/Math/Rational.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index 5da7b6a..d8029ad 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -207,8 +207,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
   const unsigned period_count{ static_cast<unsigned>( std::count( in_string.cbegin(), in_string.cend(), '.' ) ) };
 
   // Valid input: 1 slash 0 periods, 0 slashes 1 period, 0 slashes 0 periods
-  if( slash_count > 2 ) { return false; }
-  if( period_count > 2 ) { return false; }
+  if( slash_count > 1 ) { return false; }
+  if( period_count > 1 ) { return false; }
   if( slash_count == 1 && period_count != 0 ) { return false; }
   if( period_count == 1 && slash_count != 0 ) { return false; }
 
-- 
2.43.0


From cd539dccc03b012cfa413d91aa9fc6524c724d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:39 +0000
Subject: [PATCH 05/22] fix: parsing a Rational accepted a zero denominator

---
 scisim/Math/Rational.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index d8029ad..7be91ee 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -250,6 +250,7 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     if( !StringUtilities::extractFromString( left_substring, left_int ) ) { return false; }
     T right_int;
     if( !StringUtilities::extractFromString( right_substring, right_int ) ) { return false; }
+    if( right_int == 0 ) { return false; }
     // Left part is the numerator, right part is the denominator
     output.set( left_int, right_int );
   }
-- 
2.43.0


From 00554e7a37cbda4ae424ac42644343e4eba51fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 06/22] fix: a Ball2D checkpoint with a penalty force could not
 be loaded

---
 ball2d/Ball2DState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DState.cpp b/ball2d/Ball2DState.cpp
index 5af2610..4b3641f 100644
--- a/ball2d/Ball2DState.cpp
+++ b/ball2d/Ball2DState.cpp
@@ -9,6 +9,7 @@
 #include "scisim/Utilities.h"
 #include "scisim/StringUtilities.h"
 #include "Forces/Ball2DGravityForce.h"
+#include "Forces/PenaltyForce.h"
 
 #include "StaticGeometry/StaticDrum.h"
 #include "StaticGeometry/StaticPlane.h"
@@ -303,6 +304,10 @@ void Ball2DState::deserialize( std::istream& input_stream )
       {
         m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new Ball2DGravityForce{ input_stream } };
       }
+      else if( "hertzian_penalty" == force_name )
+      {
+        m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new PenaltyForce{ input_stream } };
+      }
       else
       {
         std::cerr << "Unknown force in deserialize." << std::endl;
-- 
2.43.0


From 5a171092c8d4b577f0c3781ef6cea4f367377f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 07/22] fix: a Ball2D checkpoint with a symplectic Euler or no
 integrator could not be loaded

---
 ball2d/Ball2DUtilities.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ball2d/Ball2DUtilities.cpp b/ball2d/Ball2DUtilities.cpp
index 05b78c2..d9ca494 100644
--- a/ball2d/Ball2DUtilities.cpp
+++ b/ball2d/Ball2DUtilities.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include "scisim/StringUtilities.h"
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
+#include "ball2d/SymplecticEulerMap.h"
 #include "ball2d/VerletMap.h"
 
 #include <iostream>
@@ -34,10 +35,18 @@ std::unique_ptr<UnconstrainedMap> Ball2DUtilities::deserializeUnconstrainedMap(
   std::unique_ptr<UnconstrainedMap> unconstrained_map{ nullptr };
 
   const std::string integrator_name{ StringUtilities::deserialize( input_stream ) };
-  if( "verlet" == integrator_name )
+  if( "symplectic_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new SymplecticEulerMap{ input_stream } );
+  }
+  else if( "verlet" == integrator_name )
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
+  else if( "NULL" == integrator_name )
+  {
+    unconstrained_map.reset( nullptr );
+  }
   else
   {
     std::cerr << "Deserialization not supported for: " << integrator_name << std::endl;
-- 
2.43.0


From 82f28ea29ffbe96ac946f07639e785f9eb1f82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 08/22] fix: a RigidBody2D checkpoint with no integrator could
 not be loaded

---
 rigidbody2d/RigidBody2DUtilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigidbody2d/RigidBody2DUtilities.cpp b/rigidbody2d/RigidBody2DUtilities.cpp
index 625255f..24bb230 100644
--- a/rigidbody2d/RigidBody2DUtilities.cpp
+++ b/rigidbody2d/RigidBody2DUtilities.cpp
@@ -44,6 +44,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody2DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
+  else if( "NULL" == integrator_name )
+  {
+    unconstrained_map.reset( nullptr );
+  }
   else
   {
     std::cerr << "Deserialization not supported for: " << integrator_name << std::endl;
-- 
2.43.0


From 20f0fa6a51ff4fe99069b95699747051a7fa1359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 09/22] fix: a RigidBody3D checkpoint with an exponential Euler
 integrator could not be loaded

---
 rigidbody3d/RigidBody3DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigidbody3d/RigidBody3DUtilities.cpp b/rigidbody3d/RigidBody3DUtilities.cpp
index b384d0e..90719bf 100644
--- a/rigidbody3d/RigidBody3DUtilities.cpp
+++ b/rigidbody3d/RigidBody3DUtilities.cpp
@@ -10,6 +10,7 @@
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
 
 #include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
+#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
 #include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
 
 #include <iostream>
@@ -41,6 +42,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody3DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new DMVMap );
   }
+  else if( "exponential_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new ExponentialEulerMap );
+  }
   else if( "split_ham" == integrator_name )
   {
     unconstrained_map.reset( new SplitHamMap );
-- 
2.43.0


From 84be03c77ff4f4013095dd82a522ad36b2b56fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:03 +0000
Subject: [PATCH 10/22] fix: a checkpoint with a GRR friction solver could not
 be loaded

---
 scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
index 74647d3..8dc5a3a 100644
--- a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
+++ b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
@@ -17,6 +17,7 @@
 #include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
 #include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
 #include "scisim/ConstrainedMaps/StaggeredProjections.h"
+#include "scisim/ConstrainedMaps/GRRFriction.h"
 #include "scisim/ConstrainedMaps/Sobogus.h"
 #include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
 
@@ -214,6 +215,10 @@ std::unique_ptr<FrictionSolver> ConstrainedMapUtilities::deserializeFrictionSolv
   {
     friction_solver.reset( new StaggeredProjections{ input_stream } );
   }
+  else if( "grr_friction" == friction_solver_name )
+  {
+    friction_solver.reset( new GRRFriction{ input_stream } );
+  }
   else if( "sobogus" == friction_solver_name )
   {
     friction_solver.reset( new Sobogus{ input_stream } );
-- 
2.43.0


From 869cd00d1dfae4b5a3947fc5ed0236a44a50c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:13 +0000
Subject: [PATCH 11/22] fix: setState with no bodies discards the mass matrices
 of the previous bodies

---
 rigidbody3d/RigidBody3DState.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rigidbody3d/RigidBody3DState.cpp b/rigidbody3d/RigidBody3DState.cpp
index 17dfd0a..638b645 100644
--- a/rigidbody3d/RigidBody3DState.cpp
+++ b/rigidbody3d/RigidBody3DState.cpp
@@ -294,6 +294,13 @@ void RigidBody3DState::setState( const std::vector<Vector3s>& X, const std::vect
     m_M = formWorldSpaceMassMatrix( M, I0, R );
     m_Minv = formWorldSpaceInverseMassMatrix( M, I0, R );
   }
+  else
+  {
+    m_M0.resize( 0, 0 );
+    m_Minv0.resize( 0, 0 );
+    m_M.resize( 0, 0 );
+    m_Minv.resize( 0, 0 );
+  }
 
   assert( MathUtilities::isIdentity( m_M0 * m_Minv0, 1.0e-9 ) );
   assert( MathUtilities::isIdentity( m_M * m_Minv, 1.0e-9 ) );
-- 
2.43.0


From 80f25f431684ad8ce2ab90a0a0e260254b5e9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:13 +0000
Subject: [PATCH 12/22] fix: inertia of a staple's cylinders uses the square,
 not the cube, of their length

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index fab5f7e..84cee1c 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -39,21 +39,21 @@ void RigidBodyStaple::computeMassAndInertia( const scalar& density, scalar& M, V
     I.x() += 2.0 * My * ( CMy.y() * CMy.y() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
     I.x() += Mx * ( m_r * m_r ) / 2.0;
-    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
 
     // Contributions from translating the cylinders
     I.y() = Mx * ( CMx.x() * CMx.x() + CMx.z() * CMx.z() );
     I.y() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
-    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
+    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
     I.y() += My * ( m_r * m_r );
 
     // Contributions from translating the cylinders
     I.z() = Mx * ( CMx.x() * CMx.x() + CMx.y() * CMx.y() );
     I.z() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.y() * CMy.y() );
     // Contributions from cylinders' centers of mass
-    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
-    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
+    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
   }
 
   R.setIdentity();
-- 
2.43.0


From 8ed682a361a0ca0305176f4ed4bb71fdba6a63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:13 +0000
Subject: [PATCH 13/22] fix: bounding box of a staple includes its thickness

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index 84cee1c..58e6009 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -108,6 +108,9 @@ void RigidBodyStaple::computeAABB( const Vector3s& cm, const Matrix33sr& R, Arra
     min = min.min( transformed_vertex );
     max = max.max( transformed_vertex );
   }
+  // The corners are on the center line, pad by the radius of the staple
+  min -= m_r;
+  max += m_r;
   assert( ( min < max ).all() );
 }
 
-- 
2.43.0


From c70ccbbf151bc56c0a92807208a4764e611b7700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:13 +0000
Subject: [PATCH 14/22] fix: 3D computeForce evaluates forces at the
 configuration and velocity it is given

---
 rigidbody3d/RigidBody3DSim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody3d/RigidBody3DSim.cpp b/rigidbody3d/RigidBody3DSim.cpp
index 946e86a..b2fa54f 100644
--- a/rigidbody3d/RigidBody3DSim.cpp
+++ b/rigidbody3d/RigidBody3DSim.cpp
@@ -176,7 +176,7 @@ void RigidBody3DSim::computeForce( const VectorXs& q, const VectorXs& v, const s
 
   for( std::vector<std::unique_ptr<Force>>::size_type frc_idx = 0; frc_idx < m_sim_state.forces().size(); ++frc_idx )
   {
-    m_sim_state.forces()[frc_idx]->computeForce( m_sim_state.q(), m_sim_state.v(), m_sim_state.M(), F );
+    m_sim_state.forces()[frc_idx]->computeForce( q, v, m_sim_state.M(), F );
   }
 }
 
-- 
2.43.0


From 156d806dad05fe6d0bb64591f5c64f9c6355e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:01 +0000
Subject: [PATCH 15/22] fix: Gauss-Seidel impact operator double-counted
 warm-started impulses

With cache_impulses enabled, ImpactMap passes the cached impulses in alpha;
the operator accumulated its response on top of them, so the velocity
v0 + Minv N alpha was not the one the iteration had produced.
---
 scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
index a71e630..e449423 100644
--- a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
+++ b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
@@ -22,9 +22,11 @@ GaussSeidelOperator::GaussSeidelOperator( std::istream& input_stream )
 void GaussSeidelOperator::flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha )
 {
   // TODO: Check input sizes, etc
-  assert( ( alpha.array() == 0.0 ).all() );
   assert( ( v0.array() == v0F.array() ).all() );
 
+  // Clear alpha as we will accumulate the generalized impulse below; a warm started alpha is not part of the response
+  alpha.setZero();
+
   const unsigned ncons{ unsigned( cons.size() ) };
 
   VectorXs v1 = v0;
-- 
2.43.0


From d0cc73439e841c305c6795d2357afc610b66c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:10 +0000
Subject: [PATCH 16/22] fix: bound constrained friction residual ignored the
 gradient at the upper bound

At beta = c the multiplier was max(vrel,0) >= 0, for which the Fischer-Burmeister
function with a zero gap vanishes identically: a point at the upper bound was
always reported as optimal. Use the outward multiplier, as at the lower bound.
---
 .../FrictionMaps/FischerBurmeisterBoundConstrained.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp
index fd681e9..47e37eb 100644
--- a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp
+++ b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp
@@ -46,7 +46,7 @@ scalar FischerBurmeisterBoundConstrained::operator()( const VectorXs& beta, cons
     }
     else if( beta( i ) >= m_c( i ) )
     {
-      lambda( i ) = std::max<scalar>( lambda( i ), 0.0 );
+      lambda( i ) = std::min<scalar>( - lambda( i ), 0.0 );
     }
   }
 
-- 
2.43.0


From 627a9bb86696353d44aca0653a3f15aac598c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:10 +0000
Subject: [PATCH 17/22] fix: smooth friction residual accepted points whose
 descent direction leads back into the disc

On the rim of the friction disc the whole normal component of the gradient was
projected out, so a point with the gradient parallel to the impulse (friction
accelerating the slip) had a zero residual. Project only the outward part.
---
 .../ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp
index 045295a..9516e32 100644
--- a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp
+++ b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp
@@ -36,7 +36,8 @@ static scalar getSignedTangentMagnitude( const Vector2s& x, const scalar& c, con
       }
     }
 
-    const Vector2s t{ grad - grad.dot( n ) * n };
+    // Only the component of the gradient that pushes the point out of the disc is balanced by the constraint
+    const Vector2s t{ grad - std::min<scalar>( grad.dot( n ), 0.0 ) * n };
     return - t.norm();
   }
   else
-- 
2.43.0


From f25479f0a4435397f85f49bab690b9cc9a1cf5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:21 +0000
Subject: [PATCH 18/22] fix: APGD hung on an initial guess of all ones and
 returned an empty vector with no iterations

The initial Lipschitz estimate divided by |x0 - 1|, giving NaN step sizes and an
endless backtracking loop when a warm started guess is exactly one everywhere
(or zero step estimate when the difference is in the null space of A). With
max_iters equal to 0 the caller's vector was swapped with an empty one.
---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index e66228b..bcc2494 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -52,16 +52,20 @@ namespace ProjectionSolvers
 
     VectorXs y0{ x0 };
     scalar theta0{ 1.0 };
-    assert( ( x0.array() != x1.array() ).any() );
     g = x0 - x1;
     mult( A, g, y1 );
     // Initial estimate of the Lipschitz constant
-    scalar Lk{ y1.norm() / ( x0 - x1 ).norm() };
-    assert( Lk != 0.0 );
+    const scalar initial_difference{ g.norm() };
+    scalar Lk{ initial_difference > 0.0 ? y1.norm() / initial_difference : 0.0 };
+    // No estimate if the initial iterate coincides with x1 or the difference lies in the null space of A
+    if( !( Lk > 0.0 ) )
+    {
+      Lk = 1.0;
+    }
     scalar tk{ 1.0 / Lk };
 
     scalar best_residual{ SCALAR_INFINITY };
-    VectorXs best_solution;
+    VectorXs best_solution{ x0 };
     results.status = ProjectionSolveStatus::MaxItersExceeded;
     unsigned iteration;
     for( iteration = 0; iteration < max_iters; ++iteration )
-- 
2.43.0


From 55f4767b04fc0609801f71b51e4702133390b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 19/22] fix: planar portals without tangential bounds divided
 by zero and converted the infinite quotient to int

---
 ball2d/Portals/PlanarPortal.cpp | 22 ++++++++++++++++------
 rigidbody2d/PlanarPortal.cpp    | 22 ++++++++++++++++------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/ball2d/Portals/PlanarPortal.cpp b/ball2d/Portals/PlanarPortal.cpp
index f0b5415..d16f308 100644
--- a/ball2d/Portals/PlanarPortal.cpp
+++ b/ball2d/Portals/PlanarPortal.cpp
@@ -194,8 +194,11 @@ void PlanarPortal::teleportPointThroughPlaneA( const Vector2s& xin, Vector2s& xo
   scalar tA{ planeA().t().dot( m_dx * m_plane_a.t() + planeA().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tA -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    tA -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tA >= -m_bounds || !isLeesEdwards() );
   assert( tA <= m_bounds || !isLeesEdwards() );
 
@@ -210,8 +213,11 @@ void PlanarPortal::teleportPointThroughPlaneB( const Vector2s& xin, Vector2s& xo
   scalar tB{ planeB().t().dot( m_dx * m_plane_b.t() + planeB().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tB -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    tB -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tB >= -m_bounds || !isLeesEdwards() );
   assert( tB <= m_bounds || !isLeesEdwards() );
 
@@ -231,8 +237,12 @@ void PlanarPortal::serialize( std::ostream& output_stream ) const
 
 void PlanarPortal::updateMovingPortals( const scalar& t )
 {
-  const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  m_dx = m_v * t - 2.0 * repeat_x * m_bounds;
+  m_dx = m_v * t;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    m_dx -= 2.0 * repeat_x * m_bounds;
+  }
   assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
 }
 
diff --git a/rigidbody2d/PlanarPortal.cpp b/rigidbody2d/PlanarPortal.cpp
index b8ee9ed..cd7f1fc 100644
--- a/rigidbody2d/PlanarPortal.cpp
+++ b/rigidbody2d/PlanarPortal.cpp
@@ -302,8 +302,11 @@ void PlanarPortal::teleportPointThroughPlaneA( const Vector2s& xin, Vector2s& xo
   scalar tA{ planeA().t().dot( m_dx * m_plane_a.t() + planeA().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tA -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    tA -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tA >= -m_bounds || !isLeesEdwards() );
   assert( tA <= m_bounds || !isLeesEdwards() );
 
@@ -318,8 +321,11 @@ void PlanarPortal::teleportPointThroughPlaneB( const Vector2s& xin, Vector2s& xo
   scalar tB{ planeB().t().dot( m_dx * m_plane_b.t() + planeB().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tB -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    tB -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tB >= -m_bounds || !isLeesEdwards() );
   assert( tB <= m_bounds || !isLeesEdwards() );
 
@@ -339,8 +345,12 @@ void PlanarPortal::serialize( std::ostream& output_stream ) const
 
 void PlanarPortal::updateMovingPortals( const scalar& t )
 {
-  const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  m_dx = m_v * t - 2.0 * repeat_x * m_bounds;
+  m_dx = m_v * t;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    m_dx -= 2.0 * repeat_x * m_bounds;
+  }
   assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
 }
 
-- 
2.43.0


From fd353645a519d3c987aaa6de0c7e56bd623cc102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:24 +0000
Subject: [PATCH 20/22] fix: nearly parallel box edges gave spurious separating
 axes from rounding error, dropping contacts between aligned boxes

---
 rigidbody3d/Constraints/BoxBoxUtilities.cpp | 28 +++++++++++----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/rigidbody3d/Constraints/BoxBoxUtilities.cpp b/rigidbody3d/Constraints/BoxBoxUtilities.cpp
index ac4e569..77e7a42 100644
--- a/rigidbody3d/Constraints/BoxBoxUtilities.cpp
+++ b/rigidbody3d/Constraints/BoxBoxUtilities.cpp
@@ -126,25 +126,27 @@ static bool axisAlignedSeperatingTest( const scalar& projected_center_dist, cons
 
 static bool edgeEdgeSeparatingTest( const scalar& projected_center_dist, const scalar& projected_aabb_widths, const scalar& n1, const scalar& n2, const scalar& n3, const int crnt_code, scalar& smallest_pen_depth, Vector3s& normalC, bool& invert_normal, int& code )
 {
+  const scalar l{ sqrt( n1 * n1 + n2 * n2 + n3 * n3 ) };
+  // The cross product of (nearly) parallel edges is rounding error, and the face axes already cover this case
+  if( l <= 1.0e-8 )
+  {
+    return false;
+  }
   scalar s2{ fabs(projected_center_dist) - projected_aabb_widths };
   if( s2 > 0 )
   {
     return true;
   }
-  const scalar l{ sqrt( n1 * n1 + n2 * n2 + n3 * n3 ) };
-  if( l > 0 )
+  s2 /= l;
+  assert( smallest_pen_depth <= 0.0 );
+  const scalar fudge_factor{ 1.05 }; // <- TODO: Biasing towards faces, I think?
+  if( s2 * fudge_factor > smallest_pen_depth )
   {
-    s2 /= l;
-    assert( smallest_pen_depth <= 0.0 );
-    const scalar fudge_factor{ 1.05 }; // <- TODO: Biasing towards faces, I think?
-    if( s2 * fudge_factor > smallest_pen_depth )
-    {
-      smallest_pen_depth = s2;
-      normalC << n1, n2, n3;
-      normalC /= l;
-      invert_normal = projected_center_dist < 0;
-      code = crnt_code;
-    }
+    smallest_pen_depth = s2;
+    normalC << n1, n2, n3;
+    normalC /= l;
+    invert_normal = projected_center_dist < 0;
+    code = crnt_code;
   }
   return false;
 }
-- 
2.43.0


From a8fa450226418e261ebe720d6358395e151e2eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:29 +0000
Subject: [PATCH 21/22] fix: points on the upper boundary of a mesh's distance
 field grid read past the end of the field

---
 rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
index 3cba189..aa2fd3e 100644
--- a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
+++ b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
@@ -288,7 +288,8 @@ bool RigidBodyTriangleMesh::detectCollision( const Vector3s& x, Vector3s& n ) co
   assert( ( x.array() <= m_grid_end.array() ).all() );
 
   // Determine which cell this point lies within
-  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>() };
+  // Points on the upper boundary of the grid belong to the last cell
+  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>().min( m_grid_dimensions.array() - 2 ) };
   assert( ( indices + 1 < m_grid_dimensions.array() ).all() );
 
   // Compute the 'barycentric' coordinates of the point in the cell
-- 
2.43.0


From 05ea5396805c5dafa1f12769f5a3046530177e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:22 +0000
Subject: [PATCH 22/22] fix: spatial grid keys overflowed for large grids, so a
 body could be reported as a candidate for a collision with itself

---
 ball2d/SpatialGridDetector.cpp      | 13 ++++++++-----
 rigidbody2d/SpatialGrid.cpp         | 14 ++++++++------
 rigidbody3d/SpatialGridDetector.cpp | 16 +++++++++-------
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/ball2d/SpatialGridDetector.cpp b/ball2d/SpatialGridDetector.cpp
index f055301..8234cbb 100644
--- a/ball2d/SpatialGridDetector.cpp
+++ b/ball2d/SpatialGridDetector.cpp
@@ -5,6 +5,8 @@
 
 #include "SpatialGridDetector.h"
 
+#include <array>
+
 AABB::AABB( const Array2s& min, const Array2s& max )
 : m_min( min )
 , m_max( max )
@@ -33,13 +35,14 @@ static void computeCellIndex( const Array2s& coord, const Array2s& min_coord, co
   index = ( ( coord - min_coord ) / h ).cast<unsigned>();
 }
 
-static unsigned keyForIndex( const Array2u& index, const Array2u& dimensions )
+// The key holds one index per axis, as flattening the indices to a single integer overflows for large grids
+static std::array<unsigned,2> keyForIndex( const Array2u& index, const Array2u& dimensions )
 {
   assert( ( index < dimensions ).all() );
-  return index.x() + dimensions.x() * index.y();
+  return std::array<unsigned,2>{ { index.x(), index.y() } };
 }
 
-static void rasterizeAABBs( const std::vector<AABB>& aabbs, const Array2s& min_coord, const scalar& h, const Array2u& dimensions, std::map<unsigned,std::vector<unsigned>>& voxels )
+static void rasterizeAABBs( const std::vector<AABB>& aabbs, const Array2s& min_coord, const scalar& h, const Array2u& dimensions, std::map<std::array<unsigned,2>,std::vector<unsigned>>& voxels )
 {
   // For each bounding box
   for( std::vector<AABB>::size_type aabb_idx = 0; aabb_idx < aabbs.size(); ++aabb_idx )
@@ -56,7 +59,7 @@ static void rasterizeAABBs( const std::vector<AABB>& aabbs, const Array2s& min_c
       for( unsigned y_idx = index_lower.y(); y_idx <= index_upper.y(); ++y_idx )
       {
         // Compute the hash key for the given indexed voxel
-        const unsigned key = keyForIndex( Array2u( x_idx, y_idx ), dimensions );
+        const std::array<unsigned,2> key = keyForIndex( Array2u( x_idx, y_idx ), dimensions );
 
         auto voxel_iterator = voxels.find( key );
         // Create a new voxel, if needed
@@ -110,7 +113,7 @@ void SpatialGridDetector::getPotentialOverlaps( const std::vector<AABB>& aabbs,
   scalar h;
   initializeSpatialGrid( aabbs, min_coord, dimensions, h );
 
-  std::map<unsigned,std::vector<unsigned>> voxels;
+  std::map<std::array<unsigned,2>,std::vector<unsigned>> voxels;
   rasterizeAABBs( aabbs, min_coord, h, dimensions, voxels );
 
   // For each voxel
diff --git a/rigidbody2d/SpatialGrid.cpp b/rigidbody2d/SpatialGrid.cpp
index d3f423d..7711f5c 100644
--- a/rigidbody2d/SpatialGrid.cpp
+++ b/rigidbody2d/SpatialGrid.cpp
@@ -5,6 +5,8 @@
 
 #include "SpatialGrid.h"
 
+#include <array>
+
 AABB::AABB( const Array2s& min, const Array2s& max )
 : m_min( min )
 , m_max( max )
@@ -40,14 +42,14 @@ static void computeCellIndex( const Array2s& coord, const Array2s& min_coord, co
   index = ( ( coord - min_coord ) / h ).cast<unsigned>();
 }
 
-static unsigned keyForIndex( const Array2u& index, const Array2u& dimensions )
+// The key holds one index per axis, as flattening the indices to a single integer overflows for large grids
+static std::array<unsigned,2> keyForIndex( const Array2u& index, const Array2u& dimensions )
 {
   assert( ( index < dimensions ).all() );
-  // TODO: key could get really big...
-  return index.x() + dimensions.x() * index.y();
+  return std::array<unsigned,2>{ { index.x(), index.y() } };
 }
 
-static void rasterizeAABBs( const std::vector<AABB>& aabbs, const Array2s& min_coord, const scalar& h, const Array2u& dimensions, std::map< unsigned, std::vector<unsigned> >& voxels )
+static void rasterizeAABBs( const std::vector<AABB>& aabbs, const Array2s& min_coord, const scalar& h, const Array2u& dimensions, std::map<std::array<unsigned,2>,std::vector<unsigned>>& voxels )
 {
   // For each bounding box
   for( std::vector<AABB>::size_type aabb_idx = 0; aabb_idx < aabbs.size(); ++aabb_idx )
@@ -64,7 +66,7 @@ static void rasterizeAABBs( const std::vector<AABB>& aabbs, const Array2s& min_c
       for( unsigned y_idx = index_lower.y(); y_idx <= index_upper.y(); ++y_idx )
       {
         // Compute the hash key for the given indexed voxel
-        const unsigned key{ keyForIndex( Array2u{ x_idx, y_idx }, dimensions ) };
+        const std::array<unsigned,2> key{ keyForIndex( Array2u{ x_idx, y_idx }, dimensions ) };
 
         auto voxel_iterator = voxels.find( key );
         // Create a new voxel, if needed
@@ -118,7 +120,7 @@ void SpatialGrid::getPotentialOverlaps( const std::vector<AABB>& aabbs, std::set
   scalar h;
   initializeSpatialGrid( aabbs, min_coord, dimensions, h );
 
-  std::map<unsigned,std::vector<unsigned>> voxels;
+  std::map<std::array<unsigned,2>,std::vector<unsigned>> voxels;
   rasterizeAABBs( aabbs, min_coord, h, dimensions, voxels );
 
   // For each voxel
diff --git a/rigidbody3d/SpatialGridDetector.cpp b/rigidbody3d/SpatialGridDetector.cpp
index e2218eb..32bba53 100644
--- a/rigidbody3d/SpatialGridDetector.cpp
+++ b/rigidbody3d/SpatialGridDetector.cpp
@@ -5,6 +5,8 @@
 
 #include "SpatialGridDetector.h"
 
+#include <array>
+
 bool AABB::overlaps( const AABB& other ) const
 {
   // Temporary sanity check: internal code shouldn't compare an AABB to itself
@@ -33,14 +35,14 @@ static void computeCellIndex( const Array3s& coord, const Array3s& min_coord, co
   index = ( ( coord - min_coord ) / h ).cast<unsigned>();
 }
 
-static unsigned keyForIndex( const Array3u& index, const Array3u& dimensions )
+// The key holds one index per axis, as flattening the indices to a single integer overflows for large grids
+static std::array<unsigned,3> keyForIndex( const Array3u& index, const Array3u& dimensions )
 {
   assert( ( index < dimensions ).all() );
-  // TODO: key could get really big...
-  return index.x() + dimensions.x() * index.y() + dimensions.x() * dimensions.y() * index.z();
+  return std::array<unsigned,3>{ { index.x(), index.y(), index.z() } };
 }
 
-static void rasterizeAABBs( const std::vector<AABB>& aabbs, const Array3s& min_coord, const scalar& h, const Array3u& dimensions, std::map<unsigned,std::vector<unsigned>>& voxels )
+static void rasterizeAABBs( const std::vector<AABB>& aabbs, const Array3s& min_coord, const scalar& h, const Array3u& dimensions, std::map<std::array<unsigned,3>,std::vector<unsigned>>& voxels )
 {
   // For each bounding box
   for( std::vector<AABB>::size_type aabb_idx = 0; aabb_idx < aabbs.size(); ++aabb_idx )
@@ -59,13 +61,13 @@ static void rasterizeAABBs( const std::vector<AABB>& aabbs, const Array3s& min_c
         for( unsigned z_idx = index_lower.z(); z_idx <= index_upper.z(); ++z_idx )
         {
           // Compute the hash key for the given indexed voxel
-          const unsigned key = keyForIndex( Array3u{ x_idx, y_idx, z_idx }, dimensions );
+          const std::array<unsigned,3> key = keyForIndex( Array3u{ x_idx, y_idx, z_idx }, dimensions );
 
           auto voxel_iterator = voxels.find( key );
           // Create a new voxel, if needed
           if( voxel_iterator == voxels.end() )
           {
-            const auto insertion_result = voxels.insert( std::pair<unsigned,std::vector<unsigned>>( key, std::vector<unsigned>{} ) );
+            const auto insertion_result = voxels.insert( std::pair<std::array<unsigned,3>,std::vector<unsigned>>( key, std::vector<unsigned>{} ) );
             assert( insertion_result.second );
             voxel_iterator = insertion_result.first;
           }
@@ -114,7 +116,7 @@ void SpatialGridDetector::getPotentialOverlaps( const std::vector<AABB>& aabbs,
   scalar h;
   initializeSpatialGrid( aabbs, min_coord, dimensions, h );
 
-  std::map<unsigned,std::vector<unsigned>> voxels;
+  std::map<std::array<unsigned,3>,std::vector<unsigned>> voxels;
   rasterizeAABBs( aabbs, min_coord, h, dimensions, voxels );
 
   // For each voxel
-- 
2.43.0

