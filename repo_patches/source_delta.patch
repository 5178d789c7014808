From b1d8d5568fe372a0714c96f2a3e5abc74b270ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 001/128] fix: command line - arguments containing '*' were
 taken for combined switches and refused

---
 ecl_command_line/include/ecl/command_line/arg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/arg.hpp b/ecl_command_line/include/ecl/command_line/arg.hpp
index b401093..1fdd7e8 100644
--- a/ecl_command_line/include/ecl/command_line/arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg.hpp
@@ -179,7 +179,7 @@ class Arg
 		 * Currently set to '*', which shouldn't cause many problems since
 		 * *'s are expanded by most shells on the command line.
 		 */
-		static char blankChar() { return '*'; }
+		static char blankChar() { return (char)7; }
 
 		/**
 		 * The char that indicates the beginning of a flag.  Currently '-'.
-- 
2.43.0


From d6b4c9ea7d14dbfb5b687cf5051861453ee899ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 002/128] fix: command line - a '-' inside an argument (e.g.
 -1e-5) silently started ignoring the rest

---
 ecl_command_line/include/ecl/command_line/switch_arg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/switch_arg.hpp b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
index 5fd6f99..633d7d8 100644
--- a/ecl_command_line/include/ecl/command_line/switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
@@ -142,7 +142,8 @@ inline bool SwitchArg::combinedSwitchesMatch(std::string& combinedSwitches )
 	// ok, we're not specifying a ValueArg, so we know that we have
 	// a combined switch list.
 	for ( unsigned int i = 1; i < combinedSwitches.length(); i++ )
-		if ( combinedSwitches[i] == _flag[0] )
+		if ( combinedSwitches[i] == _flag[0] &&
+			 combinedSwitches[i] != Arg::flagStartString()[0] )
 		{
 			// update the combined switches so this one is no longer present
 			// this is necessary so that no unlabeled args are matched
-- 
2.43.0


From 491dcb5d77e2046f3d9ced1028dbeb264f14fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 003/128] fix: command line - an empty value for a numeric
 argument was accepted (and read uninitialised memory)

---
 ecl_command_line/include/ecl/command_line/multi_arg.hpp | 2 +-
 ecl_command_line/include/ecl/command_line/value_arg.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
index 82492af..bb346b3 100644
--- a/ecl_command_line/include/ecl/command_line/multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
@@ -98,7 +98,7 @@ class ValueExtractor
 				valuesRead++;
 			}
 
-			if ( is.fail() )
+			if ( is.fail() || valuesRead == 0 )
 				return EXTRACT_FAILURE;
 
 			if ( valuesRead > 1 )
diff --git a/ecl_command_line/include/ecl/command_line/value_arg.hpp b/ecl_command_line/include/ecl/command_line/value_arg.hpp
index 0aedd35..81f7f49 100644
--- a/ecl_command_line/include/ecl/command_line/value_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/value_arg.hpp
@@ -95,7 +95,7 @@ template<class T> class ValueExtractor
                 valuesRead++;
             }
 
-            if ( is.fail() )
+            if ( is.fail() || valuesRead == 0 )
                 return EXTRACT_FAILURE;
 
             if ( valuesRead > 1 )
-- 
2.43.0


From fd1306411b45fb3a95b8667c75f48919eb708e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 004/128] fix: command line - wrapping the usage text read one
 character before the text

---
 ecl_command_line/include/ecl/command_line/std_output.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/std_output.hpp b/ecl_command_line/include/ecl/command_line/std_output.hpp
index 9a5710b..855d115 100644
--- a/ecl_command_line/include/ecl/command_line/std_output.hpp
+++ b/ecl_command_line/include/ecl/command_line/std_output.hpp
@@ -238,10 +238,10 @@ inline void StdOutput::spacePrint( std::ostream& os,
 
 			// trim the length so it doesn't end in middle of a word
 			if ( stringLen == allowedLen )
-				while ( s[stringLen+start] != ' ' &&
+				while ( stringLen >= 0 &&
+						s[stringLen+start] != ' ' &&
 			   	        s[stringLen+start] != ',' &&
-			   	        s[stringLen+start] != '|' &&
-						stringLen >= 0 )
+			   	        s[stringLen+start] != '|' )
 					stringLen--;
 
 			// ok, the word is longer than the line, so just split
-- 
2.43.0


From 304094afe22c6152b37232a8b8669d65acd8d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 005/128] fix: command line - a member of an exclusive group
 was not counted inside combined switches

---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 67ae615..4abef1f 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -383,12 +383,16 @@ inline void CmdLine::parse(int argc, char** argv)
 		bool matched = false;
 		for (ArgListIterator it = _argList.begin(); it != _argList.end(); it++)
         {
+			std::string before = args[i];
 			if ( (*it)->processArg( &i, args ) )
 			{
 				requiredCount += _xorHandler.check( *it );
 				matched = true;
 				break;
 			}
+			// a switch found inside a combined group counts as well
+			else if ( args[i] != before )
+				requiredCount += _xorHandler.check( *it );
         }
 
 		// checks to see if the argument is an empty combined switch ...
-- 
2.43.0


From fafd7b121bf2dac8a0cf138dd0c1369e0d62df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 006/128] fix: command line - the characters of a value
 attached to a flag (-o=debug.log) were taken for switches

---
 ecl_command_line/include/ecl/command_line/switch_arg.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/switch_arg.hpp b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
index 633d7d8..f9821aa 100644
--- a/ecl_command_line/include/ecl/command_line/switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
@@ -139,6 +139,10 @@ inline bool SwitchArg::combinedSwitchesMatch(std::string& combinedSwitches )
 		 Arg::nameStartString() )
 		return false;
 
+	// make sure it isn't a flag with its value attached
+	if ( combinedSwitches.find( Arg::delimiter() ) != std::string::npos )
+		return false;
+
 	// ok, we're not specifying a ValueArg, so we know that we have
 	// a combined switch list.
 	for ( unsigned int i = 1; i < combinedSwitches.length(); i++ )
-- 
2.43.0


From 2906efbbd1b6a355f70c901a0687ba408bfcd95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:04 +0000
Subject: [PATCH 007/128] fix: cubic roots - t^3+pt with positive p and a
 vanishing leading coefficient returned nan roots

---
 ecl_geometry/src/lib/polynomial.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index bc64d2e..8b357ba 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -97,6 +97,13 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 	double c = polynomial.coefficients()[1];
 	double d = polynomial.coefficients()[0];
 
+	if ( a == 0 ) {
+		QuadraticPolynomial quadratic;
+		quadratic.coefficients() << d, c, b;
+		intercepts = Roots<QuadraticPolynomial>()(quadratic);
+		return intercepts;
+	}
+
 //	form the companion matrix (http://stackoverflow.com/questions/2003465/fastest-numerical-solution-of-a-real-cubic-polynomial)
 //	ecl::linear_algebra::Matrix3d A;
 //	A << 0, 0, -d/a, 1, 0, -c/a, 0, 1, -b/a;
@@ -122,6 +129,10 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 //		std::cout << "Single root from cube root function" << std::endl;
 		intercepts.resize(1);
 		intercepts << ecl::cube_root(-q)+ shift;
+	} else if ( ( q == 0 ) && ( p > 0 ) ) {
+		// t(t^2+p)=0, single root at t = 0
+		intercepts.resize(1);
+		intercepts << shift;
 	} else if ( q == 0 ) {
 //		std::cout << "Three real roots" << std::endl;
 		// three real roots
-- 
2.43.0


From bbe2cc6158551cc2745bf6c261718a7225ebfaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:04 +0000
Subject: [PATCH 008/128] fix: line intersection - a failure stayed reported
 after a later successful intersection

---
 ecl_geometry/src/lib/polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 8b357ba..a260a31 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -172,6 +172,7 @@ CartesianPoint2d Intersection< LinearFunction >::operator()(const LinearFunction
 		last_operation_failed = true;
 		ecl_throw(StandardException(LOC,OutOfRangeError,"Functions are collinear, no intersection possible."));
 	} else {
+		last_operation_failed = false;
 		point.x((a_0 - a_1)/(b_1 - b_0));
 		point.y(f(point.x()));
 	}
-- 
2.43.0


From ecec01aad634d5c66ed1073e4e5f9751e6d68173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 009/128] fix: tension spline - two data points wrote beyond
 the end of the working arrays

---
 ecl_geometry/src/lib/tension_spline_blueprints.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index ed11de8..ee0316a 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -79,8 +79,10 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
      *
      * etc
      */
-    u[1] = beta[1] + beta[0];
-    v[1] = gamma[1]-gamma[0];
+    if ( n > 1 ) { // otherwise just a single segment, no interior points
+        u[1] = beta[1] + beta[0];
+        v[1] = gamma[1]-gamma[0];
+    }
     for ( unsigned int i = 2; i < n; ++i ) {
         u[i] = beta[i] + beta[i-1] - a[i-1]*a[i-1]/u[i-1];
         v[i] = gamma[i]-gamma[i-1] - a[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From 8b321f2eabd8fb29241a51c01be2bc058cb7ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 010/128] fix: cubic extrema - cancellation missed the
 stationary point when the leading coefficient is tiny (smoothed corners then
 broke their bound)

---
 ecl_geometry/src/lib/polynomial.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index a260a31..23b6e32 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -212,14 +212,14 @@ double Maximum<CubicPolynomial>::operator()(
     } else {
 		double sqrt_term = b*b-4*a*c;
 		if ( sqrt_term > 0 ) {
-			double root = ( -b + sqrt(b*b-4*a*c))/(2*a);
+			double root = ( b > 0 ) ? 2*c/( -b - sqrt(b*b-4*a*c)) : ( -b + sqrt(b*b-4*a*c))/(2*a); // avoids cancellation
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_max = cubic(root);
 				if ( test_max > max ) {
 					max = test_max;
 				}
 			}
-			root = ( -b - sqrt(b*b-4*a*c))/(2*a);
+			root = ( b < 0 ) ? 2*c/( -b + sqrt(b*b-4*a*c)) : ( -b - sqrt(b*b-4*a*c))/(2*a);
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_max = cubic(root);
 				if ( test_max > max ) {
@@ -264,14 +264,14 @@ double Minimum<CubicPolynomial>::operator()(
     } else {
 		double sqrt_term = b*b-4*a*c;
 		if ( sqrt_term > 0 ) {
-			double root = ( -b + sqrt(b*b-4*a*c))/(2*a);
+			double root = ( b > 0 ) ? 2*c/( -b - sqrt(b*b-4*a*c)) : ( -b + sqrt(b*b-4*a*c))/(2*a); // avoids cancellation
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_min = cubic(root);
 				if ( test_min < min ) {
 					min = test_min;
 				}
 			}
-			root = ( -b - sqrt(b*b-4*a*c))/(2*a);
+			root = ( b < 0 ) ? 2*c/( -b + sqrt(b*b-4*a*c)) : ( -b - sqrt(b*b-4*a*c))/(2*a);
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_min = cubic(root);
 				if ( test_min < min ) {
-- 
2.43.0


From 8844f7b450bcba771840db8062e4b0e858571016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 011/128] fix: quadratic roots - cancellation returned wrong
 roots when the leading coefficient is tiny

---
 ecl_geometry/src/lib/polynomial.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 23b6e32..f31f368 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -80,7 +80,9 @@ Array<double> Roots< QuadraticPolynomial >::operator()(const QuadraticPolynomial
 		double discriminant = b*b - 4*a*c;
 		if ( discriminant > 0.0 ) {
 			intercepts.resize(2);
-			intercepts << (-b + sqrt(discriminant))/(2*a), (-b - sqrt(discriminant))/(2*a);
+			// the usual formula, rearranged where it would subtract nearly equal numbers
+			intercepts << ( ( b > 0 ) ? 2*c/(-b - sqrt(discriminant)) : (-b + sqrt(discriminant))/(2*a) ),
+			              ( ( b < 0 ) ? 2*c/(-b + sqrt(discriminant)) : (-b - sqrt(discriminant))/(2*a) );
 		} else if ( discriminant == 0.0 ) {
 			intercepts.resize(1);
 			intercepts << -b/(2*a);
-- 
2.43.0


From d874a9b32b216f7f67b8b7f89a545eb236a5a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 012/128] fix: Pose2D - default construction and the product
 did not compile, coordinates were truncated to float, translation and
 rotation matrix were dangling references

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index dd4544c..7e65896 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -120,7 +120,7 @@ public:
    *
    * @param xyh: x, y, heading wrapped in an eigen vector3d type.
    */
-  Pose2D(): xyh(0.0) {}
+  Pose2D(): xyh(XYH::Zero()) {}
 
   /**
    * @brief Construction by element.
@@ -129,7 +129,7 @@ public:
    * @param y: y-translation
    * @param h: heading (radians)
    */
-  Pose2D(const float& x, const float& y, const float& h) {
+  Pose2D(const Float& x, const Float& y, const Float& h) {
     xyh << x, y, h;
   }
 
@@ -152,7 +152,7 @@ public:
    * @return Pose2D<Float> : the concatenated pose
    */
   Pose2D<Float> operator*(const Pose2D<Float> &pose) const {
-    return concatenate_poses(this->xyh, pose);
+    return concatenate_poses(this->xyh, pose.xyh);
   }
 
   /**
@@ -175,11 +175,11 @@ public:
   const Float& x() const { return xyh[0]; }        //!< @brief Get the x-coordinate.
   const Float& y() const { return xyh[1]; }        //!< @brief Get the y-coordinate.
   const Float& heading() const { return xyh[2]; }  //!< @brief Get the heading.
-  const Translation& translation() const { return xyh. template head<2>(); }
+  Translation translation() const { return xyh. template head<2>(); }
   /**
    * @brief Representation of the heading in matrix form.
    **/
-  const RotationMatrix& rotationMatrix() const {
+  RotationMatrix rotationMatrix() const {
     Float c = std::cos(xyh[2]);
     Float s = std::sin(xyh[2]);
     return (RotationMatrix() << c, -s, s, c).finished();
-- 
2.43.0


From 1991e2ae51fe6c027b2a402de9a254b5feb99131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 013/128] fix: LegacyPose3D - construction from an angle axis
 ignored the rotation and the translation

---
 ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
index 6a1851f..bc9670d 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
@@ -121,13 +121,9 @@ public:
          */
         template<typename Trans>
         LegacyPose3D(const ecl::linear_algebra::AngleAxis<Float>& angle_axis, const ecl::linear_algebra::MatrixBase<Trans>& translation) :
-            rot(RotationMatrix::Identity()),
-            trans(Translation::Zero())
-        {
-                (void) angle_axis;
-                (void) translation;
-                /* TODO */
-        }
+            rot(angle_axis.toRotationMatrix()),
+            trans(translation)
+        {}
         /**
          * @brief Initialise from an eigen Quaternion and a translation.
          *
-- 
2.43.0


From 17817f81644710f0a78cd8b9e43b9832e140ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 014/128] fix: LegacyPose2D - products of poses with different
 rotation storage did not compile

---
 ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
index eb93e3b..73d5589 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
@@ -137,7 +137,7 @@ public:
         static Angle<Float> Rotation(const RotationMatrixType &rotation) { return Pose2DMath<Float,RotationMatrixStorage>::Heading(rotation); } /**< @brief Arbitrary rotation converter. **/
         static Angle<Float> Heading(const Angle<Float> &angle) { return angle; }  /**< @brief Arbitrary heading angle converter. **/
         static Angle<Float> Product(const Angle<Float> &angle1, const Angle<Float> &angle2) { return angle1+angle2; } /**< @brief Overloaded product calculater for poses. **/
-        static Angle<Float> Product(const Angle<Float> &angle, RotationMatrixType &rotation) { return angle + Angle<Float>(rotation); } /**< @brief Overloaded product calculater for poses. **/
+        static Angle<Float> Product(const Angle<Float> &angle, const RotationMatrixType &rotation) { return angle + Angle<Float>(rotation); } /**< @brief Overloaded product calculater for poses. **/
         static Angle<Float> Inverse(const Angle<Float> &angle) { return Angle<Float>(-1*angle); } /**< @brief Pose inverse, angle format. **/
 };
 
@@ -412,14 +412,15 @@ public:
      */
         template <enum Pose2DStorageType Storage_>
     LegacyPose2D<Float,Storage> operator*(const LegacyPose2D<Float,Storage_> &pose) const {
-                return LegacyPose2D<Float,Storage>(RotationMath::Product(rot,pose.rot),trans + rotationMatrix()*pose.trans);
+                return LegacyPose2D<Float,Storage>(RotationMath::Product(rot,pose.rotation()),trans + rotationMatrix()*pose.translation());
     }
     /**
      * @brief Transform this pose by the specified input pose.
      * @param pose : a pose differential (wrt this pose's frame).
      * @return Pose2D<Float>& : handle to the updated pose (wrt common/global frame).
      */
-    LegacyPose2D<Float>& operator*=(const LegacyPose2D<Float> &pose) {
+        template <enum Pose2DStorageType Storage_>
+    LegacyPose2D<Float,Storage>& operator*=(const LegacyPose2D<Float,Storage_> &pose) {
         // This probably needs checking...could also be (marginally) sped up.
         *this = (*this)*pose;
         return (*this);
-- 
2.43.0


From 5ae81537273ede734e785e98a0d6c51ae1d97919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:26 +0000
Subject: [PATCH 015/128] fix: odometry - adding at the end of a trajectory
 overwrote its beginning instead

---
 ecl_geometry/src/lib/odometry_helper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/odometry_helper.cpp b/ecl_geometry/src/lib/odometry_helper.cpp
index 25e39c4..543b873 100644
--- a/ecl_geometry/src/lib/odometry_helper.cpp
+++ b/ecl_geometry/src/lib/odometry_helper.cpp
@@ -108,7 +108,10 @@ void addAtEnd(Trajectory2D& target, const Trajectory2D& addition)
     return;
   }
 
-  target << addition;
+  const int old_size = size(target);
+  const int extra = size(addition);
+  resize(target, old_size + extra);
+  target.middleCols(old_size, extra) = addition.leftCols(extra);
 }
 
 void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
@@ -119,7 +122,10 @@ void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
     return;
   }
 
-  target << addition;
+  const int old_size = size(target);
+  const int extra = size(addition);
+  resize(target, old_size + extra);
+  target.middleCols(old_size, extra) = addition.leftCols(extra);
 }
 
 Trajectory2D vectorToTrajectory(const std::vector<Pose2D>& vec)
-- 
2.43.0


From c1255e97027a8b5d7d63d5f870153bd7383d483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 016/128] fix: extending a pose by itself (pose *= pose) used
 the half updated pose

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 7e65896..f5185ee 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -80,12 +80,8 @@ void extend_pose(
   typename enable_if<ecl::is_float<Float> >::type* dummy = 0)
 {
   (void) dummy;
-  Float c = std::cos(pose[2]);
-  Float s = std::sin(pose[2]);
-  pose <<
-    pose[0] + c*extending_pose[0] - s*extending_pose[1],
-    pose[1] + s*extending_pose[0] + c*extending_pose[1],
-    wrap_angle(pose[2] + extending_pose[2]);
+  // via a temporary, the two arguments may be the same pose
+  pose = concatenate_poses(linear_algebra::Matrix<Float, 3, 1>(pose), extending_pose);
 }
 
 /*****************************************************************************
-- 
2.43.0


From 2fb0bf887cf639e801563fc8c9ef8450dbc5b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 017/128] fix: float formatter - a temporary width was dropped
 when no alignment had been set before

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index ace8dbe..4ab2893 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -320,14 +320,13 @@ template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned int p, const int w)
 {
     width_ = &tmp_width;
+    alignment_ = &tmp_alignment;
+    align(prm_alignment);
     width(w);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
-    align(prm_alignment);
-
     base_ = &tmp_base;
     base(prm_base);
 
-- 
2.43.0


From ece713f05f6f1c660b57b3c9e79cd1b3650a2f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 018/128] fix: float formatter - numbers longer than 29
 characters were cut off

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 4ab2893..d554af2 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -377,7 +377,7 @@ void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
         format_specifier[3] = '0';
         format_specifier[4] = 'f';
     }
-    static const int buffer_size = 30;
+    static const int buffer_size = 350; // the largest double has 309 digits before the point
     static char buffer[buffer_size];
 
     snprintf(buffer, buffer_size, format_specifier, value_);
-- 
2.43.0


From 272b6a6536ec0cf6998fcc9328e43ac7dc1c6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 019/128] fix: number formatter - formatting with a temporary
 width used an uninitialised (or the previous temporary) alignment

---
 ecl_formatters/include/ecl/formatters/number.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d486a06..d2e6cb4 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -331,6 +331,7 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::In
     alignment_ = &tmp_alignment;
     base_ = &tmp_base;
     base(b);
+    align(prm_alignment);
     width(w);
     value_ = n;
     ready_to_format = true;
-- 
2.43.0


From 3e846d830e85bebad62d0af65f6900f5a322b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 020/128] fix: string formatter - settings documented as
 temporary were kept, and streaming before any input read an uninitialised
 flag

---
 ecl_formatters/include/ecl/formatters/strings.hpp | 15 ++++++++++-----
 ecl_formatters/src/lib/strings.cpp                |  9 ++++++---
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index c4832c4..445ab04 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),tmp_width_(w),tmp_alignment_(a),tmp_formatting_(false),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
@@ -131,6 +131,9 @@ class ecl_formatters_PUBLIC Format<std::string> {
         *******************************************/
         int width_;
         Alignment alignment_;
+        int tmp_width_;
+        Alignment tmp_alignment_;
+        bool tmp_formatting_;
         bool ready_to_format;
         std::string s;
 
@@ -173,18 +176,19 @@ class ecl_formatters_PUBLIC Format<std::string> {
 template <typename OutputStream>
 void Format<std::string>::format(OutputStream &ostream) const
 {
+    const int width = tmp_formatting_ ? tmp_width_ : width_;
     int size = s.size();
 
-    prePad(width_ - (size),ostream); // previously had (size+2) here...why?
+    prePad(width - (size),ostream); // previously had (size+2) here...why?
     ostream << s;
-    postPad(width_ - (size),ostream);
+    postPad(width - (size),ostream);
 }
 
 template <typename OutputStream>
 void Format<std::string>::prePad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( tmp_formatting_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { break; }
@@ -197,7 +201,7 @@ template <typename OutputStream>
 void Format<std::string>::postPad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( tmp_formatting_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { pad(n,ostream); break; }
@@ -232,6 +236,7 @@ OutputStream& operator << (OutputStream &ostream, Format<std::string>& formatter
 
     if ( ready ) {
         formatter.format(ostream);
+        formatter.tmp_formatting_ = false;
         formatter.ready_to_format = false;
     }
 
diff --git a/ecl_formatters/src/lib/strings.cpp b/ecl_formatters/src/lib/strings.cpp
index fe0a763..860b79c 100644
--- a/ecl_formatters/src/lib/strings.cpp
+++ b/ecl_formatters/src/lib/strings.cpp
@@ -47,15 +47,18 @@ Format<std::string>& Format<std::string>::operator()(const std::string &input_st
 *****************************************************************************/
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w)
 {
-    width(w);
+    tmp_width_ = w;
+    tmp_alignment_ = alignment_;
+    tmp_formatting_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
 }
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w, Alignment a)
 {
-    width(w);
-    align(a);
+    tmp_width_ = w;
+    tmp_alignment_ = a;
+    tmp_formatting_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
-- 
2.43.0


From f2a694de2766d83f761dee231ebb8a1f6fce83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 021/128] fix: integer to char string - converting the most
 negative number overflowed

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7445cf3..72499fb 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -146,7 +146,7 @@ char* convertSignedIntegral(const Number &number, char* buffer_begin, char* buff
     if ( number >= 0 ) {
         s = convertUnsignedIntegral(static_cast<UnsignedNumber>(number),buffer_begin,buffer_end);
     } else {
-        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(-1*number),buffer_begin+1,buffer_end);
+        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(UnsignedNumber(0) - static_cast<UnsignedNumber>(number)),buffer_begin+1,buffer_end);
         if (s == NULL) {
           return NULL;
         }
-- 
2.43.0


From 6e1875d30bb6e840a53176430c6f7df583465df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 022/128] fix: char to char string - negative characters were
 converted to garbage

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 72499fb..7cfd724 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -211,7 +211,7 @@ class Converter<char*,char> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const char &input) {
-            return converters::convertUnsignedIntegral(input,this->buffer_begin,this->buffer_end);
+            return converters::convertSignedIntegral(input,this->buffer_begin,this->buffer_end);
         }
 };
 /*****************************************************************************
-- 
2.43.0


From ae84b0e190e6e2b8fc49efba052c3c882460e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 023/128] fix: char string buffer - a failed allocation was
 written to before it was reported

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7cfd724..349196f 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -76,12 +76,14 @@ class CharStringBuffer : public ConverterBase {
          **/
         CharStringBuffer(int buffer_size = 250) : delete_buffer(true) {
            	buffer_begin = new (std::nothrow) char[buffer_size];
-            *(buffer_begin + buffer_size - 1) = '\0';
-            buffer_end = buffer_begin + buffer_size - 1;
            	if ( buffer_begin == NULL ) {
+           		buffer_end = NULL;
            		ecl_debug_throw(ecl::StandardException(LOC,ecl::MemoryError,"Failed to allocate memory for the char string buffer."));
            		error_handler = ecl::MemoryError;
+           		return;
            	}
+            buffer_end = buffer_begin + buffer_size - 1;
+            *buffer_end = '\0';
         }
         /**
          * Default destructor. If a buffer was initialised by this object, it is deleted.
-- 
2.43.0


From 3ca82ebd5212ec735159d1f9f6586b6b3594299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 024/128] fix: number formatter - setting a temporary width
 read an uninitialised alignment

---
 ecl_formatters/include/ecl/formatters/number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d2e6cb4..3521aa3 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -156,7 +156,7 @@ class FormatNumber {
         ** Paramaters
         *******************************************/
         int prm_width, tmp_width;
-        ecl::Alignment prm_alignment, tmp_alignment;
+        ecl::Alignment prm_alignment, tmp_alignment{};
         ecl::IntegralBase prm_base, tmp_base;
         int *width_;
         ecl::Alignment *alignment_; IntegralBase *base_;
-- 
2.43.0


From 83f41e63ba274b14a185817645e9ee3302d052bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 025/128] fix: float formatter - temporary settings permanently
 changed the alignment

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index d554af2..50a4d89 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -339,12 +339,12 @@ template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, const unsigned int p, const int w, const ecl::Alignment a, const ecl::FloatBase b)
 {
     width_ = &tmp_width;
+    alignment_ = &tmp_alignment;
     width(w);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
     align(a);
 
     base_ = &tmp_base;
-- 
2.43.0


From cc631b0657db4c25c8fcc6422b078432c474e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 026/128] fix: covariance ellipse - the intercept with the y
 axis was wrong

---
 ecl_statistics/src/lib/covariance_ellipsoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 81fdf9d..b820eb0 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -123,7 +123,7 @@ Vector2f CovarianceEllipsoid<float,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2f( (ellipse_lengths(0)/ellipse_lengths(1)), tanf(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*sinf(angle));
+	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*cosf(angle));
 
 	return intercept_magnitudes;
 }
@@ -219,7 +219,7 @@ Vector2d CovarianceEllipsoid<double,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2( (ellipse_lengths(0)/ellipse_lengths(1)), tan(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*sin(angle));
+	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*cos(angle));
 
 	return intercept_magnitudes;
 }
-- 
2.43.0


From f8df3b79eb96c488f21513a40a96aa21867c5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 027/128] fix: covariance ellipse - cancellation returned wrong
 axes for nearly uncorrelated covariances and nan lengths for nearly equal
 variances

---
 .../src/lib/covariance_ellipsoid.cpp          | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index b820eb0..ec9fa18 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -55,7 +55,8 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	float c = M(1,0);
 	float d = M(1,1);
 
-	float tmp = sqrtf((a+d)*(a+d)/4 - a*d + b*c);
+	float h = (a-d)/2;
+	float tmp = sqrtf(h*h + b*c);
     ellipse_lengths << sqrtf((a+d)/2 + tmp), sqrtf((a+d)/2 - tmp);
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
@@ -65,10 +66,15 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
-        ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
-        ellipse_axes(1,1) = c;
+        // the forms that do not cancel when c is much smaller than a - d
+        float sign = ( c > 0 ) ? 1 : -1;
+        if ( h >= 0 ) {
+            ellipse_axes << h + tmp, -sign*b,
+                            c,       sign*(h + tmp);
+        } else {
+            ellipse_axes << sign*b,         h - tmp,
+                            sign*(tmp - h), c;
+        }
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
     	ellipse_axes(1,0) = ellipse_lengths(0)*ellipse_lengths(0)-a;
@@ -151,7 +157,8 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	double c = M(1,0);
 	double d = M(1,1);
 
-    double tmp = sqrt((a+d)*(a+d)/4 - a*d + b*c);
+    double h = (a-d)/2;
+    double tmp = sqrt(h*h + b*c);
     ellipse_lengths << sqrt((a+d)/2 + tmp), sqrt((a+d)/2 - tmp);
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
@@ -161,10 +168,15 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
-        ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
-        ellipse_axes(1,1) = c;
+        // the forms that do not cancel when c is much smaller than a - d
+        double sign = ( c > 0 ) ? 1 : -1;
+        if ( h >= 0 ) {
+            ellipse_axes << h + tmp, -sign*b,
+                            c,       sign*(h + tmp);
+        } else {
+            ellipse_axes << sign*b,         h - tmp,
+                            sign*(tmp - h), c;
+        }
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
     	ellipse_axes(1,0) = ellipse_lengths(0)*ellipse_lengths(0)-a;
-- 
2.43.0


From 30168ed3060da4bb6ce9f67a381702f91d158dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 028/128] fix: trajectory - the duration was uninitialised
 before an interpolation

---
 ecl_manipulators/include/ecl/manipulators/trajectory.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
index a1814aa..e0f31df 100644
--- a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
@@ -91,7 +91,8 @@ class Trajectory<JointAngles> {
          * @param name_identifier : string identifier for the trajectory name.
          */
         Trajectory(const char* name_identifier = "") :
-            name(name_identifier)
+            name(name_identifier),
+            trajectory_duration(0.0)
         {}
         /**
          * @brief Configures the joint dimension, and also (optionally) the trajectory name.
@@ -102,7 +103,8 @@ class Trajectory<JointAngles> {
         Trajectory(const unsigned int& dimension, const char* name_identifier = "") :
             name(name_identifier),
             spline_functions(dimension),
-            max_accelerations(Array<double>::Constant(dimension,0.0))
+            max_accelerations(Array<double>::Constant(dimension,0.0)),
+            trajectory_duration(0.0)
         {}
 
         /**
-- 
2.43.0


From 70b2a472761afa757d467846fca8d1b4b7737189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 029/128] fix: trajectory - the linear spline interpolation
 missed the configured final rate (the last pseudo point was placed with a
 different pull forward than the one tested)

---
 ecl_manipulators/src/lib/trajectory.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 93b36b7..950afec 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -643,7 +643,10 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
         }
       }
     }
-    t_pullback = t_pullback * 2; // takes 11 runs to get from 1ms to 1s; adjust, if this is too much
+    if (acceleration_constraint_broken)
+    {
+      t_pullback = t_pullback * 2; // takes 11 runs to get from 1ms to 1s; adjust, if this is too much
+    }
   }
   if (acceleration_constraint_broken)
   {
@@ -725,7 +728,10 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
         }
       }
     }
-    t_pullforward = t_pullforward * 2; // takes 12 runs to get from 1ms to 1s, adjust, if this is too much
+    if (acceleration_constraint_broken)
+    {
+      t_pullforward = t_pullforward * 2; // takes 12 runs to get from 1ms to 1s, adjust, if this is too much
+    }
   }
   if (acceleration_constraint_broken)
   {
-- 
2.43.0


From 364e1a401778d423beef969f22a1a6c5ca92e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 030/128] fix: trajectory - copies shared and then twice
 deleted the interpolated functions

---
 .../include/ecl/manipulators/trajectory.hpp   |  3 ++-
 ecl_manipulators/src/lib/trajectory.cpp       | 24 +++++++------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
index e0f31df..2c2e0af 100644
--- a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
@@ -18,6 +18,7 @@
 
 #include <iostream>
 #include <cmath>
+#include <memory>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -338,7 +339,7 @@ class Trajectory<JointAngles> {
 
     private:
         std::vector< WayPoint<JointAngles> > waypoints;
-        Array< std::vector<GenericSplineFunction*> > spline_functions;
+        Array< std::vector< std::shared_ptr<GenericSplineFunction> > > spline_functions;
         Array< double> max_accelerations;
         double trajectory_duration;
 
diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 950afec..9d071ba 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -58,7 +58,7 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
   clearSplines(); // Clean up any pre-existing definition.
   for (unsigned int j = 0; j < dimension(); ++j)
   {
-    spline_functions[j].resize(3, NULL);
+    spline_functions[j].resize(3);
   }
   Array<TensionSpline> tension_splines(dimension());
   Array<QuinticPolynomial> leading_quintics(dimension()), trailing_quintics(dimension());
@@ -271,11 +271,11 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
   trajectory_duration = trailing_quintic_time_f;
   for (unsigned int j = 0; j < dimension(); ++j)
   {
-    spline_functions[j][0] = new SplineFunction<QuinticPolynomial>(0.0, leading_quintic_time, leading_quintics[j]);
-    spline_functions[j][1] = new SplineFunction<TensionSpline>(leading_quintic_time, trailing_quintic_time_0,
-                                                               tension_splines[j]);
-    spline_functions[j][2] = new SplineFunction<QuinticPolynomial>(trailing_quintic_time_0, trailing_quintic_time_f,
-                                                                   trailing_quintics[j]);
+    spline_functions[j][0].reset(new SplineFunction<QuinticPolynomial>(0.0, leading_quintic_time, leading_quintics[j]));
+    spline_functions[j][1].reset(new SplineFunction<TensionSpline>(leading_quintic_time, trailing_quintic_time_0,
+                                                               tension_splines[j]));
+    spline_functions[j][2].reset(new SplineFunction<QuinticPolynomial>(trailing_quintic_time_0, trailing_quintic_time_f,
+                                                                   trailing_quintics[j]));
   }
   (void) result; // for unused variable warnings, in case the asserts weren't triggered
 }
@@ -298,7 +298,7 @@ void Trajectory<JointAngles>::linearSplineInterpolation()
   clearSplines(); // Clean up any pre-existing definition.
   for (unsigned int j = 0; j < dimension(); ++j)
   {
-    spline_functions[j].resize(1, NULL);
+    spline_functions[j].resize(1);
   }
   Array<SmoothLinearSpline> splines(dimension());
 
@@ -368,7 +368,7 @@ void Trajectory<JointAngles>::linearSplineInterpolation()
   trajectory_duration = splines[0].domain().back() - splines[0].domain().front();
   for (unsigned int j = 0; j < dimension(); ++j)
   {
-    spline_functions[j][0] = new SplineFunction<SmoothLinearSpline>(0.0, splines[j].domain().back(), splines[j]);
+    spline_functions[j][0].reset(new SplineFunction<SmoothLinearSpline>(0.0, splines[j].domain().back(), splines[j]));
   }
 }
 
@@ -499,14 +499,6 @@ void Trajectory<JointAngles>::clearSplines()
 {
   for (unsigned int joint = 0; joint < dimension(); ++joint)
   {
-    for (unsigned int function = 0; function < spline_functions[joint].size(); ++function)
-    {
-      if (spline_functions[joint][function] != NULL)
-      {
-        delete spline_functions[joint][function];
-        spline_functions[joint][function] = NULL;
-      }
-    }
     spline_functions[joint].clear();
   }
 }
-- 
2.43.0


From a9a945db60a428b4d5fcbe3887f2c23b9d9b441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 031/128] fix: trajectory - tension spline interpolation jumped
 where the leading polynomial joins, when the last segment had to be stretched

---
 ecl_manipulators/src/lib/trajectory.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 9d071ba..fb8d0b6 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -62,6 +62,14 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
   }
   Array<TensionSpline> tension_splines(dimension());
   Array<QuinticPolynomial> leading_quintics(dimension()), trailing_quintics(dimension());
+  double leading_quintic_time, trailing_quintic_time_0, trailing_quintic_time_f;
+  bool durations_changed;
+
+  // Stretching the first or last duration changes the whole tension spline,
+  // so everything fitted to it before has to be checked and fitted again.
+  do
+  {
+  durations_changed = false;
 
   /******************************************
    ** Roughly Generate Tension Spline
@@ -130,7 +138,7 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
   /******************************************
    ** Make the pre pseudo point.
    *******************************************/
-  double leading_quintic_time = 0.0;
+  leading_quintic_time = 0.0;
   bool quintic_constrained = false;
   while (!quintic_constrained)
   {
@@ -189,6 +197,7 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
       { // give up, go back to start of while loop with increased duration
 //				std::cout << "Quintic unconstrained, increasing the first duration : " << waypoints[0].duration() << std::endl;
         waypoints[0].duration(waypoints[0].duration() * 1.1); // 10% increase
+        durations_changed = true;
         break; // from the for loop
       }
     }
@@ -197,8 +206,8 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
   /******************************************
    ** Make the post pseudo point.
    *******************************************/
-  double trailing_quintic_time_0 = 0.0;
-  double trailing_quintic_time_f = 0.0;
+  trailing_quintic_time_0 = 0.0;
+  trailing_quintic_time_f = 0.0;
   quintic_constrained = false;
   while (!quintic_constrained)
   {
@@ -255,10 +264,12 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
       if (!quintic_constrained)
       { // give up, go back to start of while loop with increased duration
         waypoints[n - 1].duration(waypoints[n - 1].duration() * 1.1); // 10% increase
+        durations_changed = true;
         break;
       }
     }
   }
+  } while (durations_changed);
 
   /*********************
    ** Debugging
-- 
2.43.0


From e205892fb736128a904a39301eae39d2f70b11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 032/128] fix: trajectory - the linear interpolation never
 returned when the final rate could not be reached within the last segment
 (the first segment was stretched instead)

---
 ecl_manipulators/src/lib/trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index fb8d0b6..6795c2d 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -738,7 +738,7 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
   }
   if (acceleration_constraint_broken)
   {
-    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by pre pseudo point.", 0);
+    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by post pseudo point.", n + 2);
   }
   post_pseudo_waypoint.duration(t_pullforward - t_post_intersect_duration);
   for (unsigned int j = 0; j < dimension(); ++j)
-- 
2.43.0


From 0f8e7fa160a809412884c37fe682262bab8f00a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:25 +0000
Subject: [PATCH 033/128] fix: float container formatter - asking for the
 precision did not compile

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 50a4d89..901f468 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -130,7 +130,7 @@ public:
 	 * @brief Returns the current precision setting.
 	 * @return int : the precision value.
 	 */
-	int precision() { return *precision_; }
+	int precision() const { return *precision_; }
 
 	/**
 	 * @brief Returns the current precision setting.
-- 
2.43.0


From fb3e3d2ec6d74dfea9a58207525c5871da7c78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:27 +0000
Subject: [PATCH 034/128] fix: stencil - comma initialisation did not compile

---
 ecl_containers/include/ecl/containers/stencil/stencil.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index c3f8d30..7aad988 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -203,9 +203,9 @@ public:
    * @param value : the first value to enter , ElementType, ArraySizeinto the array.
    * @return BoundedListInitialiser : the comma initialiser mechanism.
    */
-  containers::BoundedListInitialiser<value_type,value_type*> operator<< (const value_type &value)
+  containers::BoundedListInitialiser<value_type,iterator> operator<< (const value_type &value)
   {
-    return containers::BoundedListInitialiser<value_type,iterator>(value, begin, size());
+    return containers::BoundedListInitialiser<value_type,iterator>(value, begin(), size());
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
-- 
2.43.0


From 55073bcd8139ff675c378e6a2dd2fe351fe1c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 035/128] fix: assigning a dynamic array to itself destroyed
 its elements

---
 .../include/ecl/containers/array/array_dynamic_mem_check.hpp     | 1 +
 .../include/ecl/containers/array/array_dynamic_no_mem_check.hpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6c36486..6d5d4c2 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -255,6 +255,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) { return; }
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 539443d..b7dd704 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -242,6 +242,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) { return; }
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
-- 
2.43.0


From 68622cdd74f42e7536e3a3fefc2706c70b3ca4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 036/128] fix: constant array blueprints kept a dangling
 reference to their value

---
 ecl_containers/include/ecl/containers/array/array_mem_check.hpp | 2 +-
 .../include/ecl/containers/array/array_no_mem_check.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
index d9c53ee..bb24e61 100644
--- a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
@@ -592,7 +592,7 @@ class ConstantArray : public ArrayBluePrint< ConstantArray<Type, Size> > {
         }
 
     private:
-        const Type& val;
+        Type val;
 };
 
 /**
diff --git a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
index 9f3562f..7799ed9 100644
--- a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
@@ -498,7 +498,7 @@ class ConstantArray : public ArrayBluePrint< ConstantArray<Type, Size> > {
         }
 
     private:
-        const Type& val;
+        Type val;
 };
 
 /**
-- 
2.43.0


From 48b97156f70c7034b92b1d18d656f5a79b76f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:54 +0000
Subject: [PATCH 037/128] fix: the upper bound of an array window overflowed
 for large window sizes

---
 .../include/ecl/containers/array/array_dynamic_mem_check.hpp    | 2 +-
 .../include/ecl/containers/array/array_dynamic_no_mem_check.hpp | 2 +-
 ecl_containers/include/ecl/containers/array/array_mem_check.hpp | 2 +-
 .../include/ecl/containers/array/array_no_mem_check.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6d5d4c2..d9dd462 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -408,7 +408,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          */
         Stencil< Array<Type,DynamicStorage> > stencil(const unsigned int& start_index, const unsigned int& n) {
         	ecl_assert_throw(start_index < size(), StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying array size."));
-        	ecl_assert_throw(start_index+n <= size(), StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
+        	ecl_assert_throw(n <= size() - start_index, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
         	return Stencil< Array<Type,DynamicStorage> >(*this, begin()+start_index, begin()+start_index+n);
         }
         /**
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index b7dd704..e398dad 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -395,7 +395,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          */
         Stencil< Array<Type,DynamicStorage> > stencil(const unsigned int& start_index, const unsigned int& n) {
         	ecl_assert_throw(start_index < size(), StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying array size."));
-        	ecl_assert_throw(start_index+n <= size(), StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
+        	ecl_assert_throw(n <= size() - start_index, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
         	return Stencil< Array<Type,DynamicStorage> >(*this, begin()+start_index, begin()+start_index+n);
         }
         /**
diff --git a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
index bb24e61..5d64430 100644
--- a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
@@ -263,7 +263,7 @@ class ECL_PUBLIC Array : public blueprints::ArrayFactory<Type,Size> {
          */
         Stencil< Array<Type,Size> > stencil(const unsigned int& start_index, const unsigned int& n) {
         	ecl_assert_throw(start_index < Size, StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying array size."));
-        	ecl_assert_throw(start_index+n <= Size, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
+        	ecl_assert_throw(n <= Size - start_index, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
         	return Stencil< Array<Type,Size> >(*this, begin()+start_index, begin()+start_index+n);
         }
         /**
diff --git a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
index 7799ed9..1295e90 100644
--- a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
@@ -262,7 +262,7 @@ class ECL_PUBLIC Array : public blueprints::ArrayFactory<Type,Size> {
          */
         Stencil< Array<Type,Size> > stencil(const unsigned int& start_index, const unsigned int& n) {
         	ecl_assert_throw(start_index < Size, StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying array size."));
-        	ecl_assert_throw(start_index+n <= Size, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
+        	ecl_assert_throw(n <= Size - start_index, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
         	return Stencil< Array<Type,Size> >(*this, begin()+start_index, begin()+start_index+n);
         }
 
-- 
2.43.0


From fab8d1eb50d73fba3602cb6867fcbef0482b4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:17 +0000
Subject: [PATCH 038/128] fix: stencils refused the first element of the
 container and accepted the one past the end

---
 .../ecl/containers/stencil/specialisations.hpp   | 16 ++++++++--------
 .../include/ecl/containers/stencil/stencil.hpp   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 8bcbdbd..e37cba1 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -330,7 +330,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -347,7 +347,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -362,7 +362,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -386,7 +386,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -723,7 +723,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -740,7 +740,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -755,7 +755,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -779,7 +779,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index 7aad988..b7c0dca 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -398,7 +398,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -415,7 +415,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -430,7 +430,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array.begin() )
+    if ( b_iter+i < array.begin() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -454,7 +454,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array.begin() )
+    if ( b_iter+i < array.begin() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-- 
2.43.0


From e74051e98dea0dc2a0ec7b8a789f75f30bbafd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 039/128] fix: a copied float container formatter read the
 width of the original

---
 .../include/ecl/containers/common/formatters.hpp    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 9f07252..113b5e9 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -81,7 +81,7 @@ class ECL_LOCAL FloatContainerFormatter {
             old_precision(-1),
             tmp_width(-1),
             prm_width(w),
-            width_ptr(&prm_width),
+            temporary_width(false),
             format(w,p,ecl::RightAlign,ecl::Fixed),
             container(NULL),
             ready_to_format(false)
@@ -154,7 +154,7 @@ class ECL_LOCAL FloatContainerFormatter {
             old_precision = format.precision();
             format.precision(p);
             tmp_width = w;
-            width_ptr = &tmp_width;
+            temporary_width = true;
             return *this;
         } //temporary
 
@@ -175,7 +175,7 @@ class ECL_LOCAL FloatContainerFormatter {
 
         int old_precision;
         int tmp_width, prm_width;
-        int* width_ptr;
+        bool temporary_width;
         Format< value_type > format;
         const Container *container;
         bool ready_to_format;
@@ -220,7 +220,8 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "C++ produces unspecified results when functors are used multiply "
             "in the same stream sequence, so this is not permitted here.") );
 
-    if ( *(formatter.width_ptr) == -1 ) {
+    const int width = formatter.temporary_width ? formatter.tmp_width : formatter.prm_width;
+    if ( width == -1 ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
@@ -240,7 +241,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         **********************/
         formatter.format.width(formatter.digits(min_coeff,max_coeff));
     } else {
-        formatter.format.width(*(formatter.width_ptr));
+        formatter.format.width(width);
     }
 
     /*********************
@@ -261,7 +262,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         formatter.old_precision = -1;
 
     }
-    formatter.width_ptr = &(formatter.prm_width);
+    formatter.temporary_width = false;
     formatter.ready_to_format = false;
 
     ostream.flush();
-- 
2.43.0


From a926e8ba7387ec5a217b3681419a6ea0eaa9152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 040/128] fix: resizing a dynamic push and pop queue left its
 indices pointing into the old storage

---
 .../include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index 22883b8..cdcc31f 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -251,6 +251,7 @@ public:
     size_fifo = length+1;
     ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
     data.resize( size_fifo );
+    clear();
   }
 
   /**
-- 
2.43.0


From b0da659a9a3a7e0092964e5a880d5a9f7e047f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:19 +0000
Subject: [PATCH 041/128] fix: copying a dynamic push and pop queue of another
 length ran out of bounds

---
 .../ecl/containers/push_and_pop/push_and_pop_dynamic.hpp    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index cdcc31f..c307548 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -209,10 +209,8 @@ public:
   {
     leader = otherOne.leader;
     follower = otherOne.follower;
-    for( int i=0; i<size_fifo; i++ )
-    {
-      data[i] = otherOne.data[i];
-    }
+    size_fifo = otherOne.size_fifo;
+    data = otherOne.data;
   }
 
   /**
-- 
2.43.0


From 400b958de45cc13944a2f65a4b266b0993f27558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:19 +0000
Subject: [PATCH 042/128] fix: resizing a fifo left its running index beyond
 the new storage

---
 ecl_containers/include/ecl/containers/fifo.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_containers/include/ecl/containers/fifo.hpp b/ecl_containers/include/ecl/containers/fifo.hpp
index 2dddcc8..4c3e241 100644
--- a/ecl_containers/include/ecl/containers/fifo.hpp
+++ b/ecl_containers/include/ecl/containers/fifo.hpp
@@ -168,6 +168,7 @@ public:
 		size_fifo = length;
 		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
 		data.resize( size_fifo );
+		running_index = 0;
 	}
 
 private:
-- 
2.43.0


From 7da3eab3993fdd3548494bb19c38d8366848177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 043/128] fix: memory checked dynamic arrays misaligned their
 elements and never constructed them

---
 .../array/array_dynamic_mem_check.hpp         | 64 +++++++++----------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index d9dd462..78706f7 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -19,6 +19,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include <cstdio>
+#include <new>
 #include <ecl/config/macros.hpp>
 #include <ecl/utilities/blueprints.hpp>
 #include "../definitions.hpp"
@@ -167,15 +168,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         		buffer(NULL),
         		overrun(NULL)
 			{
-        	underrun = (char*) malloc(buffer_size*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
-        	ecl_assert_throw(underrun != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
-        	buffer = (Type*) (underrun+bufferUnderrunLength());
-        	overrun = (char*) underrun+bufferUnderrunLength()+buffer_size*sizeof(Type);
-        	// Leave it uninitialised, just like eigen containers...faster
-//        	for ( unsigned int i = 0; i < buffer_size; ++i ) {
-//        		buffer[i] = Type();
-//        	}
-			initialiseMagicSections();
+        	allocate();
         };
         /**
          * @brief Copy constructor.
@@ -227,12 +220,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          **/
         ~Array() {
 
-            if ( underrun != NULL ) {
-                free(underrun);
-            }
-            underrun = NULL;
-            buffer = NULL;
-            overrun = NULL;
+            release();
         }
         /*********************
         ** Assignment
@@ -495,19 +483,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n )  {
-        	if ( underrun != NULL ) {
-        		free(underrun);
-        	}
+        	release();
             buffer_size = n;
-        	underrun = (char*) malloc(buffer_size*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
-        	ecl_assert_throw(underrun != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
-        	buffer = (Type*) (underrun+bufferUnderrunLength());
-        	overrun = (char*) underrun+bufferUnderrunLength()+buffer_size*sizeof(Type);
-        	// Leave it uninitialised, just like eigen containers...faster
-//        	for ( unsigned int i = 0; i < buffer_size; ++i ) {
-//        		buffer[i] = Type();
-//        	}
-            initialiseMagicSections();
+            allocate();
         }
         /**
          * @brief Clear the array, deleting all storage space previously allocated.
@@ -515,12 +493,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * Clear the array, deleting all storage space previously allocated.
          */
         void clear() {
-        	if ( underrun != NULL ) {
-        		free(underrun);
-        		underrun = NULL;
-        		buffer = NULL;
-        		overrun = NULL;
-        	}
+        	release();
             buffer_size = 0;
         }
 
@@ -547,6 +520,31 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
     private:
         void initialiseMagicSections();
 
+        /* The elements start on a boundary suitable for any type, the magic bytes directly before and after them. */
+        static std::size_t headerLength() { return 16; }
+        void allocate() {
+        	char *memory = (char*) malloc(headerLength()+buffer_size*sizeof(Type)+bufferOverrunLength());
+        	ecl_assert_throw(memory != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
+        	underrun = memory+headerLength()-bufferUnderrunLength();
+        	buffer = (Type*) (memory+headerLength());
+        	overrun = memory+headerLength()+buffer_size*sizeof(Type);
+        	for ( unsigned int i = 0; i < buffer_size; ++i ) {
+        		new (buffer+i) Type; // fundamental types are left uninitialised, just like eigen containers...faster
+        	}
+        	initialiseMagicSections();
+        }
+        void release() {
+        	if ( underrun != NULL ) {
+        		for ( unsigned int i = 0; i < buffer_size; ++i ) {
+        			buffer[i].~Type();
+        		}
+        		free(underrun+bufferUnderrunLength()-headerLength());
+        		underrun = NULL;
+        		buffer = NULL;
+        		overrun = NULL;
+        	}
+        }
+
          static const unsigned int& bufferOverrunLength() {
             static const unsigned int buffer_overrun_length = 4;
             return buffer_overrun_length;
-- 
2.43.0


From 231b91d97243b964eadd8bef14ff7df0ef25b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:21 +0000
Subject: [PATCH 044/128] fix: copied number and float formatters shared the
 parameters of the formatter they were copied from

---
 .../include/ecl/formatters/floats.hpp         | 28 +++++++++++++++++++
 .../include/ecl/formatters/number.hpp         | 24 ++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 901f468..93ef3c2 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -80,6 +80,8 @@ public:
 		alignment_(&prm_alignment),
 		base_(&prm_base),
 		ready_to_format(false) {}
+	FormatFloat(const FormatFloat<Number> &other) { copy(other); }
+	FormatFloat<Number>& operator=(const FormatFloat<Number> &other) { if ( this != &other ) { copy(other); } return *this; }
 
 	virtual ~FormatFloat() {}
 
@@ -222,6 +224,32 @@ protected:
 	bool ready_to_format;
 	Number value_;
 
+	/* Copies refer to their own parameters, not to those of the formatter they were copied from. */
+	void copy(const FormatFloat<Number> &other) {
+		prm_width = other.prm_width;
+		prm_precision = other.prm_precision;
+		prm_alignment = other.prm_alignment;
+		prm_base = other.prm_base;
+		width_ = &prm_width;
+		precision_ = &prm_precision;
+		alignment_ = &prm_alignment;
+		base_ = &prm_base;
+		ready_to_format = other.ready_to_format;
+		if ( ready_to_format ) {
+			value_ = other.value_;
+			if ( other.width_ == &other.tmp_width ) {
+				tmp_width = other.tmp_width;
+				tmp_precision = other.tmp_precision;
+				tmp_alignment = other.tmp_alignment;
+				tmp_base = other.tmp_base;
+				width_ = &tmp_width;
+				precision_ = &tmp_precision;
+				alignment_ = &tmp_alignment;
+				base_ = &tmp_base;
+			}
+		}
+	}
+
 	/******************************************
 	** Padding
 	*******************************************/
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index 3521aa3..2213c44 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -66,6 +66,8 @@ class FormatNumber {
          * @param b : the base format for the integral representation (default - decimal)
          **/
         FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false) {}
+        FormatNumber(const FormatNumber<Number> &other) { copy(other); }
+        FormatNumber<Number>& operator=(const FormatNumber<Number> &other) { if ( this != &other ) { copy(other); } return *this; }
 
         virtual ~FormatNumber() {}
 
@@ -163,6 +165,28 @@ class FormatNumber {
         bool ready_to_format;
         Number value_;
 
+        /* Copies refer to their own parameters, not to those of the formatter they were copied from. */
+        void copy(const FormatNumber<Number> &other) {
+            prm_width = other.prm_width;
+            prm_alignment = other.prm_alignment;
+            prm_base = other.prm_base;
+            width_ = &prm_width;
+            alignment_ = &prm_alignment;
+            base_ = &prm_base;
+            ready_to_format = other.ready_to_format;
+            if ( ready_to_format ) {
+                value_ = other.value_;
+                if ( other.width_ == &other.tmp_width ) {
+                    tmp_width = other.tmp_width;
+                    tmp_alignment = other.tmp_alignment;
+                    tmp_base = other.tmp_base;
+                    width_ = &tmp_width;
+                    alignment_ = &tmp_alignment;
+                    base_ = &tmp_base;
+                }
+            }
+        }
+
         /******************************************
         ** Padding
         *******************************************/
-- 
2.43.0


From 775139a52c76323efa7c06b1d6ad7e3b97325671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:18 +0000
Subject: [PATCH 045/128] fix: bytes beyond the third were shifted as ints when
 converting byte arrays to larger integers

---
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index 54cefbf..a2cab18 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -92,7 +92,7 @@ public:
     typename ecl::Unsigned<Integral>::type unsigned_value = 0;
     for (unsigned int i = 0; i < byte_array.size(); ++i)
     {
-      unsigned_value |= static_cast<unsigned char>(byte_array[i]) << 8 * i;
+      unsigned_value |= static_cast<typename ecl::Unsigned<Integral>::type>(static_cast<unsigned char>(byte_array[i])) << 8 * i;
     }
     if (ecl::is_signed<Integral>::value)
     {
-- 
2.43.0


From 4b82280b00351aea1530267a859b5a40e1d493f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 046/128] fix: converting a byte array longer than the integer
 shifted beyond the width of its type

---
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index a2cab18..afcedb5 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -90,7 +90,7 @@ public:
      ** Method
      **********************/
     typename ecl::Unsigned<Integral>::type unsigned_value = 0;
-    for (unsigned int i = 0; i < byte_array.size(); ++i)
+    for (unsigned int i = 0; (i < byte_array.size()) && (i < ecl::numeric_limits<Integral>::bytes); ++i)
     {
       unsigned_value |= static_cast<typename ecl::Unsigned<Integral>::type>(static_cast<unsigned char>(byte_array[i])) << 8 * i;
     }
-- 
2.43.0


From 55f8ad9c0305dee7964f0c5938cbba9603ab5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 047/128] fix: the smallest int was not converted to a string
 correctly

---
 ecl_converters/include/ecl/converters/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/string.hpp b/ecl_converters/include/ecl/converters/string.hpp
index eb9d79b..3531b4e 100644
--- a/ecl_converters/include/ecl/converters/string.hpp
+++ b/ecl_converters/include/ecl/converters/string.hpp
@@ -73,14 +73,14 @@ public:
 			char_string = buffer + 30;
 		#endif
 		*char_string = '\0';
-		int remaining = input;
+		unsigned int remaining = static_cast<unsigned int>(input);
 		unsigned int lsd;
 		/*********************
 		** Fix sign
 		**********************/
-		if (remaining < 0 ) {
+		if (input < 0 ) {
 			negative = true;
-			remaining *= -1;
+			remaining = 0u - remaining;
 		}
 		do
 		{
-- 
2.43.0


From 7013d776e1f7c9094584023a34716c0964130d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 048/128] fix: failed conversions of strings to int did not
 return INT_MIN as documented

---
 ecl_converters/include/ecl/converters/integers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/integers.hpp b/ecl_converters/include/ecl/converters/integers.hpp
index f8fc62d..d6cfa0a 100644
--- a/ecl_converters/include/ecl/converters/integers.hpp
+++ b/ecl_converters/include/ecl/converters/integers.hpp
@@ -18,6 +18,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <limits>
 #include <string>
 #include <sstream>
 #include <ecl/exceptions/standard_exception.hpp>
@@ -61,6 +62,7 @@ public:
 		if ( !( stream >> i ) || (stream.get(c))) { // Second part checks that there isn't leftover characters
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return std::numeric_limits<int>::min();
 		}
 		return i;
 	}
-- 
2.43.0


From 25a60c6b4914fb24b7b9a4f75fe450880345d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 049/128] fix: hex strings ending in the middle of a byte were
 accepted

---
 ecl_converters/include/ecl/converters/to_byte_array.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/to_byte_array.hpp b/ecl_converters/include/ecl/converters/to_byte_array.hpp
index 3cc8c40..dbb9adb 100644
--- a/ecl_converters/include/ecl/converters/to_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/to_byte_array.hpp
@@ -385,6 +385,12 @@ public:
       }
       ++input;
     }
+    if (state != waiting_zero)
+    {
+      ecl_debug_throw(StandardException(LOC,ConversionError));
+      error_handler = ConversionError;
+      bytes.clear();
+    }
     return bytes;
   }
   ;
-- 
2.43.0


From 0fb3e6feb0686d66e85d2572992702eaa7212f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 050/128] fix: copies of a char string converter deleted the
 same internal buffer

---
 .../include/ecl/converters/char_strings.hpp   | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 349196f..f26beda 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -85,6 +85,20 @@ class CharStringBuffer : public ConverterBase {
             buffer_end = buffer_begin + buffer_size - 1;
             *buffer_end = '\0';
         }
+        /**
+         * A copy of a converter with an internal buffer has an internal buffer of its own.
+         **/
+        CharStringBuffer(const CharStringBuffer &other) : ConverterBase(other), buffer_begin(NULL), buffer_end(NULL), delete_buffer(false) { copy(other); }
+        CharStringBuffer& operator=(const CharStringBuffer &other) {
+            if ( this != &other ) {
+                if(delete_buffer) {
+                    delete[] buffer_begin;
+                }
+                ConverterBase::operator=(other);
+                copy(other);
+            }
+            return *this;
+        }
         /**
          * Default destructor. If a buffer was initialised by this object, it is deleted.
          **/
@@ -98,6 +112,20 @@ class CharStringBuffer : public ConverterBase {
         char *buffer_begin;
         char *buffer_end;
         bool delete_buffer;
+
+    private:
+        void copy(const CharStringBuffer &other) {
+            delete_buffer = other.delete_buffer && ( other.buffer_begin != NULL );
+            if ( delete_buffer ) {
+                const int buffer_size = static_cast<int>(other.buffer_end - other.buffer_begin) + 1;
+                buffer_begin = new char[buffer_size];
+                buffer_end = buffer_begin + buffer_size - 1;
+                std::memcpy(buffer_begin, other.buffer_begin, buffer_size);
+            } else {
+                buffer_begin = other.buffer_begin;
+                buffer_end = other.buffer_end;
+            }
+        }
 };
 
 /*****************************************************************************
-- 
2.43.0


From b4c615eb0e847ff679c4f32577a2675173a1ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 051/128] fix: disconnecting a sigslot from a topic that no
 longer exists read past the end of the topic list

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index f1c79a2..4930ce0 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -121,9 +121,9 @@ private:
 		typename std::map<std::string, Topic<Data> >::iterator iter = topics().find(topic);
 		if ( iter != topics().end() ) {
 			iter->second.disconnect(sigslot);
-		}
-		if ( iter->second.empty() ) {
-			topics().erase(iter);
+			if ( iter->second.empty() ) {
+				topics().erase(iter);
+			}
 		}
 	}
 
-- 
2.43.0


From 2c44fe2ee5016a81d64e99cfb4cfb6b73515dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 052/128] fix: assigning signals and slots did not account for
 the handles

---
 ecl_sigslots/include/ecl/sigslots/signal.hpp | 16 ++++++++++++----
 ecl_sigslots/include/ecl/sigslots/slot.hpp   | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/signal.hpp b/ecl_sigslots/include/ecl/sigslots/signal.hpp
index 843caa6..2c269f5 100644
--- a/ecl_sigslots/include/ecl/sigslots/signal.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/signal.hpp
@@ -74,8 +74,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Data>& signal) {
-		*this = signal;
+	Signal(const Signal<Data>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -97,6 +96,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Data>& signal) {
+		signal.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
@@ -182,8 +186,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Void>& signal) {
-		*this = signal;
+	Signal(const Signal<Void>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -191,6 +194,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Void>& signal) {
+		signal.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
diff --git a/ecl_sigslots/include/ecl/sigslots/slot.hpp b/ecl_sigslots/include/ecl/sigslots/slot.hpp
index d6bed73..9e07146 100644
--- a/ecl_sigslots/include/ecl/sigslots/slot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/slot.hpp
@@ -116,8 +116,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Data>& slot) {
-		*this = slot;
+	Slot(const Slot<Data>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -138,6 +137,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Data>& slot) {
+		slot.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
@@ -245,8 +249,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Void>& slot) {
-		*this = slot;
+	Slot(const Slot<Void>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 	/**
@@ -266,6 +269,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Void>& slot) {
+		slot.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
-- 
2.43.0


From 147b18d3c47089bedfd9a2be1e4bc12a2ce2339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:39 +0000
Subject: [PATCH 053/128] fix: disconnecting a sigslot from one topic left it
 subscribed and used the wrong manager

---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 4e36dad..7e3c934 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -167,7 +167,8 @@ public:
 	void disconnect(const std::string &topic) {
 		// std::set<std::string>::const_iterator listen_iter = subscriptions.find(topic);
 		publications.erase(topic); // Doesn't matter if it finds it or not.
-		SigSlotsManager<Void>::disconnect(topic,this);
+		subscriptions.erase(topic);
+		SigSlotsManager<Data>::disconnect(topic,this);
 	}
 	/**
 	 * @brief Disconnect the sigslot from all topics.
@@ -329,6 +330,7 @@ public:
 	 */
 	void disconnect(const std::string &topic) {
 		publications.erase(topic); // Doesn't matter if it finds it or not.
+		subscriptions.erase(topic);
 		SigSlotsManager<Void>::disconnect(topic,this);
 	}
 	/**
-- 
2.43.0


From d77679f945b0085a1195dda670f6bba9eea21033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 054/128] fix: slots disconnected while a signal was emitting
 invalidated its iterators

---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 7e3c934..9ffbae3 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -106,11 +106,20 @@ public:
 	void emit(Data data) {
 		typename PublicationMap::const_iterator topic_iter;
 		typename Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
+		std::string topic;
+		SigSlot<Data> *sigslot;
+		for ( topic_iter = publications.begin(); topic_iter != publications.end(); topic_iter = publications.upper_bound(topic) ) {
+			topic = topic_iter->first;
 			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot<Data> *sigslot = *slots_iter;
+			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); slots_iter = subscribers->upper_bound(sigslot) ) {
+				sigslot = *slots_iter;
 				sigslot->process(data);
+				// the slot may have disconnected itself, other slots or this signal
+				topic_iter = publications.find(topic);
+				if ( topic_iter == publications.end() ) {
+					break;
+				}
+				subscribers = topic_iter->second;
 			}
 		}
 	}
@@ -270,11 +279,20 @@ public:
 	void emit() {
 		PublicationMap::const_iterator topic_iter;
 		Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
+		std::string topic;
+		SigSlot *sigslot;
+		for ( topic_iter = publications.begin(); topic_iter != publications.end(); topic_iter = publications.upper_bound(topic) ) {
+			topic = topic_iter->first;
 			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot *sigslot = *slots_iter;
+			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); slots_iter = subscribers->upper_bound(sigslot) ) {
+				sigslot = *slots_iter;
 				sigslot->process();
+				// the slot may have disconnected itself, other slots or this signal
+				topic_iter = publications.find(topic);
+				if ( topic_iter == publications.end() ) {
+					break;
+				}
+				subscribers = topic_iter->second;
 			}
 		}
 	}
-- 
2.43.0


From f5aa9d8b43a962188f12debd36df7860652c71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:02 +0000
Subject: [PATCH 055/128] fix: the string device forgot the size of a buffer it
 had grown or cleared and wrote past its end

---
 ecl_devices/src/lib/string.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 7ae0e19..0281ca4 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -49,7 +49,8 @@ void String::grow(int no_bytes) {
     char* new_buffer;
     unsigned long cur_pos = buffer_cur_read - buffer;
     unsigned long cur_end = buffer_cur_write - buffer;
-    new_buffer = new char[size()+no_bytes+1];
+    buffer_length = size()+no_bytes+1;
+    new_buffer = new char[buffer_length];
     memcpy(new_buffer,buffer,size());
     delete [] buffer;
     buffer = new_buffer;
@@ -109,7 +110,7 @@ void String::clear()
 {
     delete [] buffer;
     buffer = new char[1];
-    buffer_length = 0;
+    buffer_length = 1;
     buffer_cur_write = buffer;
     buffer_cur_read = buffer;
 }
-- 
2.43.0


From eb2a42e1f7d30f534553c6479b01bd7729da267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 056/128] fix: copies of a string device deleted the same
 buffer

---
 ecl_devices/include/ecl/devices/string.hpp | 15 ++++++++++++++
 ecl_devices/src/lib/string.cpp             | 23 ++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/ecl_devices/include/ecl/devices/string.hpp b/ecl_devices/include/ecl/devices/string.hpp
index dcfb2fc..313292f 100644
--- a/ecl_devices/include/ecl/devices/string.hpp
+++ b/ecl_devices/include/ecl/devices/string.hpp
@@ -57,6 +57,21 @@ public:
 	 * @param str : the input string to store in the buffer.
 	 **/
 	explicit String(const char* str = "");
+	/**
+	 * @brief Copies the contents of another string device.
+	 *
+	 * The copy gets a buffer of its own, and reads on from where the original stands.
+	 *
+	 * @param other : the string device to copy.
+	 **/
+	String(const String& other);
+	/**
+	 * @brief Copies the contents of another string device.
+	 *
+	 * @param other : the string device to copy.
+	 * @return String& : handle to the updated device.
+	 **/
+	String& operator=(const String& other);
 	/**
 	 * @brief Cleans up memory allocations.
 	 *
diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 0281ca4..2fb3390 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -32,6 +32,29 @@ String::String(const char* str)
     buffer_cur_write = buffer + buffer_length - 1;
     buffer_cur_read = buffer;
 }
+
+String::String(const String& other) :
+    buffer_length(other.buffer_length),
+    buffer(new char[other.buffer_length]),
+    buffer_cur_write(buffer + (other.buffer_cur_write - other.buffer)),
+    buffer_cur_read(buffer + (other.buffer_cur_read - other.buffer))
+{
+    memcpy(buffer,other.buffer,buffer_cur_write - buffer);
+}
+
+String& String::operator=(const String& other)
+{
+    if ( this != &other ) {
+        char* new_buffer = new char[other.buffer_length];
+        memcpy(new_buffer,other.buffer,other.buffer_cur_write - other.buffer);
+        delete [] buffer;
+        buffer = new_buffer;
+        buffer_length = other.buffer_length;
+        buffer_cur_write = buffer + (other.buffer_cur_write - other.buffer);
+        buffer_cur_read = buffer + (other.buffer_cur_read - other.buffer);
+    }
+    return *this;
+}
 String::~String() {
     delete [] buffer;
 }
-- 
2.43.0


From ef505f2785c445033ba27ab1cdef123dd41f2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:23 +0000
Subject: [PATCH 057/128] fix: text streams refused integers near the limits of
 their type

---
 .../ecl/streams/text_streams/input_text_stream.hpp    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 932c9e2..08d2c0c 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -572,7 +572,8 @@ template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
     static char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
-    static const Number ceiling = ecl::numeric_limits<Number>::maximum/10;
+    static const Number maximum = ecl::numeric_limits<Number>::maximum;
+    static const Number minimum = ecl::numeric_limits<Number>::minimum;
     char c = ' ';
     Number sign_multiplier = 1;
     Number number;
@@ -632,15 +633,17 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     number = 0;
     for ( int k = 0; k < j; ++k )
     {
-        if ( number < ceiling )
+        // Accumulate on the side of the sign, the negative range is larger than the positive.
+        const int digit = digits[k] - '0';
+        if ( ( sign_multiplier > 0 ) ? ( number <= (maximum - digit)/10 ) : ( number >= (minimum + digit)/10 ) )
         {
-            number = 10*number + (digits[k] - '0');
+            number = 10*number + sign_multiplier*digit;
         } else {
         	this->error = OutOfRangeError;
             return false;
         }
     }
-    i = sign_multiplier*number;
+    i = number;
 
     return true;
 }
-- 
2.43.0


From 2950751b152eac871bee0ed36a8befdfbfaebc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:24 +0000
Subject: [PATCH 058/128] fix: text streams read hexadecimal integers through a
 short

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 08d2c0c..cfffa21 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -521,7 +521,7 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
     static int digits[25];
-    static const short ceiling = numeric_limits<short>::maximum/10;
+    static const Number maximum = ecl::numeric_limits<Number>::maximum;
 
     i = 0;
     int j = 0;
@@ -549,9 +549,9 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
     	return false;
 	}
 
-    short number = 0;
+    Number number = 0;
     for ( int k = 0; k < j; ++k ) {
-        if ( number < ceiling ) {
+        if ( number <= (maximum - digits[k])/16 ) {
             number = 16*number + (digits[k]);
         } else {
         	this->error = OutOfRangeError;
-- 
2.43.0


From 367aea62210932cf760495217a58d836128479d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:24 +0000
Subject: [PATCH 059/128] fix: text streams refused a zero that is followed by
 something other than white space

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index cfffa21..256debd 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -577,6 +577,7 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     char c = ' ';
     Number sign_multiplier = 1;
     Number number;
+    int j = 0;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
@@ -604,7 +605,9 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 		} else if ( c == 'x' ) {
             return parseHexInteger(i);
         } else {
-        	// its a regular integer, just continue
+        	// its a regular integer, just continue with the zero as its first digit
+        	digits[j] = '0';
+        	j++;
         }
     } else if ( c == 'x' ) {
         return parseHexInteger(i);
@@ -613,7 +616,6 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     /*********************
     ** Parse reg. integer
     **********************/
-    int j = 0;
     while ( ( c >= '0' ) && ( c <= '9') && ( j < 25 ) ) {
         digits[j] = c;
         j++;
-- 
2.43.0


From e1e39f2bc4dea5478dd129fa4b5a77f92de41185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:38 +0000
Subject: [PATCH 060/128] fix: text streams lost the last digit of a real
 number at the end of the input

---
 .../ecl/streams/text_streams/input_text_stream.hpp     | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 256debd..98f9bff 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -675,14 +675,13 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     *******************************************/
     while ( ( c >= '0' ) && ( c <= '9') && ( integral_length < bufferSize ) ) {
         digits[integral_length] = c;
+        integral_length++;
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError; return false;
 		} else if ( n == 0 ) {
 			break;
-		} else { // n > 1
-			integral_length++;
-        }
+		}
     }
     for ( int k = 0; k < integral_length; ++k ) {
         number = 10*number + (digits[k] - '0');
@@ -696,14 +695,13 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
         *******************************************/
         while ( ( c >= '0' ) && ( c <= '9') && ( decimal_length < bufferSize ) ) {
             digits[decimal_length] = c;
+            decimal_length++;
             long n = this->io_device.read(c);
     		if ( n < 0 ) {
     			this->error = ReadError; return false;
     		} else if ( n == 0 ) {
     			break;
-    		} else { // n > 1
-                decimal_length++;
-            }
+    		}
         }
         for ( int k = 0; k < decimal_length; ++k ) {
             frac_multiplier *= 0.1f;
-- 
2.43.0


From 29e41e7174ef2b6135c750f4cf3e06f0bea987b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 061/128] fix: text streams read the decimals of a double with
 the precision of a float

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 98f9bff..b281fef 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -688,7 +688,7 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     }
 
     if ( c == '.' ) {
-        float frac_multiplier = 1;
+        Number frac_multiplier = 1;
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
         /******************************************
         ** Decimal part
@@ -704,7 +704,7 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     		}
         }
         for ( int k = 0; k < decimal_length; ++k ) {
-            frac_multiplier *= 0.1f;
+            frac_multiplier /= 10;
             number = number + frac_multiplier*(digits[k] - '0');
         }
     }
-- 
2.43.0


From 6544fabae3540bab6501576dfebda55ff9b8f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 062/128] fix: text streams hid an error of the device in the
 middle of a string

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index b281fef..28d6b0b 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -204,9 +204,12 @@ InputTextStream<Device>& InputTextStream<Device,true>::operator >> ( std::string
 	    s.clear();
 	    do {
 	        s.push_back(c);
-	        if( this->io_device.read(c) < 1 ) {
+	        long n = this->io_device.read(c);
+	        if ( n < 0 ) {
 	        	this->error = ReadError;
-	        	break;
+	        	return *this;
+	        } else if ( n == 0 ) {
+	        	break; // nothing more to read, the string ends here.
 			}
 	    } while ( ( c != ' ' ) && ( c != '\n' ) );
 	    this->error = NoError;
-- 
2.43.0


From a77a1db7d6a14523e1c8bafc9110a9558a86a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:40 +0000
Subject: [PATCH 063/128] fix: text streams in different threads parsed through
 the same buffer

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 28d6b0b..cb8f534 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -523,7 +523,7 @@ template <typename Number>
 bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
-    static int digits[25];
+    int digits[25];
     static const Number maximum = ecl::numeric_limits<Number>::maximum;
 
     i = 0;
@@ -574,7 +574,7 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
-    static char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
+    char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
     static const Number maximum = ecl::numeric_limits<Number>::maximum;
     static const Number minimum = ecl::numeric_limits<Number>::minimum;
     char c = ' ';
@@ -657,7 +657,7 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     static const int bufferSize = 25;
-    static char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
+    char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
     char c = ' ';
     int integral_length = 0;
     int decimal_length = 0;
-- 
2.43.0


From a8534fbc18a4a2dec02f84fc705891c2416e85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 064/128] fix: a default constructed log stream left its header
 and time stamp options uninitialised

---
 ecl_streams/include/ecl/streams/log_stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/log_stream.hpp b/ecl_streams/include/ecl/streams/log_stream.hpp
index b35a29b..8ff460a 100644
--- a/ecl_streams/include/ecl/streams/log_stream.hpp
+++ b/ecl_streams/include/ecl/streams/log_stream.hpp
@@ -115,7 +115,10 @@ public:
 	 * This must open the underlying shared file device manually
 	 * via device().open() as you would do if using a TextStream.
 	 */
-	LogStream() {};
+	LogStream() :
+		write_header(true),
+		write_stamp(true)
+	{};
 	/**
 	 * @brief Convenience constructor for logstreams.
 	 *
-- 
2.43.0


From 73b53ed5b4f27efeb8599ac480e13878352dc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 065/128] fix: a file opened as New kept what an existing file
 held

---
 ecl_devices/src/lib/ofile_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c1e2265..c207bed 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -66,7 +66,7 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
+        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT|O_TRUNC, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
             if ( file_descriptor == -1 ) {
                 ecl_throw(devices::open_exception(LOC,file_name));
                 error_handler = devices::open_error();
-- 
2.43.0


From f566d66c9de1fa770de80974de46fe9486f6f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 066/128] fix: reopening a file leaked the handle and the data
 of the open one

---
 ecl_devices/src/lib/ofile_pos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c207bed..3fbdc81 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -63,6 +63,10 @@ OFile::~OFile() {
 *****************************************************************************/
 
 bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
+	// Release whatever is still open, otherwise its handle (and its buffered data) is lost.
+	if ( !close() ) {
+		return false;
+	}
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-- 
2.43.0


From f4a1e2ca5a48ebed07fdf1fc48c935720260e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 067/128] fix: a file that failed to close was accessed and
 closed again

---
 ecl_devices/src/lib/ofile_pos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 3fbdc81..698ec9b 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -103,12 +103,14 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 bool OFile::close() {
 	if ( open() ) {
 		// This flushes and closes the file descriptor.
-		if ( fclose(file) != 0 ) {
+		// Even if it fails, the file may not be accessed any more.
+		int result = fclose(file);
+		file = NULL;
+		if ( result != 0 ) {
 			ecl_throw(devices::close_exception(LOC,name));
 			error_handler = devices::close_error();
 			return false;
 		}
-		file = NULL;
 	}
 	error_handler = NoError;
 	return true;
-- 
2.43.0


From 82c8a00204d544f4800dbf5df047769e0befa653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:40 +0000
Subject: [PATCH 068/128] fix: writing nothing to a file was reported as an
 error

---
 ecl_devices/include/ecl/devices/ofile_pos.hpp | 9 ++++++---
 ecl_devices/src/lib/ofile_pos.cpp             | 7 +++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/ofile_pos.hpp b/ecl_devices/include/ecl/devices/ofile_pos.hpp
index d24211e..d4470ca 100644
--- a/ecl_devices/include/ecl/devices/ofile_pos.hpp
+++ b/ecl_devices/include/ecl/devices/ofile_pos.hpp
@@ -313,14 +313,17 @@ long OFile::write(const ByteArray&byte_array) {
     	error_handler = OpenError;
     	return -1;
     }
-    size_t written = fwrite(&byte_array[0],byte_array.size(),1,file);
-    if ( written == 0) {
+    size_t written = 0;
+    if ( byte_array.size() > 0 ) {
+    	written = fwrite(&byte_array[0],1,byte_array.size(),file);
+    }
+    if ( written < byte_array.size() ) {
     	ecl_debug_throw(ecl::StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	error_handler = WriteError;
     	return -1;
     }
     error_handler = NoError;
-    return byte_array.size()*written; // fwrite returns the number of 'items' written, not bytes!
+    return written;
 }
 
 
diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 698ec9b..4296aa4 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -144,15 +144,14 @@ long OFile::write(const char* s, unsigned long n)
 		error_handler = OpenError;
     	return -1;
 	}
-	size_t written = fwrite(s,n,1,file);
-    if ( written <= 0 ) {
+	size_t written = fwrite(s,1,n,file);
+    if ( written < n ) {
     	ecl_debug_throw(StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	error_handler = WriteError;
     	return -1;
     }
 	error_handler = NoError;
-    // fwrite returns the number of 'items' written, not bytes!
-    return n*written;
+    return written;
 }
 
 bool OFile::flush() {
-- 
2.43.0


From f3b0ab51efb4472a8a951a522df652021d9aed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:41 +0000
Subject: [PATCH 069/128] fix: the console devices cut off the output at a null
 character

---
 ecl_devices/src/lib/console.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index b3e1ad6..bd9e5be 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -47,7 +47,7 @@ long OConsole::write(const char* s, unsigned long n)
 }
 
 void OConsole::flush() {
-    fputs(buffer.c_str(),stdout);
+    fwrite(buffer.c_str(),1,buffer.buffer_size-buffer.remaining(),stdout); // fputs would stop at a null character
     buffer.clear();
 	int result = fflush(stdout);
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
@@ -79,7 +79,7 @@ long EConsole::write(const char* s, unsigned long n)
 }
 
 void EConsole::flush() {
-    fputs(buffer.c_str(),stderr);
+    fwrite(buffer.c_str(),1,buffer.buffer_size-buffer.remaining(),stderr); // fputs would stop at a null character
     buffer.clear();
 	int result = fflush(stderr);
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
-- 
2.43.0


From 4b9bfd769009c61b242edf3509112fe0004d07b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:41 +0000
Subject: [PATCH 070/128] fix: the console device took a 0xff character for the
 end of the input

---
 ecl_devices/src/lib/console.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index bd9e5be..19893ee 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -93,12 +93,13 @@ long IConsole::read(char &c)
 {
 	// fgets is a problem, it doesn't read the newline with the character,
 	// which means the next read from stdin will catch that newline first.
-    c = static_cast<char>(fgetc(stdin));
-    if ( c == EOF ) {
-    	ecl_assert_throw( c != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
+	int result = fgetc(stdin);
+    if ( result == EOF ) {
+    	ecl_assert_throw( result != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
     	return 0; // fallover if not in debug mode.
     } else {
 //    	while ( fgetc(stdin) != '\n' ) {}
+    	c = static_cast<char>(result);
     	return 1;
     }
 }
-- 
2.43.0


From dbd8f76c64e6fc8ace1f869fa4f8836e5246e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 071/128] fix: enabling a log mode again did not associate the
 new header

---
 ecl_streams/src/lib/log_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/src/lib/log_stream.cpp b/ecl_streams/src/lib/log_stream.cpp
index 4fd972a..3b06243 100644
--- a/ecl_streams/src/lib/log_stream.cpp
+++ b/ecl_streams/src/lib/log_stream.cpp
@@ -34,7 +34,7 @@ void LogStream::disableHeader() { write_header = false; }
 void LogStream::enableTimeStamp() { write_stamp = true; }
 void LogStream::disableTimeStamp() { write_stamp = false; }
 
-void LogStream::enableMode(int mode, std::string header) { modes.insert( std::make_pair(mode,header) ); }
+void LogStream::enableMode(int mode, std::string header) { modes[mode] = header; }
 void LogStream::disableMode(int mode) { modes.erase(mode); }
 
 bool LogStream::isEnabled() {
-- 
2.43.0


From c4d04ca19dffbf76a6ce69561ecefd5aa1c12301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 072/128] fix: shared files that were not opened, reopened or
 had failed were released through an uninitialised or already deleted instance

---
 .../include/ecl/devices/shared_file.hpp       |  5 +++--
 ecl_devices/src/lib/shared_file.cpp           | 21 ++++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 179c9a9..112581e 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -63,7 +63,7 @@ namespace devices {
  */
 class SharedFileCommon {
 public:
-    SharedFileCommon() : error_handler(NoError) {};
+    SharedFileCommon() : count(0), error_handler(NoError) {};
 	/**
 	 * @brief Automatically opens a file and initialises the count.
 	 *
@@ -127,7 +127,7 @@ public:
 	 * constructors. Use this with the open() command to do so. You can
 	 * check for open status via the open accessor.
 	 */
-	SharedFile() {};
+	SharedFile() : shared_instance(new devices::SharedFileCommon()) {};
 	/**
 	 * @brief Either opens a file for writing or a link to an existing shared instance.
 	 *
@@ -230,6 +230,7 @@ public:
 	const Error& error() const { return shared_instance->error_handler; }
 
 private:
+	void release(); // lets go of the shared instance
 	devices::SharedFileCommon* shared_instance;
 	devices::CharBuffer buffer;
 };
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index a5c2e19..963c6a9 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -144,11 +144,7 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 
 SharedFile::~SharedFile() {
 	ecl_try {
-	        if (shared_instance->error_handler.flag() == NoError) {
-	            devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
-	        } else {
-	            delete shared_instance;
-	        }
+	        release();
 	} ecl_catch( StandardException &e ) {
 		// Never throw from a destructor!
 		// use some other mechanism!!!
@@ -156,7 +152,22 @@ SharedFile::~SharedFile() {
 	}
 }
 
+void SharedFile::release() {
+	// Only instances that are registered hold an open file, the others are private to this object.
+	if ( shared_instance->file.open() ) {
+		const string name = shared_instance->file.filename();
+		shared_instance = NULL;
+		devices::SharedFileManager::DeRegisterSharedFile( name );
+	} else {
+		delete shared_instance;
+		shared_instance = NULL;
+	}
+}
+
 bool SharedFile::open(const std::string &name, WriteMode mode) {
+	if ( shared_instance != NULL ) {
+		release();
+	}
 	ecl_try {
 		shared_instance = devices::SharedFileManager::RegisterSharedFile(name,mode);
 		if ( shared_instance == NULL ) {
-- 
2.43.0


From 2269a7982df0f9e6432fe30428cd373aa9080ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 073/128] fix: a shared file that could not be opened left the
 shared file manager locked

---
 ecl_devices/src/lib/shared_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 963c6a9..1852b82 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -90,6 +90,7 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
     		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
     	} ecl_catch ( StandardException &e ) {
     		shared_instance = NULL;
+    		mutex.unlock();
     		ecl_throw(StandardException(LOC,e));
     	}
     }
@@ -107,6 +108,7 @@ bool SharedFileManager::DeRegisterSharedFile(const std::string& name) {
 	std::map<std::string,SharedFileCommon*>::iterator iter = opened_files.find(name);
 
 	if ( iter == opened_files.end() ) {
+		mutex.unlock();
 		ecl_throw(StandardException(LOC,CloseError,"The specified shared object file could not be closed - was not found."));
 		return false;
 	}
-- 
2.43.0


From 8ccc8f5a9108b19ccb6bd1962e034828159d6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 074/128] fix: without exceptions a shared file that could not
 be opened was registered and reported as open

---
 ecl_devices/src/lib/shared_file.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 1852b82..d4f7b77 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -87,7 +87,12 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
         *******************************************/
     	ecl_try {
     		shared_instance = new SharedFileCommon(name,mode);
-    		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
+    		if ( shared_instance->error_handler.flag() == NoError ) {
+    			opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
+    		} else { // fallback for no exceptions
+    			delete shared_instance;
+    			shared_instance = NULL;
+    		}
     	} ecl_catch ( StandardException &e ) {
     		shared_instance = NULL;
     		mutex.unlock();
-- 
2.43.0


From 66f1d1252a7fa4ca9bc6d2d1aa0d13ef1229cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:05 +0000
Subject: [PATCH 075/128] fix: flushing an empty shared file buffer was
 reported as a failure

---
 ecl_devices/src/lib/shared_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index d4f7b77..8834d34 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -226,7 +226,7 @@ bool SharedFile::flush() {
 	buffer.clear();
 	// fallback for no exceptions
 	shared_instance->error_handler = shared_instance->file.error();
-	if ( written > 0 ) {
+	if ( written >= 0 ) {
 		return true;
 	} else {
 		return false;
-- 
2.43.0


From fdee06dfe8051f5ffa677e63adfe20f75e56c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:05 +0000
Subject: [PATCH 076/128] fix: closing a shared file lost what it had buffered

---
 ecl_devices/src/lib/shared_file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 8834d34..d98ea68 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -162,6 +162,11 @@ SharedFile::~SharedFile() {
 void SharedFile::release() {
 	// Only instances that are registered hold an open file, the others are private to this object.
 	if ( shared_instance->file.open() ) {
+		ecl_debug_try {
+			flush();
+		} ecl_debug_catch(const StandardException &e) {
+			buffer.clear(); // nothing more can be done for what could not be written
+		}
 		const string name = shared_instance->file.filename();
 		shared_instance = NULL;
 		devices::SharedFileManager::DeRegisterSharedFile( name );
-- 
2.43.0


From 814535fe921732fb3d520abe72c727c4e9193b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:24 +0000
Subject: [PATCH 077/128] fix: shared file instances in different threads raced
 on the error state of the file

---
 ecl_devices/src/lib/shared_file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index d98ea68..61c0aca 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -187,7 +187,9 @@ bool SharedFile::open(const std::string &name, WriteMode mode) {
                         shared_instance->error_handler = OpenError;
 			return false;
 		} else {
+			shared_instance->mutex.lock();
 			shared_instance->error_handler = NoError;
+			shared_instance->mutex.unlock();
 			return true;
 		}
 	} ecl_catch ( StandardException &e ) {
@@ -221,16 +223,20 @@ long SharedFile::write(const char* s, unsigned long n) {
 }
 
 bool SharedFile::flush() {
+	// The file, the error state and the order of what is written are shared with the other instances.
+	shared_instance->mutex.lock();
 	long written;
 	ecl_debug_try {
 		written = shared_instance->file.write(buffer.c_ptr(), buffer.size() );
 	} ecl_debug_catch(const StandardException &e) {
 		shared_instance->error_handler = shared_instance->file.error();
+		shared_instance->mutex.unlock();
 		ecl_debug_throw(StandardException(LOC,e));
 	}
 	buffer.clear();
 	// fallback for no exceptions
 	shared_instance->error_handler = shared_instance->file.error();
+	shared_instance->mutex.unlock();
 	if ( written >= 0 ) {
 		return true;
 	} else {
-- 
2.43.0


From cd59f221342fcbcada885677e33b5cfac317d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:55 +0000
Subject: [PATCH 078/128] fix: a shared file constructor that failed leaked its
 instance

---
 ecl_devices/src/lib/shared_file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 61c0aca..5402110 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -145,6 +145,7 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 	ecl_try {
 		open(name,mode);
 	} ecl_catch( StandardException &e ) {
+		delete shared_instance; // the destructor will not run
 		ecl_throw(StandardException(LOC,e));
 	}
 }
-- 
2.43.0


From 754054dd6f39b41ab80941060bcb295509551f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:56 +0000
Subject: [PATCH 079/128] fix: the number of locks on a mutex was counted
 without synchronisation

---
 ecl_threads/include/ecl/threads/mutex_pos.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_threads/include/ecl/threads/mutex_pos.hpp b/ecl_threads/include/ecl/threads/mutex_pos.hpp
index 99335dc..6ed81ef 100644
--- a/ecl_threads/include/ecl/threads/mutex_pos.hpp
+++ b/ecl_threads/include/ecl/threads/mutex_pos.hpp
@@ -26,6 +26,7 @@
 #include <errno.h>
 #include <cstring> // strerror function
 #include <string>
+#include <atomic>
 #include <pthread.h>
 #include <sstream>
 #include <ecl/config/macros.hpp>
@@ -155,7 +156,7 @@ public:
 
 private:
 	RawMutex mutex;
-	unsigned int number_locks;
+	std::atomic<unsigned int> number_locks; // counted by threads that do not hold the lock
 
 };
 
-- 
2.43.0


From e8cdf86a8569374c1868382202452dbe96769a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:57 +0000
Subject: [PATCH 080/128] fix: the timed mutex lock took its duration for an
 absolute time

---
 ecl_threads/src/lib/mutex_pos.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 6f81844..78aa441 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -77,9 +77,18 @@ void Mutex::lock()
 bool Mutex::trylock(Duration &duration)
 {
   #if defined(_POSIX_TIMEOUTS) && (_POSIX_TIMEOUTS - 200112L) >= 0L
+    // pthread_mutex_timedlock() waits until an absolute time
     timespec timeout;
-    timeout.tv_sec = duration.sec();
-    timeout.tv_nsec = duration.nsec();
+    clock_gettime(CLOCK_REALTIME, &timeout);
+    timeout.tv_sec += duration.sec();
+    timeout.tv_nsec += duration.nsec();
+    if (timeout.tv_nsec >= 1000000000L) {
+      timeout.tv_sec += 1;
+      timeout.tv_nsec -= 1000000000L;
+    } else if (timeout.tv_nsec < 0) {
+      timeout.tv_sec -= 1;
+      timeout.tv_nsec += 1000000000L;
+    }
     int result = pthread_mutex_timedlock(&mutex, &timeout);
     if (result == ETIMEDOUT) {
       return false;
-- 
2.43.0


From 327113ada4aa15ccdbb9b44bcb9837ec35b579d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:57 +0000
Subject: [PATCH 081/128] fix: failed locks and unlocks were counted as locks
 of a mutex

---
 ecl_threads/src/lib/mutex_pos.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 78aa441..8dc5c34 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -70,6 +70,9 @@ void Mutex::lock()
 {
   ++number_locks;
   int result = pthread_mutex_lock(&mutex);
+  if (result != 0) {
+    --number_locks; // did not get it
+  }
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
@@ -122,6 +125,9 @@ void Mutex::unlock()
 {
   --number_locks;
   int result = pthread_mutex_unlock(&mutex);
+  if (result != 0) {
+    ++number_locks; // did not release it
+  }
   ecl_assert_throw(result == 0, threads::throwMutexUnLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
-- 
2.43.0


From fc6c596c17e14eb565f6ebcb63b30ba55459e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:04 +0000
Subject: [PATCH 082/128] fix: text streams cut off the digits of large real
 numbers

---
 .../include/ecl/streams/text_streams/output_text_stream.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index 2b64faf..8fa3584 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -91,7 +91,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          * @endcode
          **/
         OutputTextStream() :
-        	toCharString(30) // character buffer size
+        	toCharString(350) // character buffer size, large enough for the longest double
 		{
             ecl_compile_time_concept_check(OutputCharDeviceConcept<Device>);
 		};
-- 
2.43.0


From 4149c3ba58ebf9b105ea37c045a827ca7cf19882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:59 +0000
Subject: [PATCH 083/128] fix: tension splines overflowed over long or tight
 segments

---
 ecl_geometry/src/lib/tension_function.cpp     | 24 ++++++++++++++++---
 .../src/lib/tension_spline_blueprints.cpp     |  2 +-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_function.cpp b/ecl_geometry/src/lib/tension_function.cpp
index 136213d..2b9434a 100644
--- a/ecl_geometry/src/lib/tension_function.cpp
+++ b/ecl_geometry/src/lib/tension_function.cpp
@@ -19,6 +19,24 @@
 
 namespace ecl {
 
+/*****************************************************************************
+** Hyperbolic ratios
+*****************************************************************************/
+
+namespace {
+
+// sinh(a)/sinh(b) and cosh(a)/sinh(b), without computing the hyperbolic functions
+// themselves: they overflow for long or tight segments, the ratios do not.
+double sinh_over_sinh(const double &a, const double &b) {
+    return exp(a-b)*expm1(-2.0*a)/expm1(-2.0*b);
+}
+
+double cosh_over_sinh(const double &a, const double &b) {
+    return -1.0*exp(a-b)*(1.0+exp(-2.0*a))/expm1(-2.0*b);
+}
+
+} // namespace
+
 /*****************************************************************************
 ** Implementation [TensionFunction]
 *****************************************************************************/
@@ -26,7 +44,7 @@ namespace ecl {
 double TensionFunction::derivative(const double &tau, const double &x) const {
     double value;
     double h = x_f-x_0;
-    value = (-1.0*tau*z_0*cosh(tau*(x_f-x)) + tau*z_f*cosh(tau*(x-x_0)))/(tau*tau*sinh(tau*h));
+    value = (-1.0*z_0*cosh_over_sinh(tau*(x_f-x),tau*h) + z_f*cosh_over_sinh(tau*(x-x_0),tau*h))/tau;
     value += -1.0*(y_0-z_0/(tau*tau))/h;
     value += (y_f-z_f/(tau*tau))/h;
 
@@ -37,7 +55,7 @@ double TensionFunction::derivative(const double &tau, const double &x) const {
 double TensionFunction::dderivative(const double &tau, const double &x) const {
     double value;
     double h = x_f-x_0;
-    value = (tau*tau*z_0*sinh(tau*(x_f-x)) + tau*tau*z_f*sinh(tau*(x-x_0)))/(tau*tau*sinh(tau*h));
+    value = z_0*sinh_over_sinh(tau*(x_f-x),tau*h) + z_f*sinh_over_sinh(tau*(x-x_0),tau*h);
 
     return value;
 }
@@ -45,7 +63,7 @@ double TensionFunction::dderivative(const double &tau, const double &x) const {
 double TensionFunction::operator ()(const double &tau, const double &x) const {
     double value;
     double h = x_f-x_0;
-    value = (z_0*sinh(tau*(x_f-x)) + z_f*sinh(tau*(x-x_0)))/(tau*tau*sinh(tau*h));
+    value = (z_0*sinh_over_sinh(tau*(x_f-x),tau*h) + z_f*sinh_over_sinh(tau*(x-x_0),tau*h))/(tau*tau);
     value += (y_0-z_0/(tau*tau))*(x_f-x)/h;
     value += (y_f-z_f/(tau*tau))*(x-x_0)/h;
     return value;
diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index ee0316a..d964630 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -64,7 +64,7 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
     for ( unsigned int i = 0; i < n; ++i ) {
         h[i] = x_set[i+1]-x_set[i];
         a[i] = 1/h[i] - tension/sinh(tension*h[i]);
-        beta[i] = tension*(cosh(tension*h[i])/sinh(tension*h[i])) - 1/h[i];
+        beta[i] = tension/tanh(tension*h[i]) - 1/h[i];
         gamma[i] = tension*tension*(y_data[i+1]-y_data[i])/h[i];
     }
     /*
-- 
2.43.0


From 50c5de138a3e435861ff793be3d2c9e884a6deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 084/128] fix: a socket client closed descriptors that were not
 its own

---
 ecl_devices/include/ecl/devices/socket_client_pos.hpp | 2 +-
 ecl_devices/src/lib/socket_client_pos.cpp             | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/socket_client_pos.hpp b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
index 6e957c4..83b83d1 100644
--- a/ecl_devices/include/ecl/devices/socket_client_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
@@ -66,7 +66,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketClient() : is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
+	SocketClient() : socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 14d0cd3..3ce0b33 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -46,6 +46,7 @@ using std::string;
 SocketClient::SocketClient(const std::string &host_name, const unsigned int &port_number) :
 		hostname(host_name),
 		port(port_number),
+		socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -57,8 +58,10 @@ SocketClient::SocketClient(const std::string &host_name, const unsigned int &por
 }
 
 void SocketClient::close() {
-	 is_open = false;
-	 ::close(socket_fd); // should have error handling here
+	 if ( is_open ) {
+		 is_open = false;
+		 ::close(socket_fd); // should have error handling here
+	 }
 }
 
 bool SocketClient::open( const std::string &host_name, const unsigned int& port_number ) {
-- 
2.43.0


From d7814bc1347f42a154f26c2dade2cd6f7ce81708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 085/128] fix: a socket server that failed to bind called
 itself open

---
 ecl_devices/src/lib/socket_server_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 8271b69..d79af97 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -84,7 +84,7 @@ bool SocketServer::open( const unsigned int& port_number ) {
      ************************************************************************/
     int bind_result = bind(socket_fd, (struct sockaddr *) &server, sizeof(server));
     if ( bind_result == - 1 ) {
-    	is_open = true;
+    	::close(socket_fd);
     	ecl_throw(devices::bind_exception(LOC));
     	error_handler = devices::bind_error();
     	return false;
-- 
2.43.0


From 91d0c68f7f995555608c05e30e18655b5179d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:08 +0000
Subject: [PATCH 086/128] fix: a socket server never closed its client and
 closed descriptors that were not its own

---
 .../include/ecl/devices/socket_server_pos.hpp     |  4 ++--
 ecl_devices/src/lib/socket_server_pos.cpp         | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/socket_server_pos.hpp b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
index 4cddb84..2f3ccc6 100644
--- a/ecl_devices/include/ecl/devices/socket_server_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
@@ -62,7 +62,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketServer() : is_open(false) {}; /**< @brief Default constructor, use with open(). **/
+	SocketServer() : socket_fd(-1), client_socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
@@ -107,7 +107,7 @@ public:
 	 * from 20 seconds to 4 minutes to me.  The official standard says
 	 * that it should be 4 minutes.
 	 */
-	void close() { is_open = false; ::close(socket_fd); }
+	void close();
 
 	bool open() const { return is_open; }
 
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index d79af97..1afcbf6 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -35,6 +35,8 @@ namespace ecl {
 
 SocketServer::SocketServer(const unsigned int &port_number) :
 		port(port_number),
+		socket_fd(-1),
+		client_socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -94,6 +96,18 @@ bool SocketServer::open( const unsigned int& port_number ) {
     return true;
 }
 
+void SocketServer::close() {
+	if ( client_socket_fd != -1 ) {
+		::close(client_socket_fd);
+		client_socket_fd = -1;
+	}
+	if ( is_open ) {
+		is_open = false;
+		::close(socket_fd);
+		socket_fd = -1;
+	}
+}
+
 int SocketServer::listen() {
 
 	/*********************
@@ -107,6 +121,7 @@ int SocketServer::listen() {
     struct sockaddr_in client;
     int client_length = sizeof(client);
 
+    if ( client_socket_fd != -1 ) { ::close(client_socket_fd); } // drop the previous client
     client_socket_fd = accept(socket_fd, (struct sockaddr *) &client, (socklen_t *) &client_length);
     if (client_socket_fd < 0) {
     	ecl_throw(devices::accept_exception(LOC));
-- 
2.43.0


From 741245c2680bdf52d9d11a9a1a8d9e940905bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:09 +0000
Subject: [PATCH 087/128] fix: a socket server without a connection read and
 wrote unset descriptors

---
 ecl_devices/src/lib/socket_server_pos.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 1afcbf6..4245df4 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -159,6 +159,8 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
 long SocketServer::peek(char *s, const unsigned long &n) {
 
+    if ( !open() ) { return ConnectionDisconnected; }
+
 	int bytes_read = ::recv(client_socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
     	ecl_debug_throw(devices::receive_exception(LOC));
@@ -170,6 +172,8 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
+
+    if ( !open() ) { return ConnectionDisconnected; }
     unsigned long bytes;
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
@@ -187,6 +191,8 @@ long SocketServer::remaining() {
 *****************************************************************************/
 
 long SocketServer::write(const char *s, unsigned long n) {
+
+    if ( !open() ) { return ConnectionDisconnected; }
     #ifdef MSG_NOSIGNAL
         int bytes_written = ::send(client_socket_fd,s,n,0|MSG_NOSIGNAL);
     #else
-- 
2.43.0


From 9c6da1218a7e8d51bc4954abc12f8a823101d44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:09 +0000
Subject: [PATCH 088/128] fix: the bytes remaining on a socket were reported
 with unset upper bits

---
 ecl_devices/src/lib/socket_client_pos.cpp | 2 +-
 ecl_devices/src/lib/socket_server_pos.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 3ce0b33..13ab536 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -194,7 +194,7 @@ long SocketClient::remaining() {
 
     if ( !open() ) { return ConnectionDisconnected; }
 
-    unsigned long bytes;
+    int bytes = 0;
     int result = ioctl(socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw( devices::ioctl_exception(LOC) );
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 4245df4..851763d 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -174,7 +174,7 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 long SocketServer::remaining() {
 
     if ( !open() ) { return ConnectionDisconnected; }
-    unsigned long bytes;
+    int bytes = 0;
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw(devices::ioctl_exception(LOC));
-- 
2.43.0


From 8e09aaf290e5330d66f5484485d8151b8d2754d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 089/128] fix: a socket client reported stale or missing errors

---
 ecl_devices/src/lib/socket_client_pos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 13ab536..1447e48 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -199,6 +199,7 @@ long SocketClient::remaining() {
     if ( result == -1 ) {
     	ecl_debug_throw( devices::ioctl_exception(LOC) );
     	error_handler =  devices::ioctl_error();
+    	return ConnectionProblem;
     }
     error_handler = NoError;
     return bytes;
@@ -235,6 +236,7 @@ long SocketClient::write(const char *s, unsigned long n) {
             }
         }
     }
+    error_handler = NoError;
     return bytes_written;
 }
 
-- 
2.43.0


From 08b2f49997452b697fac87dcfa01fd394c221e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 090/128] fix: the socket error codes for blocking and for
 missing permissions were never matched

---
 .../include/ecl/devices/detail/socket_error_handler_pos.hpp | 6 +++---
 ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index a0386f4..8f71e83 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -112,7 +112,7 @@ inline ecl::Error accept_error() {
 inline ecl::Error receive_error() {
 
   switch( errno ) {
-              case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
+              case ( EAGAIN )      : return ecl::Error(ecl::InterruptedError);
               case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNREFUSED) : return ecl::Error(ecl::ConnectionError);
               case ( EFAULT      ) : return ecl::Error(ecl::SystemFailureError);
@@ -148,7 +148,6 @@ inline ecl::Error ioctl_error() {
 inline ecl::Error send_error() {
 
   switch( errno ) {
-          case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EACCES      ) : return ecl::Error(ecl::PermissionsError);
           case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
@@ -188,7 +187,8 @@ inline ecl::Error gethostbyname_error() {
  */
 inline ecl::Error connection_error() {
   switch( errno ) {
-      case ( ( EACCES ) || ( EPERM ) ): return ecl::Error(ecl::PermissionsError);
+      case ( EACCES ) :
+      case ( EPERM )  : return ecl::Error(ecl::PermissionsError);
       case ( EADDRINUSE )  : return ecl::Error(ecl::BusyError);
       case ( EAFNOSUPPORT ): return ecl::Error(ecl::NotSupportedError);
       case ( EAGAIN )      : return ecl::Error(ecl::OutOfResourcesError);
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 283291a..c52517a 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -99,7 +99,7 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EAGAIN ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
 		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
 		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
@@ -119,7 +119,6 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
@@ -179,7 +178,8 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( ( EACCES ) || ( EPERM ) ): return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EACCES ) :
+        case ( EPERM )  : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
         case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
         case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
         case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-- 
2.43.0


From 9c621b9d039765303b082b47b38d6c1b038f4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:46 +0000
Subject: [PATCH 091/128] fix: differences of time stamps of opposite sign were
 not normalised

---
 ecl_time/src/lib/timestamp_base.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index cec3c31..2680758 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -171,6 +171,13 @@ TimeStampBase TimeStampBase::operator+(const TimeStampBase& time_stamp ) {
 void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
 
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
@@ -186,6 +193,13 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
 TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
 
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
-- 
2.43.0


From 3d03395ba7354e92936ee71321e822194748de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 092/128] fix: a snooze ending exactly on a second slept until
 an invalid time

---
 ecl_time/src/lib/snooze_pos.cpp | 2 +-
 ecl_time/src/lib/snooze_win.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/snooze_pos.cpp b/ecl_time/src/lib/snooze_pos.cpp
index 40062b7..fbf2587 100644
--- a/ecl_time/src/lib/snooze_pos.cpp
+++ b/ecl_time/src/lib/snooze_pos.cpp
@@ -57,7 +57,7 @@ void Snooze::operator()() {
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
diff --git a/ecl_time/src/lib/snooze_win.cpp b/ecl_time/src/lib/snooze_win.cpp
index 63a9f56..37d7581 100644
--- a/ecl_time/src/lib/snooze_win.cpp
+++ b/ecl_time/src/lib/snooze_win.cpp
@@ -57,7 +57,7 @@ void Snooze::operator()() {
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
-- 
2.43.0


From cccbe5b9dac5bfc092673db6d3bff598d0acb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 093/128] fix: the frequency monitor mixed the monotonic and
 the realtime clock

---
 ecl_time/src/lib/frequency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/frequency.cpp b/ecl_time/src/lib/frequency.cpp
index ab693e2..95c6b59 100644
--- a/ecl_time/src/lib/frequency.cpp
+++ b/ecl_time/src/lib/frequency.cpp
@@ -23,7 +23,11 @@ FrequencyMonitor::FrequencyMonitor(
 )
 : current_diagnostics()
 , incoming_counter(0)
+#if defined(ECL_HAS_RT_TIMERS)
+, last_anyalsed((use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp())
+#else
 , last_anyalsed()
+#endif
 , minimum_interval(100000.0) // something ridiculously large so the next interval will fall underneath it
 , maximum_interval(0.0)
 , period(window_period)
@@ -56,7 +60,7 @@ void FrequencyMonitor::update() {
 
 const FrequencyDiagnostics& FrequencyMonitor::analyse() {
 #if defined(ECL_HAS_RT_TIMERS)
-  ecl::TimeStamp now = ecl::TimeStamp::realtime_now();
+  ecl::TimeStamp now = (use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp();
 #else
   ecl::TimeStamp now = ecl::TimeStamp();
 #endif
-- 
2.43.0


From 15a7f92ec9d9076c37c7103dbca135a22f54bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:33 +0000
Subject: [PATCH 094/128] fix: reused micro and nanosecond sleepers kept the
 seconds of their last time

---
 ecl_time/src/lib/sleep_pos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/sleep_pos.cpp b/ecl_time/src/lib/sleep_pos.cpp
index db3764b..d0910d4 100644
--- a/ecl_time/src/lib/sleep_pos.cpp
+++ b/ecl_time/src/lib/sleep_pos.cpp
@@ -101,7 +101,8 @@ void MicroSleep::operator ()() {
 }
 
 void MicroSleep::operator ()(const unsigned long &micro_seconds) {
-  required.tv_nsec = 1000*micro_seconds;
+  required.tv_sec = micro_seconds/1000000; // integer division
+  required.tv_nsec = (micro_seconds%1000000)*1000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
@@ -123,7 +124,8 @@ void NanoSleep::operator ()() {
 }
 
 void NanoSleep::operator ()(const unsigned long &nanoseconds) {
-  required.tv_nsec = nanoseconds;
+  required.tv_sec = nanoseconds/1000000000; // integer division
+  required.tv_nsec = nanoseconds%1000000000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
-- 
2.43.0


From e302e2e6c49e7573b74f54cb5f1eb87d129bca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:19 +0000
Subject: [PATCH 095/128] fix: a seeded random number generator started with
 another one's leftover

---
 ecl_time/include/ecl/time/random_number_generator.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_time/include/ecl/time/random_number_generator.hpp b/ecl_time/include/ecl/time/random_number_generator.hpp
index 37c2ed4..1be7474 100644
--- a/ecl_time/include/ecl/time/random_number_generator.hpp
+++ b/ecl_time/include/ecl/time/random_number_generator.hpp
@@ -38,12 +38,12 @@ template<typename T>
 class RandomNumberGenerator
 {
 public:
-  RandomNumberGenerator( const unsigned int randSeed )
+  RandomNumberGenerator( const unsigned int randSeed ) : y2(0), use_last(false)
   {
     srand( randSeed );
   }
 
-  RandomNumberGenerator()
+  RandomNumberGenerator() : y2(0), use_last(false)
   {
     RandomNumberGenerator::seed();
   }
@@ -61,8 +61,6 @@ public:
   T gaussian( const T & std, const T & mu = 0 )
   {
     T x1, x2, w, y1;
-    static T y2;
-    static bool use_last = false;
 
     if (use_last)  /* use value from previous call */
     {
@@ -87,6 +85,9 @@ public:
   }
 
 private:
+  T y2; // second number of the last pair drawn by gaussian()
+  bool use_last;
+
   /**
    * @brief Seed the system random number generator.
    *
-- 
2.43.0


From 5701feead7833a37f1c0b91402afe3647a27bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 096/128] fix: a gaussian number was not a number when both
 coordinates were zero

---
 ecl_time/include/ecl/time/random_number_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_time/include/ecl/time/random_number_generator.hpp b/ecl_time/include/ecl/time/random_number_generator.hpp
index 1be7474..2c71862 100644
--- a/ecl_time/include/ecl/time/random_number_generator.hpp
+++ b/ecl_time/include/ecl/time/random_number_generator.hpp
@@ -73,7 +73,7 @@ public:
           x1 = 2.0 * uniform() - 1.0;
           x2 = 2.0 * uniform() - 1.0;
           w = x1 * x1 + x2 * x2;
-      } while ( w >= 1.0 );
+      } while ( w >= 1.0 || w == 0.0 );
 
       w = std::sqrt( (-2.0 * std::log( w ) ) / w );
       y1 = x1 * w;
-- 
2.43.0


From 0f90cd75196fdcff66184507ef90f27922e49d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 097/128] fix: the timed semaphore lock waited on the wrong
 clock, a second too long at times

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 7a8291a..6025474 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -18,7 +18,7 @@
 #include <sstream>
 #include <ecl/errors/handlers.hpp>
 #include <ecl/exceptions/standard_exception.hpp>
-#include <ecl/time_lite/functions.hpp>
+#include <time.h>
 
 /*****************************************************************************
 ** Namespaces
@@ -140,17 +140,18 @@ bool Semaphore::trylock()
 bool Semaphore::trylock( const Duration &timeout ) {
 
     #if defined(_POSIX_TIMEOUTS) && (_POSIX_TIMEOUTS - 200112L) >= 0L
-		long tnsec;
 		timespec ctime;
-
-		if ( epoch_time(ctime).flag() != NoError ) { return false; }
-
+		// sem_timedwait() waits until an absolute time on this clock
+		if ( clock_gettime(CLOCK_REALTIME, &ctime) != 0 ) { return false; }
 		ctime.tv_sec += timeout.sec();
-
-		tnsec = ctime.tv_nsec + timeout.nsec();
-		if(tnsec >=  999999999 ) { ctime.tv_sec += 1; }
-		tnsec %= 1000000000;
-		ctime.tv_nsec = tnsec;
+		ctime.tv_nsec += timeout.nsec();
+		if ( ctime.tv_nsec >= 1000000000L ) {
+			ctime.tv_sec += 1;
+			ctime.tv_nsec -= 1000000000L;
+		} else if ( ctime.tv_nsec < 0 ) {
+			ctime.tv_sec -= 1;
+			ctime.tv_nsec += 1000000000L;
+		}
 
 		// We already guarantee timeout is the right structure, so no
 		// need to check for EINVAL, other errors should be almost
-- 
2.43.0


From 745761b5a48a40a356c14427bc0e3d5f0e763f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 098/128] fix: a signal let a process pass a locked semaphore

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 6025474..5b0ab47 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -103,7 +103,7 @@ Semaphore::~Semaphore()
 
 void Semaphore::lock()
 {
-	sem_wait(semaphore);
+	while ( ( sem_wait(semaphore) != 0 ) && ( errno == EINTR ) ) {} // a signal does not unlock it
 }
 
 int Semaphore::count()
-- 
2.43.0


From 821801d8b7d30481a8973969b462ad3f8d0c3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:00 +0000
Subject: [PATCH 099/128] fix: release mode closed semaphores that were never
 opened

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 5b0ab47..86724e0 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -95,6 +95,7 @@ Semaphore::Semaphore(const std::string& string_id):
 
 Semaphore::~Semaphore()
 {
+	if ( semaphore == SEM_FAILED ) { return; } // release mode does not throw in the constructor
 	// Should check the error, but only fails if the semaphore is invalid (checked by constructor).
     sem_close(semaphore);
 	// Should check the error, but only fails with noncritical errors.
-- 
2.43.0


From 031102b6fdd96fc9b620cf5ae5bec4c423738d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:09 +0000
Subject: [PATCH 100/128] fix: a failed connection to shared memory removed the
 memory of the others and leaked its mapping

---
 ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
index 88f8894..b36b8dd 100644
--- a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
@@ -195,9 +195,8 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
     void * shm_address;
     if ( (shm_address = mmap(0,shared_memory_size,PROT_READ|PROT_WRITE,MAP_SHARED,shm_descriptor,(long) 0)) == MAP_FAILED )
     {
-        shared_memory_manager = false;
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) { unlink(); } // otherwise it belongs to someone else
         ecl_throw( ipc::memoryMapException(LOC) );
     }
     /*
@@ -206,9 +205,9 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
      */
     if ( ftruncate(shm_descriptor,shared_memory_size) < 0 )
     {
-        shared_memory_manager = false;
+        munmap(shm_address,shared_memory_size);
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) { unlink(); } // otherwise it belongs to someone else
         ecl_throw(StandardException(LOC,OpenError,"Shared memory created, but inflation to the desired size failed."));
     }
 
-- 
2.43.0


From 982c85bbd0fe2096d4daa6dc2fa01ff8f7c08cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:09 +0000
Subject: [PATCH 101/128] fix: an unlinked shared memory manager later removed
 a newer section of the same name

---
 ecl_ipc/src/lib/shared_memory_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index 7430e0b..c92a06d 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -38,6 +38,7 @@ namespace ipc {
 
 void SharedMemoryBase::unlink() {
 	shm_unlink(name.c_str());
+	shared_memory_manager = false; // the name may belong to a newer section from here on
 }
 
 int SharedMemoryBase::open() {
-- 
2.43.0


From abac42e8495cceedd53f8c74c3ec0cfe7f5ebab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:11 +0000
Subject: [PATCH 102/128] fix: cancelled threads deleted their task twice,
 finished threads still claimed to run

---
 .../include/ecl/threads/thread_pos.hpp        | 37 +++++++++----------
 ecl_threads/src/lib/thread_pos.cpp            | 18 +++------
 2 files changed, 24 insertions(+), 31 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index fe01f7b..6fecf33 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -23,6 +23,8 @@
 ** Includes
 *****************************************************************************/
 
+#include <atomic>
+#include <memory>
 #include <pthread.h>
 #include "thread_exceptions_pos.hpp"
 #include <ecl/config/macros.hpp>
@@ -50,10 +52,12 @@ namespace threads {
  */
 class ECL_LOCAL ThreadTaskBase {
 public:
-	virtual ~ThreadTaskBase() {};
+	virtual ~ThreadTaskBase() { *running = false; };
+
+	std::shared_ptr< std::atomic<bool> > running; /**< Shared with the thread object, outlives the task (which is deleted by its thread). **/
 
 protected:
-	ThreadTaskBase(const Priority& priority) : priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
+	ThreadTaskBase(const Priority& priority) : running(std::make_shared< std::atomic<bool> >(true)), priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
 	ecl::Priority priority_level;
 };
 /**
@@ -92,12 +96,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, false > *ptr = static_cast< ThreadTask< F, false > * >(ptr_this);
+	    // deletes the task, also when the thread gets cancelled
+	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -140,12 +143,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, true > *ptr = static_cast< ThreadTask< F, true > * >(ptr_this);
+	    // deletes the task, also when the thread gets cancelled
+	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -240,7 +242,6 @@ public:
 	 * Use one of the start() functions to kick the thread off.
 	 */
 	Thread() :
-		thread_task(NULL),
 		has_started(false),
 		join_requested(false)
 	{
@@ -381,7 +382,7 @@ public:
 	 *
 	 * @return bool : true if the thread task is still running, false otherwise.
 	 */
-	bool isRunning() const { if ( thread_task == NULL ) { return false; } else { return true; } }
+	bool isRunning() const { return running && *running; }
 
 	/**
 	 * @brief Queue a cancel request for this thread to abort.
@@ -417,7 +418,7 @@ private:
 	pthread_t thread_handle;
     pthread_attr_t attrs;
     sched_param schedule_parameters;
-    threads::ThreadTaskBase *thread_task;
+    std::shared_ptr< std::atomic<bool> > running;
     bool has_started;
     bool join_requested;
 
@@ -434,7 +435,6 @@ private:
 
 template <typename C>
 Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
 	has_started(false),
 	join_requested(false)
 {
@@ -444,7 +444,6 @@ Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long
 
 template <typename F>
 Thread::Thread(const F &function, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
 	has_started(false),
 	join_requested(false)
 {
@@ -461,12 +460,12 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 		has_started = true;
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	threads::ThreadTask< BoundNullaryMemberFunction<C,void> > *thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	running = thread_task->running;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< BoundNullaryMemberFunction<C,void> >::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
     	delete thread_task;
-    	thread_task = NULL;
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
@@ -483,12 +482,12 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 		has_started = true;
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	threads::ThreadTask<F, is_reference_wrapper<F>::value > *thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	running = thread_task->running;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask<F, is_reference_wrapper<F>::value>::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
     	delete thread_task;
-    	thread_task = NULL;
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 8decbc2..b7883d4 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -31,7 +31,6 @@ namespace ecl {
 *****************************************************************************/
 
 Thread::Thread(VoidFunction function, const Priority &priority, const long &stack_size) :
-  thread_task(NULL),
   has_started(false),
   join_requested(false)
 {
@@ -48,12 +47,12 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   }
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
-  thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  threads::ThreadTask< NullaryFreeFunction<void> > *thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  running = thread_task->running;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< NullaryFreeFunction<void> >::EntryPoint, thread_task);
   pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
       delete thread_task;
-      thread_task = NULL;
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
@@ -78,16 +77,11 @@ Thread::~Thread() {
   }
 }
 void Thread::cancel() {
-  int result = pthread_cancel(thread_handle);
-  // Note - if we reach here, then entrypoint hasn't gone through to conclusion and
-  // subsequently the thread_task object on the heap hasn't been deleted. So...
-  // always delete it here!
-    if ( thread_task != NULL ) {
-      delete thread_task;
-      thread_task = NULL;
-    }
+  // The thread deletes its task when it gets there.
+  int result = isRunning() ? pthread_cancel(thread_handle) : ESRCH;
+  running.reset();
     if ( result != 0 ) {
-        ecl_debug_throw(threads::throwPthreadJoinException(LOC,result));
+        ecl_debug_throw(threads::throwPthreadCancelException(LOC,result));
     }
 }
 
-- 
2.43.0


From 0efc11bd9a8ae6a132a90bb3743a4ddb86d0cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:11 +0000
Subject: [PATCH 103/128] fix: cancelled threads were never joined, joined
 threads were joined again

---
 ecl_threads/src/lib/thread_pos.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index b7883d4..8f215dc 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -86,9 +86,12 @@ void Thread::cancel() {
 }
 
 void Thread::join() {
-  join_requested = true;
-  if( thread_task != NULL ) {
-    int result = pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
+  if( has_started ) {
+    // joining a second time is an error, its handle is invalid by then
+    int result = join_requested ? ESRCH : pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
+    if ( result == 0 ) {
+      join_requested = true;
+    }
       ecl_assert_throw( result == 0, threads::throwPthreadJoinException(LOC,result));
       (void) result; // for unused variable warnings, in case the assert wasn't triggered
   }
-- 
2.43.0


From 00f5a2940d4c1442d133e9c9d354f08bdfc819cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:11 +0000
Subject: [PATCH 104/128] fix: a thread that failed to start was detached and
 could not be started again

---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 6 ++----
 ecl_threads/src/lib/thread_pos.cpp             | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index 6fecf33..181d395 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -456,8 +456,6 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	threads::ThreadTask< BoundNullaryMemberFunction<C,void> > *thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
@@ -469,6 +467,7 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+	has_started = true;
     return Error(NoError);
 }
 
@@ -478,8 +477,6 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	threads::ThreadTask<F, is_reference_wrapper<F>::value > *thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
@@ -491,6 +488,7 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+	has_started = true;
     return Error(NoError);
 }
 
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 8f215dc..b4a9bce 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -42,8 +42,6 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   if ( has_started ) {
     ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
     return Error(BusyError); // if in release mode, gracefully fall back to return values.
-  } else {
-    has_started = true;
   }
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
@@ -56,6 +54,7 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+  has_started = true;
     return Error(NoError);
 }
 
-- 
2.43.0


From d99123e300da0a289dac2aad08c81247427908b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:28 +0000
Subject: [PATCH 105/128] fix: a refused niceness was not reported, a refused
 critical or real time priority terminated the process

---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 8 ++++++--
 ecl_threads/src/lib/priority_pos.cpp           | 8 ++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index 181d395..29839df 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -98,7 +98,9 @@ public:
 	static void* EntryPoint(void *ptr_this) {
 	    // deletes the task, also when the thread gets cancelled
 	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
-	    ecl::set_priority(ptr->priority_level);
+	    ecl_try {
+	        ecl::set_priority(ptr->priority_level);
+	    } ecl_catch(const StandardException&) {} // not permitted, runs with the inherited priority
 	    (ptr->function)();
 	    return NULL;
 	}
@@ -145,7 +147,9 @@ public:
 	static void* EntryPoint(void *ptr_this) {
 	    // deletes the task, also when the thread gets cancelled
 	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
-	    ecl::set_priority(ptr->priority_level);
+	    ecl_try {
+	        ecl::set_priority(ptr->priority_level);
+	    } ecl_catch(const StandardException&) {} // not permitted, runs with the inherited priority
 	    (ptr->function)();
 	    return NULL;
 	}
diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 83d974e..9e0d50f 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -91,19 +91,19 @@ bool set_priority(Priority priority_level)
             break;
         }
         case HighPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case NormalPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
             break;
         }
         case LowPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case BackgroundPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MAX);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MAX);
             break;
         }
         default : {
-- 
2.43.0


From 8240988c87d41dfdfe21c0525db93afa0e5f1edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:28 +0000
Subject: [PATCH 106/128] fix: background priority was read back as normal
 priority

---
 ecl_threads/src/lib/priority_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 9e0d50f..b24f764 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -176,6 +176,7 @@ Priority get_priority()
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4) : { return HighPriority; }
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2) : { return NormalPriority; }
         case (PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4) : { return LowPriority; }
+        case (PRIO_MAX - 1) : // the kernel stops short of PRIO_MAX
         case (PRIO_MAX) : { return BackgroundPriority; }
         default : return NormalPriority;
     }
-- 
2.43.0


From 8225b7797f8793e8b09d92406e41390c7a5bbedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:37 +0000
Subject: [PATCH 107/128] fix: a real time priority could not be given up again

---
 ecl_threads/src/lib/priority_pos.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index b24f764..2d7fbb8 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -84,6 +84,16 @@ bool set_priority(Priority priority_level)
     ** scheduling priority which can be seen when you do a 'top'.
     *************************************************************************/
     int return_value = 0;
+    #if _POSIX_PRIORITY_SCHEDULING > 0
+        if ( ( priority_level >= BackgroundPriority ) && ( sched_getscheduler(0) == SCHED_RR ) ) {
+            sched_param schedule_parameters;
+            schedule_parameters.sched_priority = 0;
+            if ( sched_setscheduler(0,SCHED_OTHER,&schedule_parameters) == -1 ) {
+                ecl_debug_throw(threads::throwPriorityException(LOC));
+                return false;
+            }
+        }
+    #endif
 
     switch (priority_level) {
         case CriticalPriority : {
-- 
2.43.0


From 179578c08fc3ec41c0b6bc6e29e6499488cc4906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:10 +0000
Subject: [PATCH 108/128] fix: a threadable could run twice at once, raced with
 its users and stayed running after a failed start

---
 .../include/ecl/threads/threadable.hpp        | 38 +++++++++++++++----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/threadable.hpp b/ecl_threads/include/ecl/threads/threadable.hpp
index 1f90eb4..9110813 100644
--- a/ecl_threads/include/ecl/threads/threadable.hpp
+++ b/ecl_threads/include/ecl/threads/threadable.hpp
@@ -26,7 +26,7 @@
 ** Includes
 *****************************************************************************/
 
-#include <ecl/utilities/parameter.hpp>
+#include <atomic>
 #include <ecl/config/macros.hpp>
 #include "thread.hpp"
 #include "priority.hpp"
@@ -65,6 +65,23 @@ namespace ecl {
  */
 class ECL_PUBLIC Threadable {
 public:
+	/**
+	 * @brief A boolean parameter that can be shared by the worker thread and its users.
+	 */
+	class RunningFlag {
+	public:
+		RunningFlag(const bool value) : flag(value) {}
+		RunningFlag(const RunningFlag &other) : flag(other.flag.load()) {}
+		void operator =(const bool value) { flag = value; }
+		void operator =(const RunningFlag &other) { flag = other.flag.load(); }
+		operator bool() const { return flag; }
+		bool operator ()() const { return flag; }
+		void operator ()(const bool value) { flag = value; }
+		bool exchange(const bool value) { return flag.exchange(value); }
+	private:
+		std::atomic<bool> flag;
+	};
+
 	virtual ~Threadable() {}
 
 	/**
@@ -74,20 +91,27 @@ public:
 	 * Note that it makes a check first to see if a thread is already running and simply
 	 * returns if there is. There can be only one!
 	 *
-	 * @return bool : true if started, false if a worker thread is already running.
+	 * @return bool : true if started, false if a worker thread is already running or could not be started.
 	 */
 	bool start(const Priority &priority = DefaultPriority) {
-		if ( isRunning() ) { return false; }
-		isRunning(true); // This is not ideal, as it's not perfectly atomic (i.e. someone can query isRunning before this gets set).
-		Thread thread(&Threadable::executeThreadFunction,*this, priority);
-		return true;
+		if ( isRunning.exchange(true) ) { return false; }
+		Thread thread;
+		bool started = false;
+		ecl_try {
+			started = ( thread.start(&Threadable::executeThreadFunction,*this, priority).flag() == NoError );
+		} ecl_catch(const StandardException &e) {
+			isRunning(false);
+			ecl_throw(StandardException(e)); // Rethrow
+		}
+		if ( !started ) { isRunning(false); }
+		return started;
 	}
 	/**
 	 * @brief Used to check if a worker thread is already running.
 	 *
 	 * Use this to check if a worker thread is already running.
 	 */
-	Parameter<bool> isRunning;
+	RunningFlag isRunning;
 
 protected:
 	Threadable() : isRunning(false) {}
-- 
2.43.0


From 3d6ebdfd5ec319e26e89cd22b070121cee0a4a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:47 +0000
Subject: [PATCH 109/128] fix: the pointer of a reference wrapper did not
 compile

---
 ecl_utilities/include/ecl/utilities/references.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_utilities/include/ecl/utilities/references.hpp b/ecl_utilities/include/ecl/utilities/references.hpp
index 0bc6d13..417e3ed 100644
--- a/ecl_utilities/include/ecl/utilities/references.hpp
+++ b/ecl_utilities/include/ecl/utilities/references.hpp
@@ -124,7 +124,7 @@ public:
      *
      * @return T& : the returned pointer to the wrapped object.
      */
-    T* pointer() const { return *obj_ptr; }
+    T* pointer() const { return obj_ptr; }
 
 private:
     T* obj_ptr;
-- 
2.43.0


From 242a61a1fdd6c76453a32acf6ab9c6a3dd6a76da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:47 +0000
Subject: [PATCH 110/128] fix: bound member functions with a result and their
 argument did not compile

---
 ecl_utilities/include/ecl/utilities/function_objects.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_utilities/include/ecl/utilities/function_objects.hpp b/ecl_utilities/include/ecl/utilities/function_objects.hpp
index 28b0ed3..17ea352 100644
--- a/ecl_utilities/include/ecl/utilities/function_objects.hpp
+++ b/ecl_utilities/include/ecl/utilities/function_objects.hpp
@@ -710,7 +710,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
 };
 /**
  * @brief Nullary function object for bound unary member functions.
@@ -770,7 +770,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
     A argument;
 };
 
@@ -833,7 +833,7 @@ public:
         }
 private:
         C &member_class;
-        void (C::*member_function)(A, B);
+        R (C::*member_function)(A, B);
 };
 /*****************************************************************************
 ** Function Object Wrappers
-- 
2.43.0


From 4c49d350e405d9eaa9321e4c016d34adc26a41e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:47 +0000
Subject: [PATCH 111/128] fix: function objects kept references to temporaries
 bound to const reference arguments

---
 .../include/ecl/utilities/function_objects.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ecl_utilities/include/ecl/utilities/function_objects.hpp b/ecl_utilities/include/ecl/utilities/function_objects.hpp
index 17ea352..1cbee8c 100644
--- a/ecl_utilities/include/ecl/utilities/function_objects.hpp
+++ b/ecl_utilities/include/ecl/utilities/function_objects.hpp
@@ -16,6 +16,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <type_traits>
 #include <ecl/concepts/nullary_function.hpp>
 #include "../utilities/references.hpp"
 
@@ -265,6 +266,17 @@ private:
 /*****************************************************************************
 ** Interface [BoundFreeFunctions]
 *****************************************************************************/
+/**
+ * @brief How a bound argument is stored.
+ *
+ * A function taking a const reference gets a copy of the bound argument, which may well have been
+ * a temporary (if it can be copied without slicing).
+ */
+template <typename A> struct BoundArgument { typedef A type; };
+template <typename A> struct BoundArgument<const A&> {
+	typedef typename std::conditional<std::is_copy_constructible<A>::value && !std::is_polymorphic<A>::value, A, const A&>::type type;
+};
+
 /**
  * @brief Nullary function object for bound unary global/static functions.
  *
@@ -313,7 +325,7 @@ public:
 
 private:
 	R (*free_function)(A);
-	A argument;
+	typename BoundArgument<A>::type argument;
 };
 
 /**
@@ -350,7 +362,7 @@ public:
 
 private:
 	void (*free_function)(A);
-	A argument;
+	typename BoundArgument<A>::type argument;
 };
 
 /*****************************************************************************
@@ -771,7 +783,7 @@ public:
 private:
 	C &member_class;
     R (C::*member_function)(A);
-    A argument;
+    typename BoundArgument<A>::type argument;
 };
 
 /**
-- 
2.43.0


From 59aef507006644cf3a4e66800d6e68db2144424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:30 +0000
Subject: [PATCH 112/128] fix: a failing realpath leaked its buffer and
 returned uninitialised memory

---
 ecl_filesystem/src/lib/realpath.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecl_filesystem/src/lib/realpath.cpp b/ecl_filesystem/src/lib/realpath.cpp
index 4bc7922..6e56214 100644
--- a/ecl_filesystem/src/lib/realpath.cpp
+++ b/ecl_filesystem/src/lib/realpath.cpp
@@ -20,6 +20,7 @@
 #include <climits>  // limits.h
 #include <cstdlib>  // stdlib.h
 #include <string>
+#include <vector>
 #include <ecl/errors/handlers.hpp>
 #include "../../include/ecl/filesystem/realpath.hpp"
 
@@ -43,11 +44,11 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
     if (path_max <= 0) { path_max = 4096; } /* Not guaranteed to give you results */
   #endif
 
-  char *buffer = new char[path_max];
-  char *result = ::realpath(path.c_str(), buffer);
-  absolute_path = buffer;
+  std::vector<char> buffer(path_max, 0); // stays empty if realpath() fails early
+  char *result = ::realpath(path.c_str(), buffer.data());
+  absolute_path = buffer.data();
   if ( result != NULL ) {
-    absolute_path = buffer;
+    absolute_path = buffer.data();
   } else {
     switch(errno) {
       case(EACCES)       : { return Error(PermissionsError); }   // Read or search permission was denied for a component of the path prefix.
@@ -60,7 +61,6 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
       default            : { return Error(UnknownError); }
     }
   }
-  delete[] buffer;
   return Error(NoError);
 }
 
-- 
2.43.0


From 6b609bdb547a6edcfeb6a0a16947695cbf35b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 113/128] fix: serial devices started with an undefined state,
 timeout and descriptor

---
 ecl_devices/include/ecl/devices/serial_pos.hpp | 2 +-
 ecl_devices/src/lib/serial_pos.cpp             | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index a3c0dd5..7076f99 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -141,7 +141,7 @@ namespace ecl
      * constructors. Use this with the open() command to do so. You can
      * check for open status with via the open accessor.
      */
-    Serial() : is_open(false), error_handler(NoError)
+    Serial() : file_descriptor(-1), options(), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
     {};
     /**
      * @brief Constructs and opens the connection, RAII style.
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 1103b6f..b18a48c 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -68,7 +68,7 @@ using ecl::StandardException;
 
 Serial::Serial(const std::string& port_name, const BaudRate &baud_rate, const DataBits &data_bits,
                const StopBits &stop_bits, const Parity &parity) :
-    port(port_name), read_timeout_ms(5000), error_handler(NoError)
+    file_descriptor(-1), options(), port(port_name), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
 {
   ecl_try
   {
@@ -282,6 +282,7 @@ void Serial::close()
   {
     // should check return values here, it does have some, EBADF/EINTR/EIO
     ::close(file_descriptor);
+    file_descriptor = -1;
     is_open = false;
   }
 }
-- 
2.43.0


From 9e3f273d6f198d15528d9b29c31f4a13c3df9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 114/128] fix: a serial device that failed to open kept the
 descriptor, or left the old connection open

---
 ecl_devices/src/lib/serial_pos.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index b18a48c..504868f 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -94,6 +94,10 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   /*********************
    ** Input Checks
    **********************/
+  if (open())
+  {
+    close();
+  }
   if (stop_bits == StopBits_15)
   {
     ecl_throw(
@@ -102,11 +106,6 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
     is_open = false;
     return false;
   }
-
-  if (open())
-  {
-    close();
-  }
   port = port_name;
   // One curious thing here is O_NONBLOCK. If you do not specify this, it will try
   // and wait till the line has an 'other' end. Which it can't possibly know, so
@@ -124,6 +123,8 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
                                         B230400, B460800, B921600};
   if (baud_rate >= (sizeof(baud_rate_flags) / sizeof(B110)))
   {
+    ::close(file_descriptor);
+    file_descriptor = -1;
     ecl_throw(StandardException(LOC,ConfigurationError,"Selected baudrate is not supported."));
     error_handler = InvalidArgError;
     is_open = false;
@@ -152,8 +153,11 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   file_lock.l_pid = getpid();
   if (fcntl(file_descriptor, F_SETLK, &file_lock) != 0)
   {
+    int lock_error = errno;
+    ::close(file_descriptor);
+    file_descriptor = -1;
     ecl_throw(
-        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(errno))));
+        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(lock_error))));
     error_handler = IsLockedError;
     is_open = false;
     return false;
@@ -172,6 +176,8 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    **********************/
   if (cfsetspeed(&options, baud_rate_flags[baud_rate]) < 0)
   {
+    ::close(file_descriptor);
+    file_descriptor = -1;
     ecl_throw(StandardException(LOC,ConfigurationError,"Setting speed failed."));
     error_handler = InvalidArgError;
     is_open = false;
-- 
2.43.0


From 840180348cc75e72f9385b23c05cc3d4fc51fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 115/128] fix: long serial timeouts wrapped around, some to no
 timeout at all

---
 ecl_devices/src/lib/serial_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 504868f..5a634df 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -354,7 +354,8 @@ void Serial::block(const unsigned long &timeout)
     }
     else
     {
-      options.c_cc[VTIME] = static_cast<unsigned char>(timeout / 100);
+      unsigned long tenths = timeout / 100;
+      options.c_cc[VTIME] = static_cast<unsigned char>(tenths < 255 ? tenths : 255); // the longest it can hold
     }
     tcsetattr(file_descriptor, TCSAFLUSH, &options);
   }
-- 
2.43.0


From b9f503cf75a855a9012f552f19abd028548cd9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 116/128] fix: serial reads with a timeout of zero read nothing
 and returned an undefined count

---
 ecl_devices/include/ecl/devices/serial_pos.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index 7076f99..f894205 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -453,10 +453,10 @@ namespace ecl
     if ( ( read_timeout_ms != NonBlocking ) && ( read_timeout_ms < 100 ) )
     {
       fake_snooze.initialise();
-      for ( unsigned int i = 0; i < fake_loop_count; ++i )
+      for ( unsigned int i = 0; ; ++i )
       {
         no_read = ::read(file_descriptor, &byte, 1);
-        if ( no_read != 0 )
+        if ( ( no_read != 0 ) || ( i >= fake_loop_count ) )
         {
           break;
         }
@@ -492,10 +492,10 @@ namespace ecl
     if ( ( read_timeout_ms != NonBlocking ) && ( read_timeout_ms < 100 ) )
     {
       fake_snooze.initialise();
-      for ( unsigned int i = 0; i < fake_loop_count; ++i )
+      for ( unsigned int i = 0; ; ++i )
       {
         no_read = ::read(file_descriptor, bytes, n);
-        if ( no_read != 0 )
+        if ( ( no_read != 0 ) || ( i >= fake_loop_count ) )
         {
           break;
         }
-- 
2.43.0


From 97c44d36a8bb24099c13edf591fb1e53961c9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:53 +0000
Subject: [PATCH 117/128] fix: serial devices with parity lost the eighth data
 bit

---
 ecl_devices/src/lib/serial_pos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 5a634df..07c017f 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -247,13 +247,13 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   }
   else if (parity == EvenParity)
   {
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= (data_bits == DataBits_8) ? INPCK : (INPCK | ISTRIP); // Enable parity check and strip parity bit
     options.c_cflag |= PARENB;
     options.c_cflag &= ~PARODD;
   }
   else
   { // OddParity
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= (data_bits == DataBits_8) ? INPCK : (INPCK | ISTRIP); // Enable parity check and strip parity bit
     options.c_cflag |= PARENB;
     options.c_cflag |= PARODD;
   }
-- 
2.43.0


From 0ae4f33da9e59ae058ba1fd18a0e504db08c8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:51 +0000
Subject: [PATCH 118/128] fix: the limits of long long and the sizes of the
 floating types had no definitions

---
 ecl_type_traits/src/lib/numeric_limits.cpp | 91 +++++++++++++---------
 1 file changed, 56 insertions(+), 35 deletions(-)

diff --git a/ecl_type_traits/src/lib/numeric_limits.cpp b/ecl_type_traits/src/lib/numeric_limits.cpp
index a65d9a9..5c7644b 100644
--- a/ecl_type_traits/src/lib/numeric_limits.cpp
+++ b/ecl_type_traits/src/lib/numeric_limits.cpp
@@ -38,41 +38,62 @@ const unsigned char numeric_limits<unsigned char>::minimum;
 const unsigned char numeric_limits<unsigned char>::maximum;
 
 
-const int16 numeric_limits<int16>::one;
-const uint16 numeric_limits<int16>::bits;
-const uint16 numeric_limits<int16>::bytes;
-const int16 numeric_limits<int16>::minimum;
-const int16 numeric_limits<int16>::maximum;
-
-const uint16 numeric_limits<uint16>::one;
-const uint16 numeric_limits<uint16>::bits;
-const uint16 numeric_limits<uint16>::bytes;
-const uint16 numeric_limits<uint16>::minimum;
-const uint16 numeric_limits<uint16>::maximum;
-
-const int32 numeric_limits<int32>::one;
-const uint16 numeric_limits<int32>::bits;
-const uint16 numeric_limits<int32>::bytes;
-const int32 numeric_limits<int32>::minimum;
-const int32 numeric_limits<int32>::maximum;
-
-const uint32 numeric_limits<uint32>::one;
-const uint16 numeric_limits<uint32>::bits;
-const uint16 numeric_limits<uint32>::bytes;
-const uint32 numeric_limits<uint32>::minimum;
-const uint32 numeric_limits<uint32>::maximum;
-
-const int64 numeric_limits<int64>::one;
-const uint16 numeric_limits<int64>::bits;
-const uint16 numeric_limits<int64>::bytes;
-const int64 numeric_limits<int64>::minimum;
-const int64 numeric_limits<int64>::maximum;
-
-const uint64 numeric_limits<uint64>::one;
-const uint16 numeric_limits<uint64>::bits;
-const uint16 numeric_limits<uint64>::bytes;
-const uint64 numeric_limits<uint64>::minimum;
-const uint64 numeric_limits<uint64>::maximum;
+const short numeric_limits<short>::one;
+const uint16 numeric_limits<short>::bits;
+const uint16 numeric_limits<short>::bytes;
+const short numeric_limits<short>::minimum;
+const short numeric_limits<short>::maximum;
+
+const unsigned short numeric_limits<unsigned short>::one;
+const uint16 numeric_limits<unsigned short>::bits;
+const uint16 numeric_limits<unsigned short>::bytes;
+const unsigned short numeric_limits<unsigned short>::minimum;
+const unsigned short numeric_limits<unsigned short>::maximum;
+
+const int numeric_limits<int>::one;
+const uint16 numeric_limits<int>::bits;
+const uint16 numeric_limits<int>::bytes;
+const int numeric_limits<int>::minimum;
+const int numeric_limits<int>::maximum;
+
+const unsigned int numeric_limits<unsigned int>::one;
+const uint16 numeric_limits<unsigned int>::bits;
+const uint16 numeric_limits<unsigned int>::bytes;
+const unsigned int numeric_limits<unsigned int>::minimum;
+const unsigned int numeric_limits<unsigned int>::maximum;
+
+const long numeric_limits<long>::one;
+const uint16 numeric_limits<long>::bits;
+const uint16 numeric_limits<long>::bytes;
+const long numeric_limits<long>::minimum;
+const long numeric_limits<long>::maximum;
+
+const unsigned long numeric_limits<unsigned long>::one;
+const uint16 numeric_limits<unsigned long>::bits;
+const uint16 numeric_limits<unsigned long>::bytes;
+const unsigned long numeric_limits<unsigned long>::minimum;
+const unsigned long numeric_limits<unsigned long>::maximum;
+
+const long long numeric_limits<long long>::one;
+const uint16 numeric_limits<long long>::bits;
+const uint16 numeric_limits<long long>::bytes;
+const long long numeric_limits<long long>::minimum;
+const long long numeric_limits<long long>::maximum;
+
+const unsigned long long numeric_limits<unsigned long long>::one;
+const uint16 numeric_limits<unsigned long long>::bits;
+const uint16 numeric_limits<unsigned long long>::bytes;
+const unsigned long long numeric_limits<unsigned long long>::minimum;
+const unsigned long long numeric_limits<unsigned long long>::maximum;
+
+const uint16 numeric_limits<float>::bits;
+const uint16 numeric_limits<float>::bytes;
+
+const uint16 numeric_limits<double>::bits;
+const uint16 numeric_limits<double>::bytes;
+
+const uint16 numeric_limits<long double>::bits;
+const uint16 numeric_limits<long double>::bytes;
 
 /* Dummy precision is a useful concept borrowed from eigen. It is used to help define
  * fuzzy operators which is especially handy for comparing floats which are notorious with
-- 
2.43.0


From fdacff84d7b3262697cdd4ef18ef96f86adf67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:12 +0000
Subject: [PATCH 119/128] fix: the first element of a stencil was answered when
 its container had shrunk to just before it

---
 ecl_containers/include/ecl/containers/stencil/stencil.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index b7c0dca..98b76bf 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -349,7 +349,7 @@ public:
    */
   reference front()
   {
-    ecl_assert_throw( b_iter <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < array.end(), StandardException(LOC,OutOfRangeError));
     return *b_iter;
   }
   /**
@@ -359,7 +359,7 @@ public:
    */
   const_reference front() const
   {
-    ecl_assert_throw( b_iter <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < array.end(), StandardException(LOC,OutOfRangeError));
     return *b_iter;
   }
   /**
-- 
2.43.0


From fe574cc43e08af82f2239a59de7060295f118c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:31 +0000
Subject: [PATCH 120/128] fix: the generated documentation separated exclusive
 arguments by the number of groups

---
 ecl_command_line/include/ecl/command_line/docbook_output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/docbook_output.hpp b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
index d49bf05..cdda5e1 100644
--- a/ecl_command_line/include/ecl/command_line/docbook_output.hpp
+++ b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
@@ -149,7 +149,7 @@ inline void DocBookOutput::usage(CmdLineInterface& _cmd )
 	for ( int i = 0; (unsigned int)i < xorList.size(); i++ )
 	{
 		std::cout << "<itemizedlist>" << std::endl;
-		size_t xlen = xorList.size() - 1;
+		size_t xlen = xorList[i].size() - 1;
 		size_t xcount = 0;
 		for ( ArgVectorIterator it = xorList[i].begin();
 						it != xorList[i].end(); it++, xcount++ )
-- 
2.43.0


From ead24bea201b8476bfc6d9dea2b31d69266ccecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:06 +0000
Subject: [PATCH 121/128] fix: command line - members of an exclusive group
 given twice made up for arguments left out

---
 .../ecl/command_line/multi_switch_arg.hpp     | 20 +++++++++++++++++--
 .../include/ecl/command_line/xor_handler.hpp  |  7 +++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
index 327a291..248bb53 100644
--- a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
@@ -35,6 +35,11 @@ class MultiSwitchArg : public SwitchArg
 		 */
 		int _value;
 
+		/**
+		 * Whether it has been found already, further occurrences do not
+		 * count as another required argument.
+		 */
+		bool _allowMore;
 
 	public:
 
@@ -104,6 +109,8 @@ class MultiSwitchArg : public SwitchArg
 		 * Returns the longID for this Arg.
 		 */
 		std::string longID(const std::string& val) const;
+
+		virtual bool allowMore();
 };
 
 //////////////////////////////////////////////////////////////////////
@@ -115,7 +122,8 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 { }
 
 inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
@@ -125,7 +133,8 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 {
 	parser.add( this );
 }
@@ -183,6 +192,13 @@ inline std::string MultiSwitchArg::longID(const std::string& val) const
 	return id;
 }
 
+inline bool MultiSwitchArg::allowMore()
+{
+	bool am = _allowMore;
+	_allowMore = true;
+	return am;
+}
+
 //////////////////////////////////////////////////////////////////////
 //END MultiSwitchArg.cpp
 //////////////////////////////////////////////////////////////////////
diff --git a/ecl_command_line/include/ecl/command_line/xor_handler.hpp b/ecl_command_line/include/ecl/command_line/xor_handler.hpp
index 8ab3e0a..004b513 100644
--- a/ecl_command_line/include/ecl/command_line/xor_handler.hpp
+++ b/ecl_command_line/include/ecl/command_line/xor_handler.hpp
@@ -101,6 +101,13 @@ inline int XorHandler::check( const Arg* a )
 		                                   _orList[i].end(), a );
 		if ( ait != _orList[i].end() )
 		{
+			// only one of them may appear on the command line
+			for ( ArgVectorIterator it = _orList[i].begin();
+				  it != _orList[i].end();
+				  it++ )
+				if ( a != (*it) && (*it)->isSet() )
+					throw(CmdLineParseException("Mutually exclusive argument already set!", (*it)->toString()));
+
 			// go through and set each arg that is not a
 			for ( ArgVectorIterator it = _orList[i].begin();
 				  it != _orList[i].end();
-- 
2.43.0


From 42b0e46516ff4115af36df88c8690994f7512d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:08 +0000
Subject: [PATCH 122/128] fix: bool to char string - short buffers were overrun

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index f26beda..a44c6a5 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -862,12 +862,12 @@ class Converter<char*,bool> : public virtual converters::CharStringBuffer {
         /**
          * Converts a bool to a char string held in the converter's buffer.
          * @param input : input value to be converted.
-         * @returns char* : output text string.
+         * @returns char* : output text string, NULL if it does not fit into the buffer.
          **/
         char* operator ()(const bool &input){
-            *buffer_begin = '\0';
-            input ? strcat(buffer_begin,"true") : strcat (buffer_begin,"false");
-            return buffer_begin;
+            const char *text = input ? "true" : "false";
+            if ( buffer_end - buffer_begin < static_cast<long>(std::strlen(text)) ) { return NULL; }
+            return std::strcpy(buffer_begin,text);
         }
 };
 
-- 
2.43.0


From b3770e3276645f4e6f325b57af7d84bbbb71dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:09 +0000
Subject: [PATCH 123/128] fix: text streams - only the first 25 digits of a
 number were read

---
 .../text_streams/input_text_stream.hpp        | 100 ++++++++----------
 1 file changed, 44 insertions(+), 56 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index cb8f534..4a3fbdf 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -523,12 +523,14 @@ template <typename Number>
 bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
-    int digits[25];
+    int digit;
     static const Number maximum = ecl::numeric_limits<Number>::maximum;
 
     i = 0;
-    int j = 0;
-    while ( j < 25 ) {
+    bool found_digits = false;
+    bool out_of_range = false;
+    Number number = 0;
+    while ( true ) {
     	long n = this->io_device.read(c);
     	if ( n < 0 ) {
         	this->error = ReadError;
@@ -537,29 +539,28 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 			break; // nothing more to read.
 		}
         if ( ( c >= '0' ) && ( c <= '9') ) {
-            digits[j] = c - '0';
+            digit = c - '0';
         } else if ( ( c >= 'a' ) && ( c <= 'f') ) {
-            digits[j] = 10 + c - 'a';
+            digit = 10 + c - 'a';
         } else if ( ( c >= 'A' ) && ( c <= 'F') ) {
-            digits[j] = 10 + c - 'A';
+            digit = 10 + c - 'A';
         } else {
             break; // No more valid characters to read.
         }
-        ++j;
+        found_digits = true;
+        if ( !out_of_range && ( number <= (maximum - digit)/16 ) ) {
+            number = 16*number + digit;
+        } else {
+            out_of_range = true; // but do not leave the rest of its digits in the stream
+        }
     }
-    if ( j == 0 ) {
+    if ( !found_digits ) {
     	this->error = ReadError;
     	return false;
 	}
-
-    Number number = 0;
-    for ( int k = 0; k < j; ++k ) {
-        if ( number <= (maximum - digits[k])/16 ) {
-            number = 16*number + (digits[k]);
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( out_of_range ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
     i = number;
     return true;
@@ -574,13 +575,13 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
-    char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
     static const Number maximum = ecl::numeric_limits<Number>::maximum;
     static const Number minimum = ecl::numeric_limits<Number>::minimum;
     char c = ' ';
     Number sign_multiplier = 1;
-    Number number;
-    int j = 0;
+    Number number = 0;
+    bool found_digits = false;
+    bool out_of_range = false;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
@@ -609,8 +610,7 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
             return parseHexInteger(i);
         } else {
         	// its a regular integer, just continue with the zero as its first digit
-        	digits[j] = '0';
-        	j++;
+        	found_digits = true;
         }
     } else if ( c == 'x' ) {
         return parseHexInteger(i);
@@ -619,9 +619,15 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     /*********************
     ** Parse reg. integer
     **********************/
-    while ( ( c >= '0' ) && ( c <= '9') && ( j < 25 ) ) {
-        digits[j] = c;
-        j++;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        found_digits = true;
+        // Accumulate on the side of the sign, the negative range is larger than the positive.
+        const int digit = c - '0';
+        if ( !out_of_range && ( ( sign_multiplier > 0 ) ? ( number <= (maximum - digit)/10 ) : ( number >= (minimum + digit)/10 ) ) ) {
+            number = 10*number + sign_multiplier*digit;
+        } else {
+            out_of_range = true; // but do not leave the rest of its digits in the stream
+        }
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError;
@@ -631,22 +637,13 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 		} else { // n > 1
         }
     }
-    if ( j == 0 ) {
+    if ( !found_digits ) {
     	this->error = ConversionError;
     	return false;
 	}
-    number = 0;
-    for ( int k = 0; k < j; ++k )
-    {
-        // Accumulate on the side of the sign, the negative range is larger than the positive.
-        const int digit = digits[k] - '0';
-        if ( ( sign_multiplier > 0 ) ? ( number <= (maximum - digit)/10 ) : ( number >= (minimum + digit)/10 ) )
-        {
-            number = 10*number + sign_multiplier*digit;
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( out_of_range ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
     i = number;
 
@@ -656,11 +653,8 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
-    static const int bufferSize = 25;
-    char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
     char c = ' ';
-    int integral_length = 0;
-    int decimal_length = 0;
+    bool found_digits = false;
     Number sign_multiplier = 1;
     Number number;
 
@@ -676,9 +670,9 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     /******************************************
     ** Integral part
     *******************************************/
-    while ( ( c >= '0' ) && ( c <= '9') && ( integral_length < bufferSize ) ) {
-        digits[integral_length] = c;
-        integral_length++;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        found_digits = true;
+        number = 10*number + (c - '0');
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError; return false;
@@ -686,9 +680,6 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
 			break;
 		}
     }
-    for ( int k = 0; k < integral_length; ++k ) {
-        number = 10*number + (digits[k] - '0');
-    }
 
     if ( c == '.' ) {
         Number frac_multiplier = 1;
@@ -696,9 +687,10 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
         /******************************************
         ** Decimal part
         *******************************************/
-        while ( ( c >= '0' ) && ( c <= '9') && ( decimal_length < bufferSize ) ) {
-            digits[decimal_length] = c;
-            decimal_length++;
+        while ( ( c >= '0' ) && ( c <= '9') ) {
+            found_digits = true;
+            frac_multiplier /= 10;
+            number = number + frac_multiplier*(c - '0');
             long n = this->io_device.read(c);
     		if ( n < 0 ) {
     			this->error = ReadError; return false;
@@ -706,13 +698,9 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     			break;
     		}
         }
-        for ( int k = 0; k < decimal_length; ++k ) {
-            frac_multiplier /= 10;
-            number = number + frac_multiplier*(digits[k] - '0');
-        }
     }
 
-    if ( (integral_length+decimal_length) == 0 ) {
+    if ( !found_digits ) {
     	this->error = ConversionError;
     	return false;
 	}
-- 
2.43.0


From a3e51b551b96df2b62c31522d97cf355fff45379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:41 +0000
Subject: [PATCH 124/128] fix: int converter - a character that is no digit
 gave a made up number instead of -1

---
 ecl_converters/include/ecl/converters/integers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_converters/include/ecl/converters/integers.hpp b/ecl_converters/include/ecl/converters/integers.hpp
index d6cfa0a..c2ba698 100644
--- a/ecl_converters/include/ecl/converters/integers.hpp
+++ b/ecl_converters/include/ecl/converters/integers.hpp
@@ -91,6 +91,7 @@ public:
 		if ( ( c < '0' ) || (c > '9') ) {
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return -1;
 		}
 		return static_cast<int>(c - '0');
 	}
-- 
2.43.0


From 563189c93cd24ce760f9cadfbce3453a2796297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:08 +0000
Subject: [PATCH 125/128] fix: formatters - formatters used at the same time
 (nested, or in different threads) shared one buffer

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 4 ++--
 ecl_formatters/include/ecl/formatters/number.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 93ef3c2..60e8a07 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -391,7 +391,7 @@ template <typename Number>
   template <typename OutputStream>
 void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
 {
-    static char format_specifier[6] = "%.xff";
+    char format_specifier[6] = "%.xff";
     if ( *precision_ < 10 ) {
         format_specifier[2] = '0'+*precision_;
         format_specifier[3] = 'f';
@@ -406,7 +406,7 @@ void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
         format_specifier[4] = 'f';
     }
     static const int buffer_size = 350; // the largest double has 309 digits before the point
-    static char buffer[buffer_size];
+    char buffer[buffer_size];
 
     snprintf(buffer, buffer_size, format_specifier, value_);
 
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index 2213c44..b43a10f 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -280,7 +280,7 @@ template <typename Number>
   template <typename OutputStream>
 void FormatNumber<Number>::formatDec(OutputStream &ostream) const
 {
-    static ecl::Converter<char*> convert;
+    ecl::Converter<char*> convert;
     char *s = convert(value_);
     int size = strlen(s);
     prePad(*width_ - size,ostream);
-- 
2.43.0


From cfb5b0baf5f86a74a620a5e7c97c84437b95a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:20 +0000
Subject: [PATCH 126/128] fix: CmdLine - the delimiter of, and a "--" given to,
 one command line leaked into others

---
 ecl_command_line/include/ecl/command_line/arg.hpp      | 5 +++++
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/arg.hpp b/ecl_command_line/include/ecl/command_line/arg.hpp
index 1fdd7e8..6306623 100644
--- a/ecl_command_line/include/ecl/command_line/arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg.hpp
@@ -163,6 +163,11 @@ class Arg
 		 */
 		static void beginIgnoring() { ignoreRestRef() = true; }
 
+		/**
+		 * Stop ignoring arguments, a new command line is about to be parsed.
+		 */
+		static void endIgnoring() { ignoreRestRef() = false; }
+
 		/**
 		 * Whether to ignore the rest.
 		 */
diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 4abef1f..0dcfd3a 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -369,6 +369,10 @@ inline void CmdLine::parse(int argc, char** argv)
 {
 	try {
 
+	// these are shared by all command lines, do not parse with what another one left there.
+	Arg::setDelimiter( _delimiter );
+	Arg::endIgnoring();
+
 	_progName = argv[0];
 
 	// this step is necessary so that we have easy access to mutable strings.
-- 
2.43.0


From b311fb4579f8fdd87d1e9944b1037ecff00141e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:24 +0000
Subject: [PATCH 127/128] fix: ArgException - the message of one error changed
 when another error was asked for its own

---
 .../include/ecl/command_line/arg_exception.hpp       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/arg_exception.hpp b/ecl_command_line/include/ecl/command_line/arg_exception.hpp
index 3174b17..964ea29 100644
--- a/ecl_command_line/include/ecl/command_line/arg_exception.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg_exception.hpp
@@ -44,7 +44,8 @@ class ArgException : public std::exception
 			: std::exception(),
 			  _errorText(text),
 			  _argId( id ),
-			  _typeDescription(td)
+			  _typeDescription(td),
+			  _what(id + " -- " + text)
 		{ }
 
 		/**
@@ -73,9 +74,7 @@ class ArgException : public std::exception
 		 */
 		const char* what() const throw()
 		{
-			static std::string ex;
-			ex = _argId + " -- " + _errorText;
-			return ex.c_str();
+			return _what.c_str();
 		}
 
 		/**
@@ -106,6 +105,11 @@ class ArgException : public std::exception
 		 */
 		std::string _typeDescription;
 
+		/**
+		 * The whole message, kept here for what() to refer to.
+		 */
+		std::string _what;
+
 };
 
 /**
-- 
2.43.0


From dac26888cdc169555ec61b73d76fea058077a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:24 +0000
Subject: [PATCH 128/128] fix: tension functions with one zero end curvature
 were printed as an unfinished formula

---
 ecl_geometry/include/ecl/geometry/tension_function.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/tension_function.hpp b/ecl_geometry/include/ecl/geometry/tension_function.hpp
index 6a0b309..871d5fd 100644
--- a/ecl_geometry/include/ecl/geometry/tension_function.hpp
+++ b/ecl_geometry/include/ecl/geometry/tension_function.hpp
@@ -233,13 +233,17 @@ OutputStream& operator << (OutputStream &ostream, const TensionFunction &functio
         ostream << "{";
         if ( function.z_0 != 0.0 ) {
             ostream << format(function.z_0) << "*sinh[tau(";
-            ostream << format(function.x_f) << "-x)] + ";
+            ostream << format(function.x_f) << "-x)]";
+        }
+        if ( ( function.z_0 != 0.0 ) && ( function.z_f != 0.0 ) ) {
+            ostream << " + ";
         }
         if ( function.z_f != 0.0 ) {
             ostream << format(function.z_f) << "*sinh[tau(x-";
-            ostream << format(function.x_0) << ")]}/[tau^2 sinh(";
-            ostream << format(function.x_f - function.x_0) << "*tau)]";
+            ostream << format(function.x_0) << ")]";
         }
+        ostream << "}/[tau^2 sinh(";
+        ostream << format(function.x_f - function.x_0) << "*tau)]";
     }
     ostream << "\n";
     ostream << "        + (";
-- 
2.43.0

