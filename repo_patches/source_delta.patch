From 8d7690eb51060c1e58459e5110d097c7ab5c55e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:27 +0000
Subject: [PATCH 01/51] fix: quaternion from a half-turn rotation matrix has
 the wrong component signs

---
 src/utMath/Util/RotationCast.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 5530956..4e03564 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -104,9 +104,25 @@ struct RotationCast< Math::Quaternion >
 		const T qxt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 + m00div4 - m11div4 - m22div4 ) ) ) ); 
 		const T qyt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 + m11div4 - m22div4 ) ) ) ); 
 		const T qzt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 - m11div4 + m22div4 ) ) ) ); 
-		const T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
-		const T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
-		const T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+		T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
+		T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
+		T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+		// close to a half turn the signs relative to w get lost: take them relative to the biggest component
+		if ( qxt > qw && qxt >= qyt && qxt >= qzt )
+		{
+			qy = ( matrix( 1, 0 ) + matrix( 0, 1 ) ) * qx < 0 ? -qyt : qyt;
+			qz = ( matrix( 0, 2 ) + matrix( 2, 0 ) ) * qx < 0 ? -qzt : qzt;
+		}
+		else if ( qyt > qw && qyt >= qzt )
+		{
+			qx = ( matrix( 1, 0 ) + matrix( 0, 1 ) ) * qy < 0 ? -qxt : qxt;
+			qz = ( matrix( 2, 1 ) + matrix( 1, 2 ) ) * qy < 0 ? -qzt : qzt;
+		}
+		else if ( qzt > qw )
+		{
+			qx = ( matrix( 0, 2 ) + matrix( 2, 0 ) ) * qz < 0 ? -qxt : qxt;
+			qy = ( matrix( 2, 1 ) + matrix( 1, 2 ) ) * qz < 0 ? -qyt : qyt;
+		}
 		return return_type( qx, qy, qz, qw );
 	}
 	
-- 
2.43.0


From 647d45dca47e9289a45305c00035d3d750fdddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:27 +0000
Subject: [PATCH 02/51] fix: axis-angle of the identity and of half turns is
 not a number

---
 src/utMath/Util/RotationCast.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 4e03564..20b89bc 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -183,6 +183,9 @@ struct RotationCast< Math::Vector< T, 4 > >
 	{
 		const T angle = 2 * std::acos( quat.w() );
 		const T divisor = std::sqrt( 1 - quat.w()*quat.w() );
+		if( !( divisor > 1e-10 ) )
+			return return_type( 0, 0, 0, 0 );
+
 		const T x = quat.x() / divisor;
 		const T y = quat.y() / divisor;
 		const T z = quat.z() / divisor;
@@ -223,6 +226,9 @@ struct RotationCast< Math::Vector< T, 4 > >
 		const T m1001 = matrix( 1, 0 ) - matrix( 0, 1 );
 		
 		const T divisor = sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
+		// close to a half turn the antisymmetric part vanishes
+		if( angle > 3 && !( divisor > 1e-5 ) )
+			return RotationCast< return_type >()( RotationCast< Math::Quaternion >()( matrix ) );
 		//std::cout << " Divisor " << divisor << "\n";
 		const T rx = m2112 / divisor;
 		const T ry = m0220 / divisor;
-- 
2.43.0


From 98ee3ea0aee2b454efbf7bf22a244519add44171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 03/51] fix: inverting an ErrorPose gets the sign of the
 position/orientation covariance wrong

---
 src/utMath/ErrorPose.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index d34f432..d4e8b74 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -114,21 +114,21 @@ void inversionJacobian( Matrix< double, 6, 6 >& j, const Pose& p )
 	j( 3, 0 ) = 0.;
 	j( 3, 1 ) = 0.;
 	j( 3, 2 ) = 0.;
-	j( 3, 3 ) = 1. + t5445 + t5446;
-	j( 3, 4 ) = 2. * t5364 * t5369 - 2. * t5362 * t5371;
-	j( 3, 5 ) = 2. * t5430;
+	j( 3, 3 ) =  - ( 1. + t5445 + t5446 );
+	j( 3, 4 ) =  - 2. * t5364 * t5369 + 2. * t5362 * t5371;
+	j( 3, 5 ) =  - 2. * t5430;
 	j( 4, 0 ) = 0.;
 	j( 4, 1 ) = 0.;
 	j( 4, 2 ) = 0.;
-	j( 4, 3 ) = 2. * t5373;
-	j( 4, 4 ) = 1. + t5446 + t5453;
-	j( 4, 5 ) =  - 2. * t5362 * t5364 + 2. * t5369 * t5371;
+	j( 4, 3 ) =  - 2. * t5373;
+	j( 4, 4 ) =  - ( 1. + t5446 + t5453 );
+	j( 4, 5 ) = 2. * t5362 * t5364 - 2. * t5369 * t5371;
 	j( 5, 0 ) = 0.;
 	j( 5, 1 ) = 0.;
 	j( 5, 2 ) = 0.;
-	j( 5, 3 ) =  - 2. * t5362 * t5369 + 2. * t5364 * t5371;
-	j( 5, 4 ) = 2. * t5410;
-	j( 5, 5 ) = 1. + t5445 + t5453;
+	j( 5, 3 ) = 2. * t5362 * t5369 - 2. * t5364 * t5371;
+	j( 5, 4 ) =  - 2. * t5410;
+	j( 5, 5 ) =  - ( 1. + t5445 + t5453 );
 }
 
 
-- 
2.43.0


From b2b3d63760bc0e0087ad8fc9c9fda49851e70fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 04/51] fix: invertMultiply propagates errors with the
 Jacobians of the plain product

---
 src/utMath/ErrorPose.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index d4e8b74..287c24b 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -595,7 +595,9 @@ ErrorPose invertMultiply( const ErrorPose& a, const ErrorPose& b )
 	Matrix< double, 6, 6 > jacobian2;
 	Matrix< double, 6, 6 > tmp;
 	Matrix< double, 6, 6 > newCovariance;
-	multiplicationJacobians( jacobian1, jacobian2, a, b );
+	multiplicationJacobians( jacobian1, jacobian2, ~static_cast< const Pose& >( a ), b );
+	inversionJacobian( tmp, a );
+	jacobian1 = ublas::prod( jacobian1, tmp );
 	
 	// here we could save some time by regarding the zero and identity blocks of the jacobians...
 	noalias( tmp ) = ublas::prod( jacobian1, a.covariance() );
-- 
2.43.0


From 02f851ae296b2741d080e3fc1911624691f2ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 05/51] fix: ErrorPose times ErrorVector ignores the covariance
 of the vector

---
 src/utMath/ErrorPose.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 287c24b..aa08055 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -569,8 +569,6 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::Vector< doub
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b, newCovariance );
 }
 
-//TODO
-
 ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector< double, 3 >& b )
 {
 	
@@ -584,6 +582,11 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 	noalias( tmp ) = ublas::prod( jacobian, a.covariance() );
 	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian ) );
 
+	// contribution of the error of the point
+	const Matrix< double, 3, 3 > rotation( a.rotation() );
+	const Matrix< double, 3, 3 > rotated( ublas::prod( rotation, b.covariance ) );
+	noalias( newCovariance ) += ublas::prod( rotated, ublas::trans( rotation ) );
+
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b.value, newCovariance );
 }
 
-- 
2.43.0


From e5d02c30483e08d421be381b4b4f3097c8ea556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 06/51] fix: additive pose covariance is rotated by the inverse
 orientation

---
 src/utMath/ErrorPose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index aa08055..3508a4b 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -622,7 +622,7 @@ void ErrorPose::toAdditiveErrorVector( ErrorVector< double, 7 >& v )
 	// set the w variance to the sum of the x, y, and z rotation errors
 	v.covariance( 6, 6 ) = v.covariance( 3, 3 ) + v.covariance( 4, 4 ) + v.covariance( 5, 5 );
 
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( rotation() ), v, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~rotation() ), v, 3, 7, 3, 7 );
 }
 
 
@@ -630,7 +630,7 @@ ErrorPose ErrorPose::fromAdditiveErrorVector( const ErrorVector< double, 7 >& v
 {
 	Math::ErrorVector< double, 7 > p( v );
 	Quaternion q( Quaternion::fromVector( ublas::subrange( v.value, 3, 7 ) ) );
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~q ), p, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( q ), p, 3, 7, 3, 7 );
 	
 	return ErrorPose( Pose::fromVector( p.value ), ublas::subrange( p.covariance, 0, 6, 0, 6 ) );
 }
-- 
2.43.0


From 65bf5c7798d89098a147b3af9c18fe912082def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:51 +0000
Subject: [PATCH 07/51] fix: velocity Jacobian of the quaternion time update
 uses the squared time step

---
 src/utTracking/Function/QuaternionTimeUpdate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utTracking/Function/QuaternionTimeUpdate.h b/src/utTracking/Function/QuaternionTimeUpdate.h
index ddf6a1e..c051a12 100644
--- a/src/utTracking/Function/QuaternionTimeUpdate.h
+++ b/src/utTracking/Function/QuaternionTimeUpdate.h
@@ -75,7 +75,6 @@ public:
 		{
 			Math::RotationVelocity v( ublas::subrange( input, 4 + 3 * i, 4 + 3 * ( i + 1 ) ) );
 			r = r * v.integrate( t );
-			t *= m_deltaTime;
 			
 			jacobian( 0, 4 + i * 3 + 0 ) =  t * q.w() / 2;
 			jacobian( 0, 4 + i * 3 + 1 ) = -t * q.z() / 2;
@@ -92,6 +91,8 @@ public:
 			jacobian( 3, 4 + i * 3 + 0 ) = -t * q.x() / 2;
 			jacobian( 3, 4 + i * 3 + 1 ) = -t * q.y() / 2;
 			jacobian( 3, 4 + i * 3 + 2 ) = -t * q.z() / 2;
+
+			t *= m_deltaTime;
 		}
 		
 		r.toVector( result );
-- 
2.43.0


From 1b59112e679ef129f66fa7a867888028cb2b691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:51 +0000
Subject: [PATCH 08/51] fix: rotation velocity integration never uses the exact
 sine

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index ea504aa..55a8e87 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -72,7 +72,7 @@ struct RotationVelocityIntegration
 		typedef typename VT1::value_type T;
 		T fNorm = boost::numeric::ublas::norm_2( q );
 		T s;
-		if ( fabs( fNorm * m_dt ) > 1e12 )
+		if ( fabs( fNorm * m_dt ) > 1e-12 )
 			s = sin( fNorm * m_dt * T( 0.5 ) ) / fNorm;
 		else
 			s = m_dt * T( 0.5 );
-- 
2.43.0


From 61a6da1330468b02660cb30f6a9e8edfe2c8068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:51 +0000
Subject: [PATCH 09/51] fix: rotation velocity integration: real part of the
 Jacobian lacks a factor of the time step

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index 55a8e87..b1d19c8 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -102,7 +102,7 @@ struct RotationVelocityIntegration
 	{
 		typedef typename MT1::value_type T;
 		boost::numeric::ublas::subrange( jac, 0, 3, 0, 3 ) = T( m_dt * 0.5 ) * boost::numeric::ublas::identity_matrix< T >( 3 );
-		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * -0.25 ) * v;
+		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * m_dt * -0.25 ) * v;
 	}
 
 	double m_dt;
-- 
2.43.0


From 82d73d4ca202fbd044735ea4e78b0b6d77ca1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:16 +0000
Subject: [PATCH 10/51] fix: rotation filter predicts garbage for times before
 its last update

---
 src/utTracking/RotationOnlyKf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/RotationOnlyKf.cpp b/src/utTracking/RotationOnlyKf.cpp
index b0af0fa..3419d25 100644
--- a/src/utTracking/RotationOnlyKf.cpp
+++ b/src/utTracking/RotationOnlyKf.cpp
@@ -126,7 +126,7 @@ void RotationOnlyKF::timeUpdate( Measurement::Timestamp t )
 Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
 {
 	// time update: forward filter to requested timestamp
-	double dt = ( t - m_time ) * 1e-9;
+	double dt = ( (long long int)( t - m_time ) ) * 1e-9;
 	Math::ErrorVector< double, 4 > result = Math::Stochastic::transformWithCovariance< 4, 7 >( Function::QuaternionTimeUpdate( dt ), m_state );
 	
 	return Measurement::Rotation( t, Math::Quaternion::fromVector( result.value ).normalize() );
-- 
2.43.0


From 6d9b1e4491030c00ed86b3e4d88a4fbbe86c78ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:16 +0000
Subject: [PATCH 11/51] fix: process noise of a motion model is uninitialised
 until it is set

---
 src/utTracking/LinearPoseMotionModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/LinearPoseMotionModel.h b/src/utTracking/LinearPoseMotionModel.h
index 43536fd..75d8059 100644
--- a/src/utTracking/LinearPoseMotionModel.h
+++ b/src/utTracking/LinearPoseMotionModel.h
@@ -51,7 +51,7 @@ public:
 	LinearPoseMotionModel( int posOrder, int oriOrder )
 		: m_posOrder( posOrder )
 		, m_oriOrder( oriOrder )
-		, m_processNoise( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) )
+		, m_processNoise( Math::Vector< double >::zeros( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) ) )
 	{
 	}
 	
-- 
2.43.0


From ec5cfd6f6b1814e777ce937566bb90f03306669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:39 +0000
Subject: [PATCH 12/51] fix: wrong z row in the rotation Jacobian of 3D-3D pose
 refinement

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index 2ac36fe..a7878d2 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -173,8 +173,8 @@ public:
 			J( i*3+1, 6 ) = t14;
 			J( i*3+2, 2 ) = 1;
 			J( i*3+2, 3 ) = t14;
-			J( i*3+2, 4 ) = -t8+t9+t15;
-			J( i*3+2, 5 ) = t4+t5-t6;
+			J( i*3+2, 4 ) = -t8-t9+t15;
+			J( i*3+2, 5 ) = t7;
 			J( i*3+2, 6 ) = t2+t3-t16;
 			
 			J( i*3+0, 1 ) = J( i*3+0, 2 ) = 0;
-- 
2.43.0


From 6bb56509eacb4178ed0646fa64ea9b3b5ec9813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:17 +0000
Subject: [PATCH 13/51] fix: use the third column for the third coordinate when
 transforming homogeneous 3D points

---
 src/utMath/Geometry/PointTransformation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/PointTransformation.h b/src/utMath/Geometry/PointTransformation.h
index b02dbf0..7b20288 100644
--- a/src/utMath/Geometry/PointTransformation.h
+++ b/src/utMath/Geometry/PointTransformation.h
@@ -178,7 +178,7 @@ public:
 		const T e1 = transMat( 0, 0 ) * vec( 0 ) + transMat( 0, 1 ) * vec( 1 ) + transMat( 0, 2 ) * vec( 2 ) + transMat( 0, 3 ) * vec( 3 );
 		const T e2 = transMat( 1, 0 ) * vec( 0 ) + transMat( 1, 1 ) * vec( 1 ) + transMat( 1, 2 ) * vec( 2 ) + transMat( 1, 3 ) * vec( 3 );
 		const T e3 = transMat( 2, 0 ) * vec( 0 ) + transMat( 2, 1 ) * vec( 1 ) + transMat( 2, 2 ) * vec( 2 ) + transMat( 2, 3 ) * vec( 3 );
-		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 3 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
+		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 2 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
 		return Math::Vector< T, 4 > ( e1, e2, e3, e4 );
 	}
 };
-- 
2.43.0


From 0c0857cc3cd8069857ffb3f3c89d677ab587d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 14/51] fix: conic angle of circles and diagonal ellipses

---
 src/utMath/Geometry/Conic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index b5c4a96..60f3f89 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -266,6 +266,9 @@ public:
 		const T a = conic( 0 );
 		const T b = conic( 1 );
 		const T c = conic( 2 );
+		// equal quadratic coefficients: a circle or an ellipse along one of the diagonals
+		if( a == c )
+			return b == 0 ? static_cast< T > ( 0 ) : static_cast< T > ( b < 0 ? M_PI * 0.25 : M_PI * -0.25 );
 		const T angle = std::atan( b  / ( a - c ) ) * static_cast< T > ( 0.5 ); 
 		// return 0.5 * std::atan( ( 2.0 * b ) / ( a - c ) ); 
 		return ( a <= c ? angle : ( static_cast< T > ( M_PI * static_cast< T > ( 0.5 ) ) ) + angle );
-- 
2.43.0


From b19c7b3b6d9a2d16f8d3f736f711cb64b6fd11e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 15/51] fix: throw for conics without a centre as intended

---
 src/utMath/Geometry/Conic.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 60f3f89..1ed5cc9 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -398,9 +398,10 @@ public:
 		// const T f = conic( 5 );
 	
 		// (b^2)-ac
-		const T divisor = static_cast< T >( 1 ) / ( b*b - a*c );
-		if( divisor == 0 )
+		const T denominator = b*b - a*c;
+		if( denominator == 0 )
 			UBITRACK_THROW( "Could not calculate the center, divisor equals zero" );
+		const T divisor = static_cast< T >( 1 ) / denominator;
 		// c*d-b*e / divisor
 		const T x = ( c*d - b*e ) * divisor;
 		// a*e-b*d / divisor
-- 
2.43.0


From d166bf32b2374ef38c1b49e53361842c6aed6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 16/51] fix: conic eccentricity uses the full mixed coefficient

---
 src/utMath/Geometry/Conic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 1ed5cc9..2b6e262 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -442,7 +442,7 @@ public:
 	T operator() ( const Math::Vector< T, 6 > &conic ) const
 	{
 		const T a = conic( 0 );
-		const T b = conic( 1 ) * static_cast< T > ( 0.5 );
+		const T b = conic( 1 );
 		const T c = conic( 2 );
 		// const T d = conic( 3 ) * static_cast< T > ( 0.5 );
 		// const T e = conic( 4 ) * static_cast< T > ( 0.5 );
-- 
2.43.0


From 741db089f8e26786eb5c203e8f1e14c47fd95906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:32 +0000
Subject: [PATCH 17/51] fix: make gaussNewton compile with the BLAS/LAPACK
 bindings

---
 src/utMath/Optimization/GaussNewton.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Optimization/GaussNewton.h b/src/utMath/Optimization/GaussNewton.h
index 47c0720..57bccf8 100644
--- a/src/utMath/Optimization/GaussNewton.h
+++ b/src/utMath/Optimization/GaussNewton.h
@@ -72,14 +72,15 @@ void gaussNewton( P& problem, VT1& params, const VT2& measurement, unsigned nIte
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
 	typedef typename VT1::value_type T;
-	typedef typename Math::Matrix< T, 0, 0 > MatType;
+	typedef typename Math::Matrix< T >::base_type MatType;
+	typedef typename Math::Vector< T >::base_type VecType;
 
 	// create some matrices and vectors
 	MatType matJacobian( measurement.size(), params.size() );
 	MatType matJacobiSquare( params.size(), params.size() );
-	Math::Vector< T > measurementDiff( measurement.size() );
-	Math::Vector< T > paramDiff( params.size() );
-	Math::Vector< T > estimatedMeasurement( measurement.size() );
+	VecType measurementDiff( measurement.size() );
+	VecType paramDiff( params.size() );
+	VecType estimatedMeasurement( measurement.size() );
 
 	OPT_LOG_DEBUG( "Gauss-Newton entry params: " << params );
 
-- 
2.43.0


From d895e9f677020fd75394013fbbe72ae441c5430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:10 +0000
Subject: [PATCH 18/51] fix: average pose covariance is expressed in the frame
 of the mean

---
 src/utMath/Stochastic/Average.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 8c94588..3f10f52 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -273,7 +273,7 @@ public:
 	{
 	
 		/*
-		 * Use inverted mean value to transform the additive 7x7
+		 * Transform the additive 7x7
 		 * covariance to the 6x6 multiplicative format The conversion is
 		 * conducted according to the following formulas:
 		 * 
@@ -303,16 +303,10 @@ public:
 		super::mean_type meanVec;
 		Util::castToVector( meanPose, meanVec );
 		
-		super::mean_type invMeanVec;
-		Util::castToVector( (~meanPose), invMeanVec );
-		
-		
 		const varianz_type covarianz = ( m_covariance / m_counter );
-		Math::ErrorVector< precision_type, 7 > ev( invMeanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
-		const Math::ErrorPose invEp = Math::ErrorPose::fromAdditiveErrorVector( ev );
-		// We created the error pose from the inverted mean value above, to obtain the transformed 6x6 covariance
-		// Now, we recreate the error pose with the computed mean value.	
-		return value_type( meanPose, invEp.covariance() );
+		Math::ErrorVector< precision_type, 7 > ev( meanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
+		// fromAdditiveErrorVector rotates the distribution by ~q_0 and drops the real part
+		return Math::ErrorPose::fromAdditiveErrorVector( ev );
 	};
 	
 };
-- 
2.43.0


From cb512a57551ed3fc6046472c75fe658f5b9f5235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:10 +0000
Subject: [PATCH 19/51] fix: backward propagation weights every measurement,
 not just the first ones

---
 src/utMath/Stochastic/BackwardPropagation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index fbc25f0..68e9b15 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -235,7 +235,7 @@ void backwardPropagationDiagonal( MT1& result, const VT2& input, MT3& jacobian )
 	typedef typename Math::Matrix< VType, 0, 0 > MatType;
 
 	// multiply jacobian with E^(-1/2)
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	for ( unsigned i = 0; i < jacobian.size1(); i++ )
 		ublas::row( jacobian, i ) *= VType( 1 ) / sqrt( input( i ) );
 
 	// perform SVD on jacobian
-- 
2.43.0


From c9bd583072b8d607114465ae56b66960da3af150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:56 +0000
Subject: [PATCH 20/51] fix: three radial distortion parameters are counted as
 three

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index da35e1b..bea4202 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -155,7 +155,7 @@ public:
 		: calib_type( OPENCV_3_2 )
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
-		, radial_size( 2 )
+		, radial_size( 3 )
 		, radial_params( radial_type::zeros() )
 		, tangential_params( _tangential )
 		{
-- 
2.43.0


From db309997e1cb3b89b708336f2dd8f32d961419fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:56 +0000
Subject: [PATCH 21/51] fix: unused radial parameters of fish-eye intrinsics
 are zero

---
 src/utMath/CameraIntrinsics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index bea4202..5623bea 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -181,6 +181,7 @@ public:
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
 		, radial_size( 4 )
+		, radial_params( radial_type::zeros() )
 		, tangential_params( tangential_type::zeros() )
 		{
 			radial_params( 0 ) = _radial( 0 );
-- 
2.43.0


From 3098acde6108a32e1395bed2d053ebf01e941b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:56 +0000
Subject: [PATCH 22/51] fix: intrinsics take over the given image size

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 5623bea..8c8be08 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -194,7 +194,7 @@ public:
 	template< typename IntType >
 	CameraIntrinsics(const Math::Vector< IntType, 2 >& size, const Math::Matrix< T, 3, 3 > &intrinsicMatrix, const std::size_t radSize, const Math::Vector< T, 6 > &_radial, const Math::Vector< T, 2 > &_tangential, const std::size_t width = 0, const std::size_t height = 0)
 		: calib_type( UNKNOWN )
-		, dimension(Math::Vector< std::size_t, 2 >(width, height))
+		, dimension(Math::Vector< std::size_t, 2 >(size( 0 ), size( 1 )))
 		, matrix( intrinsicMatrix )
 		, radial_size( radSize )
 		, radial_params( _radial )
-- 
2.43.0


From 720bdd43dd8a27591fdef607b6fe6258f7855a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:50 +0000
Subject: [PATCH 23/51] fix: decomposed translation does not depend on the
 scale of the projection

---
 src/utAlgorithm/Projection.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utAlgorithm/Projection.cpp b/src/utAlgorithm/Projection.cpp
index 50cb7a5..1cae6bf 100644
--- a/src/utAlgorithm/Projection.cpp
+++ b/src/utAlgorithm/Projection.cpp
@@ -195,14 +195,14 @@ template< typename T > void decomposeProjectionImpl( Math::Matrix< T, 3, 3 >& k,
 		ublas::row( r, i ) *= scale( i );
 	}
 
-	// normalize k
-	T f = -1 / k( 2, 2 );
-	k *= f;
-
-	// compute translation vector: t = K^-1 p^4
+	// compute translation vector: t = K^-1 p^4 (before k is normalized: p has an arbitrary scale)
 	Math::Matrix< T, 3, 1 > ttmp = ublas::subrange( P, 0, 3, 3, 4 );
 	blas::trsm( 'L', 'U', 'N', 'N', 1.0f, k, ttmp );
 	t = ublas::column( ttmp, 0 );
+
+	// normalize k
+	T f = -1 / k( 2, 2 );
+	k *= f;
 }
 
 
-- 
2.43.0


From c1d3f9d40c1cf19a53dc7b963aeadf4f1b0e7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:23 +0000
Subject: [PATCH 24/51] fix: assignment primes the uncovered zero it found

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 3f1310f..ccbf1e8 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -138,9 +138,9 @@ Munkres< T >::Munkres( Math::Matrix< T, 0, 0 > & matrix)
 
 template< typename T >
 bool Munkres< T >::find_uncovered_in_matrix(T item, std::size_t & row, std::size_t & col) {
-	for ( std::size_t row( 0 ) ; row < m_max ; ++row )
+	for ( row = 0 ; row < m_max ; ++row )
 		if ( !row_mask[row] )
-			for ( std::size_t col( 0 ) ; col < m_max ; ++col )
+			for ( col = 0 ; col < m_max ; ++col )
 				if ( !col_mask[col] )
 					if ( m_matrix( row, col ) == item )
 						return true;
-- 
2.43.0


From 5bf8b2ea60364728c62507e2740c55d1218b5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:23 +0000
Subject: [PATCH 25/51] fix: assignment pads rectangular cost matrices to the
 whole square

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index ccbf1e8..28563c2 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -376,14 +376,14 @@ void Munkres< T >::setMatrix( Math::Matrix< T, 0, 0 > & matrix )
 	{
 		m_matrix.resize( matrix.size1(), matrix.size1() );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() - matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size1(), matrix.size1() - matrix.size2(), vMax );
 	}
 	else
 	{
 		m_matrix.resize( matrix.size2(), matrix.size2(), false );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2() - matrix.size1(), 0, matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2(), 0, matrix.size2() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size2() - matrix.size1(), matrix.size2(), vMax );
 	}
 
-- 
2.43.0


From e24ae925f50d6d6b1d557b75a157d57ae33643e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:15 +0000
Subject: [PATCH 26/51] fix: msgpack as<Measurement> reads the payload and
 compiles

---
 src/utSerialization/MsgpackSerializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index bb0231e..2b22f72 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -132,12 +132,12 @@ template<typename T>
 struct as<Ubitrack::Measurement::Measurement<T>, typename std::enable_if<msgpack::has_as<T>::value>::type> {
   Ubitrack::Measurement::Measurement<T> operator()(msgpack::object const& o) const
   {
-      if (o.is_nil()) return nullptr;
+      if (o.is_nil()) return Ubitrack::Measurement::Measurement<T>();
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size!=2) throw msgpack::type_error();
       return Ubitrack::Measurement::Measurement<T>(
               o.via.array.ptr[0].as<unsigned long long>(),
-              boost::shared_ptr<T>(o.via.array.ptr[0].as<T>())
+              o.via.array.ptr[1].as<T>()
       );
   }
 };
-- 
2.43.0


From 2e96e9710b1b60b8ba2a5faf58922ff457ded1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:15 +0000
Subject: [PATCH 27/51] fix: msgpack objects of vectors hold every element

---
 src/utSerialization/MsgpackSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 2b22f72..149d532 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -309,7 +309,7 @@ struct object_with_zone<Ubitrack::Math::Vector<T, N> > {
       o.via.array.ptr = static_cast<msgpack::object*>(
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<num_elements; ++i) {
-          o.via.array.ptr[0] = msgpack::object(v(i), o.zone);
+          o.via.array.ptr[i] = msgpack::object(v(i), o.zone);
       }
   }
 };
-- 
2.43.0


From 880ac1ff6e665eab26c2a34c801b82b7c59c099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:15 +0000
Subject: [PATCH 28/51] fix: msgpack matrices that are not square keep their
 elements

---
 src/utSerialization/MsgpackSerializer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 149d532..a328ba8 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -334,7 +334,7 @@ struct as<Ubitrack::Math::Matrix<T, M, N>, typename std::enable_if<msgpack::has_
       Ubitrack::Math::Matrix<T, M, N> result(M, N);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               result(i,j) = o.via.array.ptr[idx].as<T>();
           }
       }
@@ -357,7 +357,7 @@ struct convert<Ubitrack::Math::Matrix<T, M, N> > {
       }
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
 			  msgpack::adaptor::convert<T>()(o.via.array.ptr[idx], v(i, j));
               //v(i,j) = o.via.array.ptr[idx].as<T>();
           }
@@ -379,7 +379,6 @@ struct pack<Ubitrack::Math::Matrix<T, M, N> > {
       o.pack_array((uint32_t)num_elements);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
               o.pack(v(i,j));
           }
       }
@@ -402,7 +401,7 @@ struct object_with_zone<Ubitrack::Math::Matrix<T, M, N> > {
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.via.array.ptr[idx] = msgpack::object(v(i,j), o.zone);
           }
       }
-- 
2.43.0


From 44a6967f10677376fd2ae52d9c8949a56154a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:46 +0000
Subject: [PATCH 29/51] fix: msgpack conversion sizes dynamic vectors

---
 src/utSerialization/MsgpackSerializer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index a328ba8..e727b67 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -271,6 +271,7 @@ struct convert<Ubitrack::Math::Vector<T, N> > {
       if (N>0) {
           if (num_elements!=N) throw msgpack::type_error();
       }
+      if (v.size()!=num_elements) v = Ubitrack::Math::Vector<T, N>(num_elements);
       for (std::size_t i = 0; i<num_elements; ++i) {
 		  msgpack::adaptor::convert<T>()(o.via.array.ptr[i], v(i));
           //v(i) = o.via.array.ptr[i].as<T>();
-- 
2.43.0


From e7918b2bf2a468350550b7f2275190fa62e432c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 30/51] fix: tool tip refinement failed on residuals with a
 zero component (0/0 in the Jacobian)

---
 src/utAlgorithm/ToolTip/Optimization.h | 27 +++++++++++---------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/utAlgorithm/ToolTip/Optimization.h b/src/utAlgorithm/ToolTip/Optimization.h
index 76c2609..9565e85 100644
--- a/src/utAlgorithm/ToolTip/Optimization.h
+++ b/src/utAlgorithm/ToolTip/Optimization.h
@@ -154,7 +154,6 @@ public:
 			const VType t13 = t11+t12;
 			const VType t16 = t13*z2;
 			const VType t14 = t7+t10-t16-tx+x1;
-			const VType t17 = fabs(t14);
 			const VType t19 = qx*qx;
 			const VType t20 = t19*2.0;
 			const VType t21 = qw*qx*2.0;
@@ -166,7 +165,6 @@ public:
 			const VType t28 = t21-t22;
 			const VType t29 = t28*z2;
 			const VType t30 = t25-t27+t29-ty+y1;
-			const VType t18 = fabs(t30);
 			const VType t33 = t3+t20-1.0;
 			const VType t34 = t33*z2;
 			const VType t35 = t11-t12;
@@ -174,21 +172,18 @@ public:
 			const VType t37 = t21+t22;
 			const VType t38 = t37*y2;
 			const VType t39 = t34+t36-t38-tz+z1;
-			const VType t23 = fabs(t39);
-			const VType t31 = t17*t17;
-			const VType t32 = t18*t18;
-			const VType t40 = t23*t23;
+			const VType t31 = t14*t14;
+			const VType t32 = t30*t30;
+			const VType t40 = t39*t39;
 			const VType t41 = t31+t32+t40;
-			const VType t42 = 1.0/sqrt(t41);
-			const VType t43 = (t14/fabs(t14));
-			const VType t44 = (t30/fabs(t30));
-			const VType t45 = (t39/fabs(t39));
-			J( i, 0 ) = static_cast< typename MT::value_type >( t17*t42*t43 );
-			J( i, 1 ) = static_cast< typename MT::value_type >( t18*t42*t44 );
-			J( i, 2 ) = static_cast< typename MT::value_type >( t23*t42*t45 );
-			J( i, 3 ) = static_cast< typename MT::value_type >( t42*(t6*t17*t43*2-t18*t26*t44*2+t23*t35*t45*2)*(1.0/2.0) );
-			J( i, 4 ) = static_cast< typename MT::value_type >( t42*(t9*t17*t43*2+t18*t24*t44*2-t23*t37*t45*2)*(1.0/2.0) );
-			J( i, 5 ) = static_cast< typename MT::value_type >( t42*(t13*t17*t43*-2+t18*t28*t44*2+t23*t33*t45*2)*(1.0/2.0) );
+			// the distance has no derivative at zero
+			const VType t42 = t41 > 0 ? 1.0/sqrt(t41) : 0.0;
+			J( i, 0 ) = static_cast< typename MT::value_type >( t42*t14 );
+			J( i, 1 ) = static_cast< typename MT::value_type >( t42*t30 );
+			J( i, 2 ) = static_cast< typename MT::value_type >( t42*t39 );
+			J( i, 3 ) = static_cast< typename MT::value_type >( t42*(t6*t14-t26*t30+t35*t39) );
+			J( i, 4 ) = static_cast< typename MT::value_type >( t42*(t9*t14+t24*t30-t37*t39) );
+			J( i, 5 ) = static_cast< typename MT::value_type >( t42*(-t13*t14+t28*t30+t33*t39) );
 		}
 		// std::cout << "input  :\n" << input << "\n";
 		// std::cout << "J      :\n" << J.size1() << " x " << J.size2() << std::endl;
-- 
2.43.0


From b58dae22d222985dae4d4d09339d3de3842177fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:45 +0000
Subject: [PATCH 31/51] fix: dual quaternion hand-eye calibration failed when
 poses used opposite quaternion signs

---
 src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
index 67b41b1..763934c 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
@@ -88,7 +88,12 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	for( std::size_t index = 0; index<n; ++index, ++itBeginEye, ++itBeginHand )
 	{
 		const dual_type a = *itBeginEye;
-		const dual_type b = *itBeginHand;
+		dual_type b = *itBeginHand;
+
+		// a dual quaternion and its negative describe the same movement, but only
+		// with equal scalar parts the equations below hold
+		if( a[ 0 ] * b[ 0 ] + a[ 4 ] * b[ 4 ] < 0 )
+			b *= -1;
 
 		const value_type ax = a[ 1 ];
 		const value_type ay = a[ 2 ];
-- 
2.43.0


From 447ef1d223eb5da2af7e29304366c8ae5e9e0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:45 +0000
Subject: [PATCH 32/51] fix: hemisphere alignment returned the inverse rotation
 for angles beyond a half turn

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index a9e6df0..a3c0ffa 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -311,7 +311,8 @@ struct hemisphere_alignment< Math::Vector< T, 6 >, true >
 		
 		if( angle > 3.1415926535897932384626433832795 )
 		{
-			const T new_angle = (2*3.1415926535897932384626433832795) - angle;
+			// turning backwards about the same axis
+			const T new_angle = angle - (2*3.1415926535897932384626433832795);
 			const T ratio = new_angle/angle;
 			result[ 0 ] *= ratio;
 			result[ 1 ] *= ratio;
-- 
2.43.0


From d657257eac34412ec837df9ca22ae966bdee7000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:45 +0000
Subject: [PATCH 33/51] fix: hand-eye data selection compared every cluster
 with the first movement only

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index a3c0ffa..ff4a3ef 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -507,7 +507,7 @@ protected:
 		IndexListType::const_iterator itIndex = indices.begin();
 		const IndexListType::const_iterator itIndexEnd = indices.end();
 		
-		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, *itPose , ++i )
+		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, ++itPose, ++i )
 		{
 			// choose codebook entry to lookup corresponding pose measurement
 			InputIterator2 itCodebook = itBeginCluster;	
-- 
2.43.0


From c8ae51843a5c7e61f40965dc204e8eff3e7a3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:45 +0000
Subject: [PATCH 34/51] fix: HandEyeCalibration failed with three or four poses
 and kept stale matches

---
 src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
index fea1a31..36324de 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
@@ -159,6 +159,14 @@ protected:
 		const std::size_t n = m ? m : static_cast< std::size_t >( sqrt( nRel/2. ) );
 		
 		// std::cerr << "n " << n << "\n";
+		// less than three movements do not determine a pose: use all there are
+		if( n < 3 )
+		{
+			resetBestMatchByAll();
+			return;
+		}
+		relativePosesBestMatchA.clear();
+		relativePosesBestMatchB.clear();
 		relativePosesBestMatchA.reserve( n );
 		relativePosesBestMatchB.reserve( n );
 		m_DataSelection.resetComparisonPoses( n, relativePosesAllA );
-- 
2.43.0


From 4a9b65f589037c713bbbc2ffbf28398fe3238c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 35/51] fix: quaternion from a half-turn matrix was decided by
 rounding errors

---
 src/utMath/Quaternion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 793c624..397dfdd 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -37,7 +37,8 @@ Quaternion::Quaternion( const Math::Matrix< double, 0, 0 >& mat )
 	double S, X, Y, Z, W;
 	double T = 1.0 + mat(0,0) + mat(1,1) + mat(2,2);
 
-	if (T > 0) {
+	// only for a positive trace: S vanishes for rotations by half a turn, where rounding errors would decide
+	if (T > 1) {
 		S = sqrt(T) * 2;
 		X = ( mat(1,2) - mat(2,1) ) / S;
 		Y = ( mat(2,0) - mat(0,2) ) / S;
-- 
2.43.0


From 1010a1a048e9643211f0e15b18768bbea8005d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 36/51] fix: axis and angle of a half-turn matrix with rounding
 errors was the identity

---
 src/utMath/Util/RotationCast.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 20b89bc..b3cd52e 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -216,7 +216,9 @@ struct RotationCast< Math::Vector< T, 4 > >
 		// return RotationCast< return_type >()( quat );
 		
 		/// @todo put in more checks, this transformation is not really reliable at the moment
-		const T angle = std::acos( ( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) - 1 ) / 2 );
+		// rounding errors can push the cosine of a half turn below -1
+		const T cosine = ( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) - 1 ) / 2;
+		const T angle = std::acos( cosine < -1 ? T( -1 ) : cosine );
 		if ( angle != angle || angle < 1e-10 )
 			return return_type( 0, 0, 0, 0 );
 		
-- 
2.43.0


From b07c1569aee291addc8dde11d93bb725bba7a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 37/51] fix: rotation angle was NaN for scalar parts beyond one
 by rounding

---
 src/utMath/Quaternion.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Quaternion.h b/src/utMath/Quaternion.h
index 2588f54..a988b6e 100644
--- a/src/utMath/Quaternion.h
+++ b/src/utMath/Quaternion.h
@@ -177,7 +177,11 @@ class UBITRACK_EXPORT Quaternion
 		 * @return the angle of the rotation represented by the quaternion
 		 */
 		double angle() const
-		{ return 2 * acos( w() > 0 ? w() : -w() ); }
+		{
+			// rounding errors can push |w| above 1
+			const double c( w() > 0 ? w() : -w() );
+			return c < 1 ? 2 * acos( c ) : 0;
+		}
 
 		/** 
 		 * sets the rotation of a given matrix to the value of the quaternion
@@ -322,10 +326,11 @@ void Quaternion::toMatrix( M& matrix ) const
 template< typename T >
 void Quaternion::toAxisAngle( Math::Vector< T, 3 >& axis, T& angle )
 {
-	// assuming quaternion normalised then w is less than 1, so term always positive.
-	angle = 2 * acos( a );
+	// assuming quaternion normalised then w is less than 1, so term always positive (rounding errors can push it above).
+	const double w = a > 1 ? 1. : a < -1 ? -1. : a;
+	angle = 2 * acos( w );
 	
-	double s = sqrt( 1 - a*a );
+	double s = sqrt( 1 - w*w );
 	// test to avoid divide by zero, s is always positive due to sqrt
 	if (s < 0.001) { 
 		// if s close to zero then direction of axis not important
-- 
2.43.0


From 8af9b1308842960dcbb23fcd86ac12b15d1e41e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 38/51] fix: computePose ignored the height z of coplanar
 points

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index de771dd..e2fdfbd 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -420,8 +420,8 @@ Math::ErrorPose computePose(
 			
 			OPT_LOG_TRACE( "Homography: " << H );
 
-			// compute initial pose from homography
-			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK );
+			// compute initial pose from homography, which knows the points in the plane z = last_dim only
+			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK ) * Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, -last_dim ) );
 			
 			OPT_LOG_TRACE( "Pose from homography: " << pose )
 		}
-- 
2.43.0


From 43726558a598b6d6d919ea8773a2f84a605aaa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 39/51] fix: initial pose of several cameras used the camera
 pose instead of its inverse

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index bd57117..c624276 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -130,7 +130,7 @@ std::pair < Math::ErrorPose , double >
 		// Compute initial pose
 		if (!hasInitialPoseProvided) {
 			OPT_LOG_DEBUG(  "Compute initial pose with "<<p2dLocal.at(maxObsIndex).size() << " observations for camera " << maxObsIndex );
-			initialPose = camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
+			initialPose = ~camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
 				camMatrices.at( maxObsIndex ), PoseEstimation2D3D::PLANAR_HOMOGRAPHY ); // there are no scoped enums in C++98 (only in C++0x onwards)
 			OPT_LOG_DEBUG(  "Initial pose "<<initialPose );
 		}
-- 
2.43.0


From df2844e010cb689699989e6db3a31635fe38b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 40/51] fix: pose estimation without cameras read past the end
 of an empty list

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index c624276..5201da3 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -195,6 +195,9 @@ void checkConsistency (
 	if ( points3d.size() < 3 )
 		UBITRACK_THROW( "2D6D pose estimation requires at least 3 points" );
 
+	if ( numberCameras < 1 )
+		UBITRACK_THROW( "2D6D pose estimation requires at least 1 camera" );
+
 	/*if ( points2d.size() < 2 ) {
 		LOG4CPP_ERROR ( logger, "2D6D pose estimation requires at least 2 sets of 2d points. Number of sets provided: "<<points2d.size() );
 		UBITRACK_THROW( "2D6D pose estimation requires at least 2 sets of 2d points" );
-- 
2.43.0


From 215c9be367e3ce67f676fde8eed25cc7aaa8ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 41/51] fix: serial port ignored the requested data bits and
 parity

---
 src/utUtil/SerialPort.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 8f15fc1..e28d2a2 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -300,13 +300,15 @@ void SerialPort::open( int vtime, int vmin )
 
 	m_termiosOriginal = m_termiosCurrent;
 
-	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
 	m_termiosCurrent.c_oflag = 0;
 	m_termiosCurrent.c_iflag = IGNBRK | IGNPAR;
 	m_termiosCurrent.c_lflag = 0;
 
 	cfmakeraw( &m_termiosCurrent );
 
+	// cfmakeraw resets character size and parity
+	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
+
 	m_termiosCurrent.c_cc[VTIME] = vtime;
 	m_termiosCurrent.c_cc[VMIN]  = vmin;
 
-- 
2.43.0


From 5c2af65a2655a46a85da60791fb943c99c9cd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 42/51] fix: closed serial port still counted as open and was
 closed twice

---
 src/utUtil/SerialPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index e28d2a2..852cf27 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -334,6 +334,7 @@ void SerialPort::close()
 	}
 
 	::close( m_fileDescriptor );
+	m_portOpen = false;
 }
 
 unsigned long SerialPort::read( unsigned char* buffer, unsigned long size )
-- 
2.43.0


From 10b94b74cc5d4f75471f2310a60914a9c733c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 43/51] fix: serial port that could not be set up left its
 device open

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 852cf27..2c5a74e 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -296,7 +296,10 @@ void SerialPort::open( int vtime, int vmin )
 		UBITRACK_THROW( "Cannot open special file" );
 
 	if ( tcgetattr( m_fileDescriptor, &m_termiosCurrent ) )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot get port parameter" );
+	}
 
 	m_termiosOriginal = m_termiosCurrent;
 
@@ -316,7 +319,10 @@ void SerialPort::open( int vtime, int vmin )
 	cfsetispeed( &m_termiosCurrent, baud );
 
 	if ( tcsetattr( m_fileDescriptor, TCSANOW, &m_termiosCurrent ) < 0 )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot set port parameter" );
+	}
 
 	m_portOpen = true;
 }
-- 
2.43.0


From f67e4976101dbe62e964ecc05b1be0967b8f63c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 44/51] fix: failed write or query of the serial port was
 reported as a number of bytes

---
 src/utUtil/SerialPort.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 2c5a74e..3b32779 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -367,6 +367,9 @@ unsigned long SerialPort::send( const unsigned char* buffer, unsigned long size
 
 	writtenBytes = write ( m_fileDescriptor, buffer, size );
 
+	if ( writtenBytes < 0 )
+		UBITRACK_THROW( "Error writing bytes" );
+
 	return writtenBytes;
 }
 
@@ -376,7 +379,8 @@ unsigned long SerialPort::bytesOnRead()
 		UBITRACK_THROW( "Port is not open" );
 
 	int onread;
-	ioctl( m_fileDescriptor, FIONREAD, (char*) &onread );
+	if ( ioctl( m_fileDescriptor, FIONREAD, (char*) &onread ) < 0 )
+		UBITRACK_THROW( "Error querying available bytes" );
 
 	return onread;
 }
-- 
2.43.0


From 76f73a80722192dc690f972374f39330d61e9a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 45/51] fix: flush and break of a closed serial port used an
 undefined descriptor

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 3b32779..22faea0 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -387,11 +387,17 @@ unsigned long SerialPort::bytesOnRead()
 
 void SerialPort::sendBreak()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcsendbreak( m_fileDescriptor, 0 );
 }
 
 void SerialPort::flush()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcflush( m_fileDescriptor, TCIOFLUSH );
 }
 
-- 
2.43.0


From e19248b4ab0cf5a2b0e11227be6d0dc07e7c482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 46/51] fix: sleep did not sleep when milliseconds and
 nanoseconds exceeded a second

---
 src/utUtil/OS.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index 95e3627..c78cabd 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -67,8 +67,13 @@ double getHighPerformanceFrequency()
 void sleep( unsigned ms, unsigned ns )
 {	
 	timespec t;
-	t.tv_sec = ms / 1000;
-	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns;
+	t.tv_sec = ms / 1000 + ns / 1000000000;
+	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns % 1000000000;
+	if ( t.tv_nsec >= 1000000000 )
+	{
+		t.tv_sec++;
+		t.tv_nsec -= 1000000000;
+	}
 	nanosleep( &t, NULL );
 }
 
-- 
2.43.0


From 646470590f64c89c2f797997c0e5f49a03a1746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:14 +0000
Subject: [PATCH 47/51] fix: RotHecCombine returned a wrong jacobian for the
 second rotation

---
 src/utAlgorithm/Function/RotHecFunction.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Function/RotHecFunction.h b/src/utAlgorithm/Function/RotHecFunction.h
index 8f7d6e7..49d5208 100644
--- a/src/utAlgorithm/Function/RotHecFunction.h
+++ b/src/utAlgorithm/Function/RotHecFunction.h
@@ -128,7 +128,25 @@ public:
 		jacobian1( 3, 2 ) = -m_x.z();
 		jacobian1( 3, 3 ) =  m_x.w();
 		
-		jacobian2 = -jacobian1;
+		jacobian2( 0, 0 ) = -m_x.w();
+		jacobian2( 0, 1 ) =  m_x.z();
+		jacobian2( 0, 2 ) = -m_x.y();
+		jacobian2( 0, 3 ) = -m_x.x();
+
+		jacobian2( 1, 0 ) = -m_x.z();
+		jacobian2( 1, 1 ) = -m_x.w();
+		jacobian2( 1, 2 ) =  m_x.x();
+		jacobian2( 1, 3 ) = -m_x.y();
+
+		jacobian2( 2, 0 ) =  m_x.y();
+		jacobian2( 2, 1 ) = -m_x.x();
+		jacobian2( 2, 2 ) = -m_x.w();
+		jacobian2( 2, 3 ) = -m_x.z();
+
+		jacobian2( 3, 0 ) =  m_x.x();
+		jacobian2( 3, 1 ) =  m_x.y();
+		jacobian2( 3, 2 ) =  m_x.z();
+		jacobian2( 3, 3 ) = -m_x.w();
 	}
 	
 protected:
-- 
2.43.0


From 6457c481d3466263cf4489c2d03556e5c2f101fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:14 +0000
Subject: [PATCH 48/51] fix: random pose generator could not be instantiated

---
 src/utMath/Random/Pose.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Random/Pose.h b/src/utMath/Random/Pose.h
index 811025d..1da9dd0 100644
--- a/src/utMath/Random/Pose.h
+++ b/src/utMath/Random/Pose.h
@@ -104,7 +104,7 @@ struct Pose
 		: public std::unary_function< void, Math::Pose >
 	{
 		protected:
-			Random::Quaternion< double > randRotations;
+			const typename Random::Quaternion< double >::Uniform randRotations;
 			const Math::Vector< T, 3 > m_min_range;
 			const Math::Vector< T, 3 > m_max_range;
 			
@@ -127,7 +127,7 @@ struct Pose
 				vec( 0 ) = distribute_uniform< T >( m_min_range( 0 ), m_max_range( 0 ) );
 				vec( 1 ) = distribute_uniform< T >( m_min_range( 1 ), m_max_range( 1 ) );
 				vec( 2 ) = distribute_uniform< T >( m_min_range( 2 ), m_max_range( 2 ) );
-				return Math::Pose( this.randRotations(), vec );
+				return Math::Pose( randRotations(), vec );
 			}
 	};
 };
-- 
2.43.0


From 7ea3b46c92b575f2b8ff8eeeb6d277f9bf244f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:45 +0000
Subject: [PATCH 49/51] fix: probability density of a normal distribution was
 scaled wrongly

---
 src/utMath/Stochastic/expectation_maximization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 02a9245..e91111e 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -77,7 +77,7 @@ struct Probability
 			{
 				// UBITRACK_THROW( "Cannot calculate covariance inverse, determinant is NaN or zero." );
 			
-				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159 ), size * static_cast< value_type >( 0.5 ) ) * std::fabs ( det ) );
+				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159 ), static_cast< value_type >( size ) ) * std::fabs ( det ) );
 				constant = tmpconstant;
 				// if( constant != constant ) //trick to check if the value is valid
 					// UBITRACK_THROW( "Cannot reliable determine constant value of probability density function, it is NaN." );
-- 
2.43.0


From 9b1063dacb4ab4c84e3f99f8869d1dd2380f6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:22 +0000
Subject: [PATCH 50/51] fix: pick the sign in RotationHecKalmanFilter so that
 both quaternions have scalar parts of the same sign

negateIfCloser compares whole quaternions, which chooses the wrong sign for rotations by more than 90 degrees about nearly opposite axes.
---
 src/utAlgorithm/RotationHecKalmanFilter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/RotationHecKalmanFilter.cpp b/src/utAlgorithm/RotationHecKalmanFilter.cpp
index 522f211..0b5faaf 100644
--- a/src/utAlgorithm/RotationHecKalmanFilter.cpp
+++ b/src/utAlgorithm/RotationHecKalmanFilter.cpp
@@ -57,7 +57,9 @@ void RotationHecKalmanFilter::addMeasurement( const Math::Quaternion& a, const M
 	// TODO: for error propagation use RotHecCombine
 
 	// do the filter update
-	Function::RotHecMeasurement mf( a, b.negateIfCloser( a ) );
+	// the scalar parts of both rotations are equal, so make sure their signs are
+	const Math::Quaternion bSigned( a.w() * b.w() < 0 ? Math::Quaternion( -b.x(), -b.y(), -b.z(), -b.w() ) : b );
+	Function::RotHecMeasurement mf( a, bSigned );
 	Math::Stochastic::kalmanMeasurementUpdate< 4, 4 >( m_state, mf, kalmanMeasurement, 0, m_state.value.size() );
 
 	// normalize the result to ensure quaternion properties
-- 
2.43.0


From 039394e8503f3cbc58e20c49c56f491c3b9fc2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:22 +0000
Subject: [PATCH 51/51] fix: report damaged measurement files with the
 exception of the library

The archive was opened outside the try block, so a file with a damaged header or of another format raised an exception of Boost.
---
 src/utUtil/CalibFile.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 5349785..138dc91 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -115,10 +115,9 @@ void readCalibFile( const std::string& sFile, Measurement::Measurement< T >& res
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
     try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> result;
     } catch (std::exception& ) {
@@ -146,10 +145,9 @@ void readCalibFileDropMeasurement( const std::string& sFile, T& result )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
 	try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> interResult;
     } catch (std::exception& ) {
-- 
2.43.0

