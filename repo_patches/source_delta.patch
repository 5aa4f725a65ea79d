From 8837f470d35b07d2f005cafa88d1adc5b308276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:05 +0000
Subject: [PATCH 1/9] fix: elapsed time of intervals crossing a second boundary

The difference of the nanosecond fields is negative when the interval
crosses a second boundary. It was stored in an unsigned integer before
the seconds were added in floating point, so the sum was out of range.
Do the computation with signed 64 bit integers.
---
 include/diagnostic/vdtdiag_helper.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 6dcb6f5..89df452 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -377,11 +377,10 @@ private:
 	/// Return time in nanoseconds
 
 	uint64_t get_elapsed_time(){
-		timespec temp;
-		temp.tv_sec = m_time2.tv_sec-m_time1.tv_sec;
-		temp.tv_nsec = m_time2.tv_nsec-m_time1.tv_nsec;
-		uint64_t elapsed_time = temp.tv_nsec;
-		elapsed_time += 1e9*temp.tv_sec;
+		// The nanoseconds difference is negative if a second boundary was crossed
+		int64_t elapsed_time = m_time2.tv_sec-m_time1.tv_sec;
+		elapsed_time *= 1000000000;
+		elapsed_time += m_time2.tv_nsec-m_time1.tv_nsec;
 		return elapsed_time;
 	}
 
-- 
2.43.0


From c7d75f7544d035e45aa317887b3daad20ffb2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:05 +0000
Subject: [PATCH 2/9] fix: different bit of identical values and of large
 distances

The position of the highest bit was obtained as log2(c)+1. For identical
values this converted minus infinity to an integer, which is undefined.
For distances just below a power of two above 2^48 the conversion to
double and the rounding of log2 gave a position one too high. Count the
bits instead.
---
 include/diagnostic/vdtdiag_helper.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 89df452..97ce291 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -178,8 +178,13 @@ uint16_t diffbit(const T a,const T b ){
 	uint64_t ib = fp2uint64(b);
 	uint64_t c = ia>ib? ia-ib : ib -ia;
 	//uint64_t c = ia^ib;
-	/// return the log2+1
-	return log2(c)+1;
+	/// return the position of the highest bit set, 0 if there is none
+	uint16_t position = 0;
+	while (c != 0){
+		c >>= 1;
+		position++;
+	}
+	return position;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 3ff798bc0d57818fa099c114b05f67e1c442f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:05 +0000
Subject: [PATCH 3/9] fix: single precision exponential at the ends of its
 range

For arguments above 88.376 the exponent is 128 and 2^128 is not a finite
float, so the result was infinity although it is representable. In the
same way results below 2^-127 were flushed to zero. Multiply by the
power of two in two steps.
---
 include/exp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/exp.h b/include/exp.h
index 363b356..590d50f 100644
--- a/include/exp.h
+++ b/include/exp.h
@@ -140,8 +140,10 @@ inline float fast_expf(float initial_x) {
     z *= x2;
     z += x + 1.0f;
 
-    /* multiply by power of 2 */
-    z *=  details::uint322sp((n+0x7f)<<23);
+    /* multiply by power of 2, in two steps since 2^n may be out of range */
+    const int32_t n2 = n>>1;
+    z *=  details::uint322sp((n2+0x7f)<<23);
+    z *=  details::uint322sp((n-n2+0x7f)<<23);
 
     if (initial_x > details::MAXLOGF) z=std::numeric_limits<float>::infinity();
     if (initial_x < details::MINLOGF) z=0.f;
-- 
2.43.0


From 0a7d9f460bc2f37d46faa8ff7bf9cae148caec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:05 +0000
Subject: [PATCH 4/9] fix: tangent of tiny arguments

The unused reciprocal branch overflowed to infinity for arguments below
about 5.6e-309 (2.9e-39 in single precision) and the multiplication by
zero that discards it gave NaN. Divide by one when the reciprocal is not
needed.
---
 include/tan.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tan.h b/include/tan.h
index c1ec59d..a5187c9 100644
--- a/include/tan.h
+++ b/include/tan.h
@@ -118,7 +118,8 @@ inline double fast_tan(double x){
     // Avoid fpe generated by 1/0 if res is 0
     const double zeroIfXNonZero = (x==0.);
     res += zeroIfXNonZero;
-    res = quad * (-1./res) + alt * res; // one coeff is one and one is 0!
+    // The division is done by 1 if not needed: 1/res overflows if res is tiny
+    res = quad * (-1./(quad * res + alt)) + alt * res; // one coeff is one and one is 0!
 
     // Again, return 0 if res==0, the correct result otherwhise
     return details::dpXORuint64(res,sign_mask) * (1.-zeroIfXNonZero);
@@ -155,7 +156,8 @@ inline float fast_tanf(float x){
     // Avoid fpe generated by 1/0 if res is 0
     const float zeroIfXNonZero = (x==0.f);
     res += zeroIfXNonZero;
-    res = quad * (-1.f/res) + alt * res; // one coeff is one and one is 0!
+    // The division is done by 1 if not needed: 1/res overflows if res is tiny
+    res = quad * (-1.f/(quad * res + alt)) + alt * res; // one coeff is one and one is 0!
 
     return details::spXORuint32(res,sign_mask) * (1.f-zeroIfXNonZero);
 
-- 
2.43.0


From 42bd3a9954c59fca1c3b74fbd54092601909a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:05 +0000
Subject: [PATCH 5/9] fix: invalid operation in single precision atan2(0,0)

The protection of the division was commented out, so 0/0 was computed
and raised the invalid exception. The double precision version divides
by one in this case, do the same here.
---
 include/atan2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/atan2.h b/include/atan2.h
index 62f9249..bf70eef 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -105,7 +105,7 @@ inline float fast_atan2f( float y, float x ) {
     // To avoid the fpe, we protect against /0.
     const float oneIfXXZero = (xx==0.f);
     
-    float t=yy/(xx/*+oneIfXXZero*/);
+    float t=yy/(xx+oneIfXXZero);
     float z=t;
     if( t > 0.4142135623730950f ) // * tan pi/8
             z = (t-1.0f)/(t+1.0f);
-- 
2.43.0


From bcbded6042c50f5f1595e52e3802aed8c5a00fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:05 +0000
Subject: [PATCH 6/9] fix: atan2(0,NaN) is NaN

The result was reset to zero when y is zero even if x is not a number.
The reset is not needed: the quotient is zero already for every other x.
---
 include/atan2.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/atan2.h b/include/atan2.h
index bf70eef..2c556b0 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -81,7 +81,6 @@ inline double fast_atan2( double y, double x ) {
     ret*= (1.-oneIfXXZero);
 
     // move back in place
-    if (y==0) ret=0.0;
     if (tmp!=0) ret = details::PIO2 - ret;
     if (x<0) ret = details::PI - ret;
     if (y<0) ret = -ret;
@@ -123,7 +122,6 @@ inline float fast_atan2f( float y, float x ) {
     ret*= (1.f - oneIfXXZero);
     
     // move back in place
-    if (y==0.f) ret=0.f;
     if( t > 0.4142135623730950f ) ret += details::PIO4F;
     if (tmp!=0) ret = details::PIO2F - ret;
     if (x<0.f) ret = details::PIF - ret;
-- 
2.43.0


From d5adf11180e5492b5f9afa60b20d701d4e8d4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:05 +0000
Subject: [PATCH 7/9] fix: logarithm of NaN is NaN

The bits of a NaN were taken apart like those of a number and a finite
value was returned.
---
 include/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/log.h b/include/log.h
index ddda848..834e52c 100644
--- a/include/log.h
+++ b/include/log.h
@@ -118,7 +118,7 @@ inline double fast_log(double x){
 
 	if (original_x > details::LOG_UPPER_LIMIT)
 		res = std::numeric_limits<double>::infinity();
-	if (original_x < details::LOG_LOWER_LIMIT) // THIS IS NAN!
+	if (!(original_x >= details::LOG_LOWER_LIMIT)) // THIS IS NAN!
 		res =  - std::numeric_limits<double>::quiet_NaN();
 
 	return res;
@@ -193,7 +193,7 @@ inline float fast_logf( float x ) {
 
 	if (original_x > details::LOGF_UPPER_LIMIT)
 		res = std::numeric_limits<float>::infinity();
-	if (original_x < details::LOGF_LOWER_LIMIT)
+	if (!(original_x >= details::LOGF_LOWER_LIMIT))
 		res = -std::numeric_limits<float>::quiet_NaN();
 
 	return res;
-- 
2.43.0


From 74a1302f6b8298e6de8acaf915780a8609f4bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:55:31 +0000
Subject: [PATCH 8/9] fix: skip all five header lines when reloading an
 old-style comparison

---
 include/diagnostic/vdtdiag_fcnComparison.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 8078e80..4650a41 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -307,7 +307,7 @@ public:
 			std::ifstream ifile ( input_filename );
 			std::string line;
 			//skip the 5 header lines but read the func name from resp		
-			for (uint16_t i=0;i<2;++i)
+			for (uint16_t i=0;i<5;++i)
 				std::getline(ifile,line);
 			//read data from file	
 			//read stats:
-- 
2.43.0


From 83b7927b8ca0a0c53ae055652b6dd5d4fa080d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:55:31 +0000
Subject: [PATCH 9/9] fix: reload comparison rows whose input is infinite or
 not a number

---
 include/diagnostic/vdtdiag_fcnComparison.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 4650a41..d0c6a56 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -66,7 +66,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy;	//input value for Python, now useless
+			std::string dummy;	//input value for Python, now useless (not a number if inf or nan)
 			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> dummy) {
 				m_input.push_back(in_val.getValue());
 				IfcnComparison<T>::m_out1.push_back(out1_val.getValue());
@@ -182,7 +182,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val1, in_val2, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy1, dummy2;	//input value for Python, now useless
+			std::string dummy1, dummy2;	//input values for Python, now useless (not a number if inf or nan)
 			while(ifile >> in_val1 >> in_val2 >> out1_val >> out2_val >> tmp_diff >> dummy1 >> dummy2) {
 				m_input1.push_back(in_val1.getValue());
 				m_input2.push_back(in_val2.getValue());
@@ -318,7 +318,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T trash;	//input value for Python, now useless
+			std::string trash;	//input value for Python, now useless (not a number if inf or nan)
 			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> trash) {
 				m_input.push_back(in_val.getValue());
 				m_out1.push_back(out1_val.getValue());
-- 
2.43.0

