From a0438154634bdfd52ce9e124e734679ad08e990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 1/4] fix: avoid signed overflow in absolute() of NaR for 32
 and 64 bits

Negating the minimum value of a 32 or 64 bit signed integer is undefined
behaviour. Return NaR explicitly, as documented.
---
 src/absolute.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/absolute.c b/src/absolute.c
index e54ce80..f4aa6bb 100644
--- a/src/absolute.c
+++ b/src/absolute.c
@@ -18,12 +18,20 @@ takum16_absolute(takum16 t)
 takum32
 takum32_absolute(takum32 t)
 {
+	if (t == TAKUM32_NAR) {
+		return TAKUM32_NAR;
+	}
+
 	return (t < 0) * (-t) + (t >= 0) * t;
 }
 
 takum64
 takum64_absolute(takum64 t)
 {
+	if (t == TAKUM64_NAR) {
+		return TAKUM64_NAR;
+	}
+
 	return (t < 0) * (-t) + (t >= 0) * t;
 }
 
@@ -42,11 +50,19 @@ takum_linear16_absolute(takum_linear16 t)
 takum_linear32
 takum_linear32_absolute(takum_linear32 t)
 {
+	if (t == TAKUM_LINEAR32_NAR) {
+		return TAKUM_LINEAR32_NAR;
+	}
+
 	return (t < 0) * (-t) + (t >= 0) * t;
 }
 
 takum_linear64
 takum_linear64_absolute(takum_linear64 t)
 {
+	if (t == TAKUM_LINEAR64_NAR) {
+		return TAKUM_LINEAR64_NAR;
+	}
+
 	return (t < 0) * (-t) + (t >= 0) * t;
 }
-- 
2.43.0


From c0baae1d0ea8d95dfbebccf1e634fbe3a6298731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 2/4] fix: return the real odd root of negative linear takums
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

powl() of a negative base and the non-integer exponent 1/n is NaN, so the
linear variants returned NaR for every odd root of a negative takum other
than n=±1, although only even roots of negative takums are NaR (see
takum_root(3) and the logarithmic variants).
---
 src/root.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/root.c b/src/root.c
index e116d31..12df51d 100644
--- a/src/root.c
+++ b/src/root.c
@@ -75,7 +75,8 @@ takum_linear8_root(takum_linear8 t, int64_t n)
 	}
 
 	f = takum_linear8_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = (f < 0.0l) ? -powl(-f, 1.0l / (long double)n) :
+	                   powl(f, 1.0l / (long double)n);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -94,7 +95,8 @@ takum_linear16_root(takum_linear16 t, int64_t n)
 	}
 
 	f = takum_linear16_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = (f < 0.0l) ? -powl(-f, 1.0l / (long double)n) :
+	                   powl(f, 1.0l / (long double)n);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -113,7 +115,8 @@ takum_linear32_root(takum_linear32 t, int64_t n)
 	}
 
 	f = takum_linear32_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = (f < 0.0l) ? -powl(-f, 1.0l / (long double)n) :
+	                   powl(f, 1.0l / (long double)n);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -132,7 +135,8 @@ takum_linear64_root(takum_linear64 t, int64_t n)
 	}
 
 	f = takum_linear64_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = (f < 0.0l) ? -powl(-f, 1.0l / (long double)n) :
+	                   powl(f, 1.0l / (long double)n);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
-- 
2.43.0


From b5cd0d714535f8a531f3ecfcbcdccaf534057a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 3/4] fix: select the long double layout by the actual byte
 order

Without <endian.h> both macros are undefined and compare equal, selecting
the little-endian layout under the name of the big-endian one. As soon as
<endian.h> is visible the wrong layout is chosen and long doubles below
the smallest takum are misclassified.
---
 src/codec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec.c b/src/codec.c
index d19b469..867cfb7 100644
--- a/src/codec.c
+++ b/src/codec.c
@@ -465,7 +465,7 @@ extended_float_fraction_to_rounded_bits(long double f, uint_fast8_t num_bits)
 				uint64_t sign_exp_fraction;
 #elif LDBL_MANT_DIG == 64 && LDBL_MAX_EXP == 16384
 /* 80-bit long double */
-#if __BYTE_ORDER == __BIG_ENDIAN
+#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
 				uint64_t fraction;
 				uint16_t sign_exp;
 #else
@@ -474,7 +474,7 @@ extended_float_fraction_to_rounded_bits(long double f, uint_fast8_t num_bits)
 #endif
 #elif LDBL_MANT_DIG == 113 && LDBL_MAX_EXP == 16384
 /* 128-bit long double */
-#if __BYTE_ORDER == __BIG_ENDIAN
+#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
 				uint16_t fraction_reallydontcare;
 				uint32_t fraction_dontcare;
 				uint64_t fraction;
-- 
2.43.0


From 07e1afb0e20f9d30eed0d1bcf4d613b04bede9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 4/4] fix: round takum_linear64_to_float32 only once

Going through float64 rounds twice and misses the nearest float32 when
the first rounding lands on a tie, e.g. for 1+2^-24+2^-54.
---
 src/conversion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.c b/src/conversion.c
index af7a9bf..6de0028 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -678,7 +678,7 @@ takum_linear32_to_float32(takum_linear32 t)
 float
 takum_linear64_to_float32(takum_linear64 t)
 {
-	return (float)codec_s_and_linear_l_to_float64(
+	return (float)codec_s_and_linear_l_to_extended_float(
 		t < 0, codec_takum64_to_l((takum64)t));
 }
 
-- 
2.43.0

