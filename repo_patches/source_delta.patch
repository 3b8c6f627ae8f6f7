From 77c3072ee15a44105f14337b2065b08262e40f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 01/41] fix: portable f32x4/i32x4/u32x4 fallback: select,
 pointer loads and int/float conversions

---
 include/math/simd/vector/float.hpp | 10 +++++-----
 include/math/simd/vector/int.hpp   |  4 ++--
 include/math/simd/vector/uint.hpp  |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ec18d7f..97c2a19 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -151,7 +151,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
-		floats = v.floats;
+		floats = float4(v.uints);
 		#endif
 	}
 	/**
@@ -165,7 +165,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_s32(v.data);
 		#else
-		floats = v.floats;
+		floats = float4(v.ints);
 		#endif
 	}
 
@@ -222,7 +222,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_f32(v);
 		#else
-		floats = *v;
+		floats = *((const float4*)v);
 		#endif
 	}
 	
@@ -410,7 +410,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_s32_f32(data);
 		#else
-		return i32x4((uint4)floats);
+		return i32x4((int4)floats);
 		#endif
 	}
 
@@ -735,7 +735,7 @@ static f32x4 select(u32x4 c, f32x4 t, f32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_f32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return f32x4(select(c.floats, t.floats, f.floats));
+	return f32x4(select(c.uints, t.floats, f.floats));
 	#endif
 }
 
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index b5a369d..6586ad0 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -199,7 +199,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_s32(v);
 		#else
-		ints = *v;
+		ints = *((const int4*)v);
 		#endif
 	}
 	
@@ -759,7 +759,7 @@ static i32x4 select(u32x4 c, i32x4 t, i32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_s32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return i32x4(select(c.ints, t.ints, f.ints));
+	return i32x4(select(c.uints, t.ints, f.ints));
 	#endif
 }
 
diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 9468203..563b18b 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -190,7 +190,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_u32(v);
 		#else
-		uints = *v;
+		uints = *((const uint4*)v);
 		#endif
 	}
 	
-- 
2.43.0


From fa07c28489dd18cf9ee0647538d9dea1c922e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 02/41] fix: f32x4 <-> u32x4 conversion of values above 2^31 on
 SSE

---
 include/math/simd/vector/float.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 97c2a19..a241bb6 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -147,7 +147,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit f32x4(u32x4 v)
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		data = _mm_cvtepi32_ps(v.data);
+		auto hi = _mm_cvtepi32_ps(_mm_srli_epi32(v.data, 16));
+		auto lo = _mm_cvtepi32_ps(_mm_and_si128(v.data, _mm_set1_epi32(0xFFFF)));
+		data = _mm_add_ps(_mm_mul_ps(hi, _mm_set1_ps(65536.0f)), lo); // There is no unsigned conversion instruction.
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
@@ -393,7 +395,10 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit operator u32x4() const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cvttps_epi32(data);
+		auto limit = _mm_set1_ps(2147483648.0f); // There is no unsigned conversion instruction.
+		auto isBig = _mm_cmpge_ps(data, limit);
+		auto r = _mm_cvttps_epi32(_mm_sub_ps(data, _mm_and_ps(isBig, limit)));
+		return _mm_xor_si128(r, _mm_slli_epi32(_mm_castps_si128(isBig), 31));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_u32_f32(data);
 		#else
@@ -1208,7 +1213,7 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)e);
+		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)(i32x4)e);
 		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
 		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
-- 
2.43.0


From 33700837a2595b4a3119e24b3c5dac5b7bdd56d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 03/41] fix: SIMD log() of infinity and NaN, and its duplicated
 polynomial coefficient

---
 include/math/simd/vector/float.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index a241bb6..9e2af9b 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1209,13 +1209,12 @@ static f32x4 log(f32x4 v) noexcept
 		auto t = f32x4(0.2392828464508056640625f);
 		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.400005877017974853515625f));
-		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
 		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)(i32x4)e);
-		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
-		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
+		x = select(equal(v, f32x4::inf), f32x4::inf, x);
+		x = select((v < f32x4::zero) | notEqual(v, v), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
 		return x;
 	}
-- 
2.43.0


From 4cb11c524ee32b52831f384fba161ba1ea47f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 04/41] fix: SIMD exp() of NaN is NaN, as with std::exp

---
 include/math/simd/vector/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 9e2af9b..5333bb8 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1250,7 +1250,7 @@ static f32x4 exp(f32x4 v) noexcept
 		u = u * intAsFloat(((q >> 1) + 0x7f) << 23) * 
 			intAsFloat(((q - (q >> 1)) + 0x7f) << 23);
 
-		u = uintAsFloat(floatAsUint(u) & (v >= -104.0f));
+		u = uintAsFloat(bic(floatAsUint(u), v < -104.0f));
 		u = select(v > 104.0f, f32x4::inf, u);
 		return u;
 	}
-- 
2.43.0


From 16aeb048198cf7c3374fc39607d4dd7d567b3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 05/41] fix: u32x4 comparisons, min and max are unsigned on SSE

---
 include/math/simd/vector/uint.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 563b18b..af1d221 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -555,7 +555,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmplt_epi32(data, v.data);
+		auto b = _mm_set1_epi32(INT32_MIN); // Note: SSE compares are signed.
+		return _mm_cmplt_epi32(_mm_xor_si128(data, b), _mm_xor_si128(v.data, b));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcltq_u32(data, v.data);
 		#else
@@ -565,7 +566,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmpgt_epi32(data, v.data);
+		auto b = _mm_set1_epi32(INT32_MIN); // Note: SSE compares are signed.
+		return _mm_cmpgt_epi32(_mm_xor_si128(data, b), _mm_xor_si128(v.data, b));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgtq_u32(data, v.data);
 		#else
@@ -575,7 +577,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmplt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		auto b = _mm_set1_epi32(INT32_MIN); // Note: SSE compares are signed.
+		return _mm_or_si128(_mm_cmplt_epi32(_mm_xor_si128(data, b), _mm_xor_si128(v.data, b)), _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcleq_u32(data, v.data);
 		#else
@@ -585,7 +588,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmpgt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		auto b = _mm_set1_epi32(INT32_MIN); // Note: SSE compares are signed.
+		return _mm_or_si128(_mm_cmpgt_epi32(_mm_xor_si128(data, b), _mm_xor_si128(v.data, b)), _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgeq_u32(data, v.data);
 		#else
@@ -795,7 +799,7 @@ static u32x4 select(u32x4 c, u32x4 t, u32x4 f) noexcept
 static u32x4 min(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_min_epi32(a.data, b.data);
+	return _mm_min_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminq_u32(a.data, b.data);
 	#else
@@ -811,7 +815,7 @@ static u32x4 min(u32x4 a, u32x4 b) noexcept
 static u32x4 max(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_max_epi32(a.data, b.data);
+	return _mm_max_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxq_u32(a.data, b.data);
 	#else
-- 
2.43.0


From 756d6882d100152fcb673ebd41fb85c2e34619ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 06/41] fix: int3(int2, int32) constructor ignored its z
 argument

---
 include/math/vector/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/vector/int.hpp b/include/math/vector/int.hpp
index 5f60ace..415e5ce 100644
--- a/include/math/vector/int.hpp
+++ b/include/math/vector/int.hpp
@@ -193,7 +193,7 @@ struct [[nodiscard]] int3
 	 * @param xy first and second vector components value
 	 * @param z third vector component value
 	 */
-	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(x) { }
+	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(z) { }
 	/**
 	 * @brief Creates a new signed integer 3 component vector structure.
 	 *
-- 
2.43.0


From 5c9f2d541e0a284c97d850ebdf3bed01c3812d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 07/41] fix: equal() and notEqual() of float2 took a float4 as
 second argument

---
 include/math/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/vector/float.hpp b/include/math/vector/float.hpp
index 413ca3d..cdec884 100644
--- a/include/math/vector/float.hpp
+++ b/include/math/vector/float.hpp
@@ -562,7 +562,7 @@ static string toString(float2 v) { return to_string(v.x) + " " + to_string(v.y);
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 equal(float2 a, float4 b) noexcept
+static uint2 equal(float2 a, float2 b) noexcept
 {
 	return uint2(a.x == b.x ? UINT32_MAX : 0, a.y == b.y ? UINT32_MAX : 0);
 }
@@ -572,7 +572,7 @@ static uint2 equal(float2 a, float4 b) noexcept
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 notEqual(float2 a, float4 b) noexcept
+static uint2 notEqual(float2 a, float2 b) noexcept
 {
 	return uint2(a.x != b.x ? UINT32_MAX : 0, a.y != b.y ? UINT32_MAX : 0);
 }
-- 
2.43.0


From b83ce6a2f2c9f39d9c9a4d745f9555e58c50f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 08/41] fix: vector * matrix multiplied every column by the
 same vector component

---
 include/math/matrix/float.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 95a2233..155f33c 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -575,8 +575,8 @@ static constexpr float2x2 operator/(float n, const float2x2& m) noexcept { retur
 static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 {
 	return float2(
-		m.c0.x * v.x + m.c1.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y);
+		v.x * m.c0.x + v.y * m.c0.y,
+		v.x * m.c1.x + v.y * m.c1.y);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -587,9 +587,9 @@ static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 {
 	return float3(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z);
+		v.x * m.c0.x + v.y * m.c0.y + v.z * m.c0.z,
+		v.x * m.c1.x + v.y * m.c1.y + v.z * m.c1.z,
+		v.x * m.c2.x + v.y * m.c2.y + v.z * m.c2.z);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -600,10 +600,10 @@ static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 static constexpr float4 operator*(float4 v, const float4x4& m) noexcept
 {
 	return float4(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x + m.c3.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y + m.c3.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z + m.c3.z * v.z,
-		m.c0.w * v.w + m.c1.w * v.w + m.c2.w * v.w + m.c3.w * v.w);
+		v.x * m.c0.x + v.y * m.c0.y + v.z * m.c0.z + v.w * m.c0.w,
+		v.x * m.c1.x + v.y * m.c1.y + v.z * m.c1.z + v.w * m.c1.w,
+		v.x * m.c2.x + v.y * m.c2.y + v.z * m.c2.z + v.w * m.c2.w,
+		v.x * m.c3.x + v.y * m.c3.y + v.z * m.c3.z + v.w * m.c3.w);
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From 99d079382204c450f772fb6c9b0d15691b7d1314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 09/41] fix: inverse() of float2x2 was transposed, of float3x3
 transposed with wrong cofactors

---
 include/math/matrix/float.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 155f33c..f8f91c3 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -647,8 +647,8 @@ static constexpr float4x4 transpose(float4x4 m) noexcept
 static constexpr float2x2 inverse(float2x2 m) noexcept
 {
 	auto oneOverDeterminant = 1.0f / (m.c0.x * m.c1.y - m.c1.x * m.c0.y);
-	return float2x2(m.c1.y * oneOverDeterminant, -m.c0.y * oneOverDeterminant,
-		-m.c1.x * oneOverDeterminant, m.c0.x * oneOverDeterminant);
+	return float2x2(m.c1.y * oneOverDeterminant, -m.c1.x * oneOverDeterminant,
+		-m.c0.y * oneOverDeterminant, m.c0.x * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
@@ -662,14 +662,14 @@ static constexpr float3x3 inverse(float3x3 m) noexcept
 		m.c2.x * (m.c0.y * m.c1.z - m.c1.y * m.c0.z));
 	return float3x3(
 		(m.c1.y * m.c2.z - m.c2.y * m.c1.z) * oneOverDeterminant,
-		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
-		(m.c0.y * m.c2.z - m.c1.y * m.c0.z) * oneOverDeterminant,
 		-(m.c1.x * m.c2.z - m.c2.x * m.c1.z) * oneOverDeterminant,
-		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
-		-(m.c0.x * m.c2.z - m.c1.x * m.c0.z) * oneOverDeterminant,
 		(m.c1.x * m.c2.y - m.c2.x * m.c1.y) * oneOverDeterminant,
+		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
 		-(m.c0.x * m.c2.y - m.c2.x * m.c0.y) * oneOverDeterminant,
-		(m.c0.x * m.c2.y - m.c1.x * m.c0.y) * oneOverDeterminant);
+		(m.c0.y * m.c1.z - m.c1.y * m.c0.z) * oneOverDeterminant,
+		-(m.c0.x * m.c1.z - m.c1.x * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c1.y - m.c1.x * m.c0.y) * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From 7b021fae6b3ac3e2fa52d3bdd1964f10a78973a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 10/41] fix: float4x3::operator[] asserted on its fourth column

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index f8f91c3..a291668 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -306,7 +306,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3& operator[](psize i) noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 	/**
@@ -315,7 +315,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3 operator[](psize i) const noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 
-- 
2.43.0


From ec35ac3eb1b66f349b1c9f46891b1878466ecd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 11/41] fix: f32x4x4(float4x4) used an aligned load from a
 float4x4, which is aligned to 4 bytes only

---
 include/math/simd/matrix/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index c93990a..eb77f86 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -77,7 +77,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * @param[in] m target 4x4 matrix value
 	 */
-	explicit f32x4x4(const float4x4& m) noexcept { *this = *((const f32x4x4*)&m); }
+	explicit f32x4x4(const float4x4& m) noexcept : c0(m.c0), c1(m.c1), c2(m.c2), c3(m.c3) { }
 	/**
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * 
-- 
2.43.0


From a759d0a3e53208b414f44459853567ba9f7742aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 12/41] fix: f32x4x4 was read as a float4x4 through a pointer
 cast, which gcc -O2 miscompiles

---
 include/math/simd/matrix/float.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index eb77f86..f461596 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -121,7 +121,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 */
 	explicit operator float4x4() const noexcept
 	{
-		return *((const float4x4*)this);
+		return float4x4((float4)c0, (float4)c1, (float4)c2, (float4)c3);
 	}
 	/**
 	 * @brief Returns SIMD matrix as 4x3 floating point matrix.
@@ -207,7 +207,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 			result[i].data = r;
 		}
 		#else
-		result = f32x4x4((*((const float4x4*)this) * (*((const float4x4*)&m))));
+		result = f32x4x4((float4x4)*this * (float4x4)m);
 		#endif
 		return result;
 	}
@@ -230,7 +230,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 		r = vmlaq_f32(r, c3.data, vdupq_laneq_f32(v.data, 3));
 		return r;
 		#else
-		return f32x4((*((const float4x4*)this) * (*((const float4*)&v))));
+		return f32x4((float4x4)*this * (float4)v);
 		#endif
 	}
 
@@ -361,7 +361,7 @@ static f32x4x4 transpose4x4(const f32x4x4& m) noexcept
 	auto t4 = vzipq_f32(t1.val[1], t2.val[1]);
 	return f32x4x4(t3.val[0], t3.val[1], t4.val[0], t4.val[1]);
 	#else
-	return f32x4x4(transpose(*((const float4x4*)&m)));
+	return f32x4x4(transpose((float4x4)m));
 	#endif
 }
 /**
@@ -542,7 +542,7 @@ static f32x4x4 inverse4x4(const f32x4x4& m) noexcept
 	return f32x4x4(vmulq_f32(d, m0), vmulq_f32(d, m1), 
 		vmulq_f32(d, m2), vmulq_f32(d, m3));
 	#else
-	return f32x4x4(inverse(*((const float4x4*)&m)));
+	return f32x4x4(inverse((float4x4)m));
 	#endif
 }
 
-- 
2.43.0


From 783d9c8eac45898e80c25f5cd489953c4c79fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 13/41] fix: extractScale() returned the squared scale, which
 also broke extractRotation() and extractTransform()

---
 include/math/matrix/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 6f51f71..ed00aa7 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -110,7 +110,7 @@ static f32x4x4 scale(f32x4 s, const f32x4x4& m) noexcept
  */
 static f32x4 extractScale(const f32x4x4& m) noexcept
 {
-	return f32x4(lengthSq3(m.c0), lengthSq3(m.c1), lengthSq3(m.c2));
+	return f32x4(length3(m.c0), length3(m.c1), length3(m.c2));
 }
 /**
  * @brief Extracts total SIMD matrix 2D scale transformation of an object in 3D space.
@@ -118,7 +118,7 @@ static f32x4 extractScale(const f32x4x4& m) noexcept
  */
 static float2 extractScale2(const f32x4x4& m) noexcept
 {
-	return float2(lengthSq3(m.c0), length3(m.c1));
+	return float2(length3(m.c0), length3(m.c1));
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From 82d2f9dff4fcee58782a04c054bfe6d1e5292eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 14/41] fix: lookAtQuat() crossed two parallel vectors, so its
 up axis was zero

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index ed00aa7..664a1a4 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -307,7 +307,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
 {
 	auto right = cross3(up, direction);
 	auto c0 = right * (1.0f / std::sqrt(std::max(0.00001f, dot3(right, right))));
-	auto c1 = cross3(right, c0);
+	auto c1 = cross3(direction, c0);
 	auto m = f32x4x4(c0, c1, direction);
 	return extractQuat(m);
 }
-- 
2.43.0


From 87bce0e216f9ba273fd7b4af855bdcb6f5bf77ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 15/41] fix: inverseTransRot() left the translation in the
 bottom row of the result

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 664a1a4..327497b 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -319,7 +319,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
  */
 static f32x4x4 inverseTransRot(const f32x4x4& m)
 {
-	auto t = transpose4x4(m);
+	auto t = transpose4x4(extractRotationOnly(m));
 	setTranslation(t, -multiply3x3(t, getTranslation(m)));
 	return t;
 }
-- 
2.43.0


From 9e02b0cb44c7841998ed83e8688a29eb6634314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 16/41] fix: quat::extractPitch() took the gimbal lock branch
 for every zero or half turn pitch

---
 include/math/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index e881444..d8cc435 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -112,7 +112,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON || std::abs(yy) <= FLT_EPSILON)
+		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
 			return 2.0f * std::atan2(x, w);
 		return std::atan2(yy, xx);
 	}
-- 
2.43.0


From 5473a4446feb310566d4f03954907b8f2f583ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 17/41] fix: plane of a triangle had its distance negated

---
 include/math/plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/plane.hpp b/include/math/plane.hpp
index 174b988..0204986 100644
--- a/include/math/plane.hpp
+++ b/include/math/plane.hpp
@@ -64,7 +64,7 @@ public:
 		auto normal = cross3(triangle.p1 - triangle.p0, triangle.p2 - triangle.p0);
 		if (length3(normal) > 0.0f)
 			normal = normalize3(normal);
-		auto distance = dot3(normal, triangle.p0);
+		auto distance = -dot3(normal, triangle.p0);
 		normDist = f32x4(normal, distance);
 	}
 
-- 
2.43.0


From c346d220bde462f0b7e9346634c69fc84e2bad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 18/41] fix: isInside(triangle, point) was true for points in
 line with the p1 p2 edge, outside of it

---
 include/math/triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/triangle.hpp b/include/math/triangle.hpp
index cb81804..d5e1fc6 100644
--- a/include/math/triangle.hpp
+++ b/include/math/triangle.hpp
@@ -74,7 +74,7 @@ static bool isInside(const Triangle& triangle, f32x4 point) noexcept
 {
 	auto p0 = triangle.p0 - point, p1 = triangle.p1 - point, p2 = triangle.p2 - point;
 	auto u = cross3(p1, p2), v = cross3(p2, p0), w = cross3(p0, p1);
-	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f)
+	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f || dot3(v, w) < 0.0f)
 		return false;
 	return true;
 }
-- 
2.43.0


From ca66f41109d3dafb01e239dcbbeeabc1147f8d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 19/41] fix: Ray constructor did not set which axes are
 parallel

---
 include/math/ray.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index ef832bc..8a9933d 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -47,7 +47,8 @@ public:
 	 * @param normalize is direction vector should be normalized
 	 */
 	Ray(f32x4 origin, f32x4 direction, bool normalize = true) noexcept : 
-		direction(normalize ? normalize3(direction) : direction), origin(origin) { }
+		direction(normalize ? normalize3(direction) : direction), 
+		isParallel(abs(direction) <= f32x4(1.0e-20f)), origin(origin) { }
 	/**
 	 * @brief Creates a new empty ray structure.
 	 */
-- 
2.43.0


From d2d350b275ee0e536dcf6a1641b2742e767ecb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 20/41] fix: AABB raycast normalized the inversed ray direction
 and missed axis parallel rays

---
 include/math/aabb.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 11b56a4..5d531c9 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -317,17 +317,18 @@ static f32x4 closestPoint(const Aabb& aabb, f32x4 point) noexcept
  */
 static float2 raycast2I(Aabb aabb, Ray ray) noexcept
 {
+	auto isParallel = abs(ray.getDirection()) >= f32x4(1.0e20f); // Inversed direction is infinite.
 	auto t1 = (aabb.getMin() - ray.origin) * ray.getDirection();
 	auto t2 = (aabb.getMax() - ray.origin) * ray.getDirection();
-	auto tMin = select(ray.getParallel(), f32x4::minusMax, min(t1, t2));
-	auto tMax = select(ray.getParallel(), f32x4::max, max(t1, t2));
+	auto tMin = select(isParallel, f32x4::minusMax, min(t1, t2));
+	auto tMax = select(isParallel, f32x4::max, max(t1, t2));
 	tMin = max(tMin, tMin.swizzle<SwY, SwZ, SwX>());
 	tMin = max(tMin, tMin.swizzle<SwZ, SwX, SwY>());
 	tMax = min(tMax, tMax.swizzle<SwY, SwZ, SwX>());
 	tMax = min(tMax, tMax.swizzle<SwZ, SwX, SwY>());
 
 	auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());
-	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);
+	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (isParallel & noParallelOverlap);
 	noIntersection |= noIntersection.splatY();
 	noIntersection |= noIntersection.splatZ();
 
@@ -344,7 +345,7 @@ static float2 raycast2I(Aabb aabb, Ray ray) noexcept
  */
 static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast2I(aabb, ray);
 }
 
@@ -357,17 +358,18 @@ static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
  */
 static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
 {
+	auto isParallel = abs(ray.getDirection()) >= f32x4(1.0e20f); // Inversed direction is infinite.
 	auto t1 = (aabb.getMin() - ray.origin) * ray.getDirection();
 	auto t2 = (aabb.getMax() - ray.origin) * ray.getDirection();
-	auto tMin = select(ray.getParallel(), f32x4::minusMax, min(t1, t2));
-	auto tMax = select(ray.getParallel(), f32x4::max, max(t1, t2));
+	auto tMin = select(isParallel, f32x4::minusMax, min(t1, t2));
+	auto tMax = select(isParallel, f32x4::max, max(t1, t2));
 	tMin = max(tMin, tMin.swizzle<SwY, SwZ, SwX>());
 	tMin = max(tMin, tMin.swizzle<SwZ, SwX, SwY>());
 	tMax = min(tMax, tMax.swizzle<SwY, SwZ, SwX>());
 	tMax = min(tMax, tMax.swizzle<SwZ, SwX, SwY>());
 
 	auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());
-	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);
+	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (isParallel & noParallelOverlap);
 	noIntersection |= noIntersection.splatY();
 	noIntersection |= noIntersection.splatZ();
 	return select(noIntersection, f32x4::max, tMin).getX();
@@ -381,7 +383,7 @@ static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
  */
 static float raycast1(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast1I(aabb, ray);
 }
 
-- 
2.43.0


From 7a8a6180e2ab738885f2fa8cf6fce0d72ed71aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 21/41] fix: Aabb::trySet() never rejected an inverted AABB

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 5d531c9..237dd8c 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -107,7 +107,7 @@ public:
 	 */
 	bool trySet(f32x4 min, f32x4 max) noexcept
 	{
-		if (areAllTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
+		if (areAnyTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
 			return false;
 		this->min = min; this->max = max;
 		return true;
-- 
2.43.0


From 9784e0d30e8759c942a087bda3983a2141934d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 22/41] fix: Aabb::full covered only the positive octant

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 237dd8c..5dbd223 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -265,7 +265,7 @@ inline const Aabb Aabb::zero = Aabb(f32x4::zero, f32x4::zero);
 inline const Aabb Aabb::one = Aabb(f32x4(-0.5f), f32x4(0.5f));
 inline const Aabb Aabb::two = Aabb(f32x4::minusOne, f32x4::one);
 inline const Aabb Aabb::half = Aabb(f32x4(-0.25f), f32x4(0.25f));
-inline const Aabb Aabb::full = Aabb(f32x4::min, f32x4::max);
+inline const Aabb Aabb::full = Aabb(f32x4::minusMax, f32x4::max);
 inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
 
 /**
-- 
2.43.0


From f3f44ebd23811df486d87febca37acf161a3c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 23/41] fix: isBinaryLess() of Aabb ignored the maximum Z

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 5dbd223..e1c439f 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -274,7 +274,7 @@ inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
  * @param[in] a first AABB to binary compare
  * @param[in] b second AABB to binary compare
  */
-static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(float3) * 2) < 0; }
+static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(Aabb)) < 0; }
 
 /***********************************************************************************************************************
  * @brief Returns true if point is inside the AABB in 3D space.
-- 
2.43.0


From bdf22f2197fdd07e39f8f440ef302f203fbe2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 24/41] fix: isIntersected() of two AABBs compared the minimum
 of the first one twice

---
 include/math/aabb.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index e1c439f..d01c4a0 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -426,7 +426,8 @@ static bool raycastI(const Aabb& aabb, const Ray& ray) noexcept
  */
 static bool isIntersected(const Aabb& a, const Aabb& b) noexcept
 {
-	return areAllTrue(a.getMin() <= b.getMax() & a.getMin() >= b.getMax());
+	return areAllTrue(f32x4(a.getMin(), 0.0f) <= f32x4(b.getMax(), 0.0f) & 
+		f32x4(a.getMax(), 0.0f) >= f32x4(b.getMin(), 0.0f));
 }
 
 /**
-- 
2.43.0


From b53cb23c7b7ab2f420cfb6a0a841b1db857f9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 25/41] fix: isInside() of Aabb depended on the unused W
 components

---
 include/math/aabb.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index d01c4a0..49a702f 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -284,7 +284,8 @@ static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(
  */
 static bool isInside(const Aabb& aabb, f32x4 point) noexcept
 {
-	return areAllTrue(aabb.getMin() <= point & aabb.getMax() >= point);
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(point, 0.0f) & 
+		f32x4(aabb.getMax(), 0.0f) >= f32x4(point, 0.0f));
 }
 /**
  * @brief Returns true if other AABB is inside this AABB in 3D space.
@@ -294,7 +295,8 @@ static bool isInside(const Aabb& aabb, f32x4 point) noexcept
  */
 static bool isInside(const Aabb& aabb, const Aabb& other) noexcept
 {
-	return areAllTrue(aabb.getMin() <= other.getMin() & aabb.getMax() >= other.getMax());
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(other.getMin(), 0.0f) & 
+		f32x4(aabb.getMax(), 0.0f) >= f32x4(other.getMax(), 0.0f));
 }
 
 /**
-- 
2.43.0


From dcf9aaad4e854f578e0e05f407e67a0f7a7ed99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 26/41] fix: BVH partition ran out of the primitive array when
 every centroid was behind the split

---
 source/bvh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 9b8a83c..e7432a7 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -326,13 +326,13 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = lastPrimitive;
+		while (i < j)
 		{
 			if (centroidData[primitives[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitives[i], primitives[j--]);
+				std::swap(primitives[i], primitives[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
@@ -459,13 +459,13 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = lastPrimitive;
+		while (i < j)
 		{
 			if (centroidData[primitiveData[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitiveData[i], primitiveData[j--]);
+				std::swap(primitiveData[i], primitiveData[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
-- 
2.43.0


From 8bfe0b6df32ada68f6099915b4dd77f83fc3f8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 27/41] fix: BVH bins kept the primitive count in a lane that
 min and max overwrite

---
 source/bvh.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index e7432a7..bd31692 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -67,8 +67,7 @@ namespace math
 	{
 		f32x4 min = f32x4::max;
 		f32x4 max = f32x4::minusMax;
-
-		int32& primitiveCount() noexcept { return max.ints.w; }
+		int32 primitiveCount = 0;
 	};
 }
 
@@ -119,7 +118,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto& bin = bins[binIndex];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		float leftArea[BIN_COUNT - 1], rightArea[BIN_COUNT - 1];
@@ -130,12 +129,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
@@ -193,7 +192,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 			auto& bin = bins[binIndex];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		// TODO: share this function part with a previous one?
@@ -205,12 +204,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
-- 
2.43.0


From 2d172e3136d111ea0c99b6df59ad65ea164619c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 28/41] fix: BVH bin index was out of range for subnormal or
 infinite centroid bounds

---
 source/bvh.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index bd31692..b0336a4 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -99,8 +99,11 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 		if (boundsMin == boundsMax)
 			continue;
 
-		Bin bins[BIN_COUNT] = {};
 		auto scale = BIN_COUNT / (boundsMax - boundsMin);
+		if (scale == 0.0f || scale > FLT_MAX)
+			continue; // Bounds are too big or too small to select a bin.
+
+		Bin bins[BIN_COUNT] = {};
 
 		for (uint32 i = firstPrimitive; i < lastPrimitive; i++)
 		{
@@ -180,8 +183,11 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 		if (boundsMin == boundsMax)
 			continue;
 
-		Bin bins[BIN_COUNT] = {};
 		auto scale = BIN_COUNT / (boundsMax - boundsMin);
+		if (scale == 0.0f || scale > FLT_MAX)
+			continue; // Bounds are too big or too small to select a bin.
+
+		Bin bins[BIN_COUNT] = {};
 
 		for (uint32 i = firstPrimitive; i < lastPrimitive; i++)
 		{
-- 
2.43.0


From efc78571af55c62bc0011abcbfdcd1077195694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 29/41] fix: toHex() repeated the digits when the length
 exceeds the value size

---
 include/math/hex.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index 807e764..0a39d02 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -34,7 +34,10 @@ static string toHex(T value, psize length = sizeof(T) << 1) noexcept
 	constexpr const char* digits = "0123456789ABCDEF";
 	string hex(length, '0');
 	for (psize i = 0, j = (length - 1) * 4; i < length; i++, j -= 4)
-		hex[i] = digits[(value >> j) & 0x0f];
+	{
+		if (j < (sizeof(T) << 3))
+			hex[i] = digits[(value >> j) & 0x0f];
+	}
 	return hex;
 }
 
-- 
2.43.0


From 91cde656288646abd53100de51c498e003e58283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 30/41] fix: PackedVector set() did not compile, and the 4 bit
 index check was wrong

---
 include/math/packed-vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 335ecd5..9cb4325 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -20,6 +20,8 @@
 #pragma once
 #include "math/types.hpp"
 #include <vector>
+#include <cassert>
+#include <cstdlib>
 
 namespace math
 {
@@ -63,7 +65,7 @@ public:
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
+			assert(i / 2 < size());
 		return unsafeGet(i);
 	}
 
@@ -85,15 +87,15 @@ public:
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
-	uint8 set(psize i, uint8 value) noexcept
+	void set(psize i, uint8 value) noexcept
 	{
 		if constexpr (Bits == 1)
 			assert(i / 8 < size());
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
-		return unsafeSet(i, value);
+			assert(i / 2 < size());
+		unsafeSet(i, value);
 	}
 
 	void resize(psize elementCount)
-- 
2.43.0


From 32cef882d2249c679b3e62e51459ca80df105644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 31/41] fix: copied and moved PackedVector read and wrote the
 storage of its source

---
 include/math/packed-vector.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 9cb4325..94fd66d 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -29,8 +29,6 @@ namespace math
 template<int Bits = 1>
 class PackedVector final : public std::vector<uint8>
 {
-private:
-	uint8* ptr = nullptr;
 public:
 	PackedVector()
 	{
@@ -46,15 +44,15 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			return (ptr[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
+			return (data()[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
 		}
 		else if constexpr (Bits == 2)
 		{
-			return (ptr[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
+			return (data()[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
 		}
 		else if constexpr (Bits == 4)
 		{
-			return (ptr[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
+			return (data()[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
 		}
 		abort();
 	}
@@ -73,17 +71,17 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			auto& byte = ptr[i / 8]; auto shift = (uint8)(i % 8);
+			auto& byte = data()[i / 8]; auto shift = (uint8)(i % 8);
 			byte = (byte & ~((uint8)0x01 << shift)) | ((value & (uint8)0x01) << shift);
 		}
 		else if constexpr (Bits == 2)
 		{
-			auto& byte = ptr[i / 4]; auto shift = (uint8)((i % 4) * 2);
+			auto& byte = data()[i / 4]; auto shift = (uint8)((i % 4) * 2);
 			byte = (byte & ~((uint8)0x03 << shift)) | ((value & (uint8)0x03) << shift);
 		}
 		else if constexpr (Bits == 4)
 		{
-			auto& byte = ptr[i / 2]; auto shift = (uint8)((i % 2) * 4);
+			auto& byte = data()[i / 2]; auto shift = (uint8)((i % 2) * 4);
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
@@ -106,7 +104,6 @@ public:
 			std::vector<uint8>::resize(elementCount / 4 + (elementCount % 4 != 0 ? 1 : 0));
 		else if constexpr (Bits == 4)
 			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));
-		ptr = data();
 	}
 };
 
-- 
2.43.0


From 48a0e7d6f41feed06da6f76b4ef4ce93f406fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 32/41] fix: calcMipCount() was one too big for sizes just
 below large powers of two

---
 include/math/simd/vector/uint.hpp | 2 +-
 include/math/vector/uint.hpp      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index af1d221..b2a2b64 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -901,7 +901,7 @@ static u32x4 clamp(u32x4 v, u32x4 min, u32x4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount3(u32x4 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)max3(size)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)max3(size)))) + 1u;
 }
 static u32x4 calcSizeAtMip3(u32x4 sizeAt0, uint8 mip) noexcept
 {
diff --git a/include/math/vector/uint.hpp b/include/math/vector/uint.hpp
index cba2dbf..a07773a 100644
--- a/include/math/vector/uint.hpp
+++ b/include/math/vector/uint.hpp
@@ -903,15 +903,15 @@ static constexpr uint4 clamp(uint4 v, uint4 min, uint4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount(uint32 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)size))) + 1u;
+	return (uint8)(std::floor(std::log2((double)size))) + 1u;
 }
 static uint8 calcMipCount(uint2 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(size.x, size.y)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)std::max(size.x, size.y)))) + 1u;
 }
 static uint8 calcMipCount(uint3 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(std::max(size.x, size.y), size.z)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)std::max(std::max(size.x, size.y), size.z)))) + 1u;
 }
 
 static uint32 calcSizeAtMip(uint32 sizeAt0, uint8 mip) noexcept
-- 
2.43.0


From 25281f994ed6e134e51a6569e00a57c2d9be51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 33/41] fix: RGB and XYZ color conversion matrices were
 transposed

---
 include/math/color-space.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/math/color-space.hpp b/include/math/color-space.hpp
index 3086789..b8e57f7 100644
--- a/include/math/color-space.hpp
+++ b/include/math/color-space.hpp
@@ -58,9 +58,9 @@ static f32x4 rgbToXyz(f32x4 rgb) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		0.4124564f, 0.2126729f, 0.0193339f, 0.0f,
-		0.3575761f, 0.7151522f, 0.1191920f, 0.0f,
-		0.1804375f, 0.0721750f, 0.9503041f, 0.0f,
+		0.4124564f, 0.3575761f, 0.1804375f, 0.0f,
+		0.2126729f, 0.7151522f, 0.0721750f, 0.0f,
+		0.0193339f, 0.1191920f, 0.9503041f, 0.0f,
 		0.0f      , 0.0f      , 0.0f      , 0.0f
 	);
 	return multiply3x3(m, rgb);
@@ -73,9 +73,9 @@ static f32x4 xyzToRgb(f32x4 xyz) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		 3.2404542f, -0.9692660f,  0.0556434f, 0.0f,
-		-1.5371385f,  1.8760108f, -0.2040259f, 0.0f,
-		-0.4985314f,  0.0415560f,  1.0572252f, 0.0f,
+		 3.2404542f, -1.5371385f, -0.4985314f, 0.0f,
+		-0.9692660f,  1.8760108f,  0.0415560f, 0.0f,
+		 0.0556434f, -0.2040259f,  1.0572252f, 0.0f,
 		 0.0f      ,  0.0f      ,  0.0f      , 0.0f
 	);
 	return multiply3x3(m, xyz);
-- 
2.43.0


From 1f083ada2cccbc0a5edc1413100e3a8fa7f3095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 34/41] fix: Color setNorm functions truncated the value, so
 getNorm did not round trip

---
 include/math/color.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 1ce9c58..842c8c5 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -147,19 +147,19 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Sets sRGB color normalizer R channel. (Red)
 	 */
-	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer G channel. (Green)
 	 */
-	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer B channel. (Blue)
 	 */
-	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer A channel. (Alpha)
 	 */
-	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f + 0.5f; }
 
 	/*******************************************************************************************************************
 	 * @brief Converts sRGB color to the string. (Space separated)
-- 
2.43.0


From 38801a4a887924aea3854aee92cde74a5b30c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 35/41] fix: Color binary data was accessed through a
 misaligned uint32 pointer

---
 include/math/color.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 842c8c5..3def887 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -53,7 +53,8 @@ struct [[nodiscard]] Color
 	 * @brief Creates a new sRGB color structure from the binary data.
 	 * @param data target binary color data
 	 */
-	constexpr explicit Color(uint32 data) { *(uint32*)this = data; }
+	constexpr explicit Color(uint32 data) noexcept : r(data & UINT8_MAX), g((data >> 8u) & UINT8_MAX), 
+		b((data >> 16u) & UINT8_MAX), a((data >> 24u) & UINT8_MAX) { }
 	/**
 	 * @brief Creates a new sRGB color structure from the hexadecimal string.
 	 * @param[in] hex target hexadecimal color string
@@ -125,7 +126,10 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Returns color binary data.
 	 */
-	constexpr explicit operator uint32() const noexcept { return *(const uint32*)this; }
+	constexpr explicit operator uint32() const noexcept
+	{
+		return ((uint32)a << 24u) | ((uint32)b << 16u) | ((uint32)g << 8u) | (uint32)r;
+	}
 
 	/*******************************************************************************************************************
 	 * @brief Returns sRGB color normalizer R channel. (Red)
@@ -254,7 +258,7 @@ static constexpr bool operator>=(uint8 n, Color c) noexcept { return Color(n) >=
  * @param a first color to binary compare
  * @param b second color to binary compare
  */
-static bool isBinaryLess(Color a, Color b) noexcept { return  *((const uint32*)&a) < *((const uint32*)&b); }
+static bool isBinaryLess(Color a, Color b) noexcept { return (uint32)a < (uint32)b; }
 
 // TODO: color conversion functions.
 
-- 
2.43.0


From 48c630b79c4bd189c813a14146e21b7fdc27d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 36/41] fix: GGX importance sampling was NaN or not a unit
 vector at tiny roughness

---
 include/math/brdf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/brdf.hpp b/include/math/brdf.hpp
index 4559f92..01b4653 100644
--- a/include/math/brdf.hpp
+++ b/include/math/brdf.hpp
@@ -82,7 +82,8 @@ static constexpr float2 hammersley(uint32 index, float invSampleCount) noexcept
 static f32x4 importanceSamplingNdfDggx(float2 u, float a) noexcept
 {
     auto phi = 2.0f * (float)M_PI * u.x;
-    auto cosTheta2 = (1.0f - u.y) / (1.0f + (a + 1.0f) * ((a - 1.0f) * u.y));
+    auto v = 1.0f - u.y;
+    auto cosTheta2 = v / (v + a * a * u.y); // Note: never above 1, even if roughness is tiny.
     auto cosTheta = std::sqrt(cosTheta2);
     auto sinTheta = std::sqrt(1.0f - cosTheta2);
     return f32x4(sinTheta * std::cos(phi), sinTheta * std::sin(phi), cosTheta);
-- 
2.43.0


From 84648b3b7cf3056aa38e44936867fdc7ad257309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 37/41] fix: band 1 spherical harmonics rotation used
 transposed matrices

---
 include/math/sh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 1e5a41b..f274de6 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -140,9 +140,9 @@ static void multiply(const float m[25], const float v[5], float r[5]) noexcept
 //**********************************************************************************************************************
 static float3 rotateSphericalHarmonicBand1(float3 band1, const float3x3& m) noexcept
 {
-	constexpr auto invA1TimesK = float3x3(0.0f, -1.0f, 0.0f, 0.0f, 0.0f, 1.0f, -1.0f, 0.0f, 0.0f);
+	constexpr auto invA1TimesK = float3x3(float3(0.0f, -1.0f, 0.0f), float3(0.0f, 0.0f, 1.0f), float3(-1.0f, 0.0f, 0.0f));
     auto mn0 = m[0], mn1 = m[1], mn2 = m[2];
-	auto r1OverK = float3x3(-mn0.y, mn0.z, -mn0.x, -mn1.y, mn1.z, -mn1.x, -mn2.y, mn2.z, -mn2.x);
+	auto r1OverK = float3x3(float3(-mn0.y, mn0.z, -mn0.x), float3(-mn1.y, mn1.z, -mn1.x), float3(-mn2.y, mn2.z, -mn2.x));
 	return r1OverK * (invA1TimesK * band1);
 }
 static void rotateSphericalHarmonicBand2(const float band2[5], const float3x3& m, float r[5]) noexcept
-- 
2.43.0


From a89e6be16a78f05f9ded68abfa7a13781f532b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 38/41] fix: SH deringing windowed and rotated the coefficients
 of the previous bisection step

---
 include/math/sh.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index f274de6..de9aa19 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -284,13 +284,16 @@ static void deringingSH(f32x4 sh[shCoeffCount]) noexcept
 		for (uint32 i = 0; i < 16 && l + 0.1f < r; i++)
 		{
 			float m = 0.5f * (l + r);
-			windowing(shw, m);
-			if (shmin(shw) < 0.0f)
+			float f[shCoeffCount]; // Note: windowing() and shmin() modify the coefficients.
+			for (uint32 j = 0; j < shCoeffCount; j++)
+				f[j] = shw[j];
+			windowing(f, m);
+			if (shmin(f) < 0.0f)
 				r = m;
 			else
 				l = m;
-			cutoff = std::min(cutoff, l);
 		}
+		cutoff = std::min(cutoff, l);
 	}
 
 	for (int32 l = 0; l < shBandCount; l++)
-- 
2.43.0


From 9767988c504321fa324c0289f8495222df97ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 39/41] fix: SH deringing ignored lights along the vertical
 axis, whose frame was NaN

---
 include/math/sh.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index de9aa19..85bcd98 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -228,9 +228,12 @@ static float shmin(float shw[shCoeffCount]) noexcept
 		(float)( M_SQRT15 / (4.0 * M_SQRT_PI))
 	};
 
-	auto dir = normalize(float3(-shw[3], -shw[1], shw[2]));
+	auto dir = float3(-shw[3], -shw[1], shw[2]);
+	auto dirLength = length(dir);
+	dir = dirLength > 0.0f ? dir / dirLength : float3(0.0f, 0.0f, 1.0f);
 	auto zAxis = -dir;
-	auto xAxis = normalize(cross(zAxis, float3(0.0f, 1.0f, 0.0f)));
+	auto up = std::abs(dir.y) < 0.999f ? float3(0.0f, 1.0f, 0.0f) : float3(1.0f, 0.0f, 0.0f);
+	auto xAxis = normalize(cross(zAxis, up));
 	auto yAxis = cross(xAxis, zAxis);
 	auto m = transpose(float3x3(xAxis, yAxis, -zAxis));
 	rotateSh3Bands(shw, m, shw);
-- 
2.43.0


From aa456a937ced8e350d7de04619546618a3b9a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 40/41] fix: closestPoint(Ray, point) lost the direction of
 rays far from the origin

---
 include/math/ray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index 8a9933d..5d5b0f9 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -109,9 +109,9 @@ inline const Ray Ray::front = Ray(f32x4::zero, f32x4(0.0f, 0.0f, 1.0f, 0.0f), fa
  */
 static f32x4 closestPoint(const Ray& ray, f32x4 point) noexcept
 {
-	auto a = ray.origin, b = ray.origin + ray.getDirection();
-	auto v = b - a; auto t = dot3(point - a, v) / dot3(v, v);
-	return fma(ray.getDirection(), f32x4(std::max(t, 0.0f)), a);
+	auto a = ray.origin, v = ray.getDirection();
+	auto t = dot3(point - a, v) / dot3(v, v);
+	return fma(v, f32x4(std::max(t, 0.0f)), a);
 }
 
 } // namespace math
\ No newline at end of file
-- 
2.43.0


From ff90af643510c868115429197100b31927ee550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 41/41] fix: mask tests of SIMD uint vectors looked at some of
 the bits only on SSE

---
 include/math/simd/vector/uint.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index b2a2b64..f129aba 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -656,8 +656,10 @@ static int getTrues(u32x4 v) noexcept
  */
 static bool areAllTrue(u32x4 v) noexcept
 {
-	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) == 0xFFFF;
+	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
+	return _mm_test_all_ones(v.data);
+	#elif defined(MATH_SIMD_SUPPORT_SSE)
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(0xFFFFFFFF))) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) == 0xFFFFFFFFu;
 	#else
@@ -672,7 +674,7 @@ static bool areAllFalse(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return _mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return !_mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return !vmaxvq_u32(v.data);
 	#else
@@ -687,7 +689,7 @@ static bool areAnyTrue(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return !_mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxvq_u32(v.data);
 	#else
@@ -699,8 +701,10 @@ static bool areAnyTrue(u32x4 v) noexcept
  */
 static bool areAnyFalse(u32x4 v) noexcept
 {
-	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) != 0xFFFF;
+	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
+	return !_mm_test_all_ones(v.data);
+	#elif defined(MATH_SIMD_SUPPORT_SSE)
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(0xFFFFFFFF))) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) != 0xFFFFFFFFu;
 	#else
-- 
2.43.0

