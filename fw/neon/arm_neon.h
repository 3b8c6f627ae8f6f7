// The NEON intrinsics cfnptr/math uses, in portable GNU vector code with the semantics of Arm's documentation (A64), so that the library's
// NEON implementation can be run on this machine. Types are distinct as on Arm: mixing signed and unsigned vectors does not compile
// (the configuration is built with -fno-lax-vector-conversions). Multiply-accumulate rounds twice, as vmla does in compilers that do not contract.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
typedef float float32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
struct float32x4x2_t { float32x4_t val[2]; };
#define NEON_F static inline
template<class To, class From> NEON_F To neonBits(From v) { To r; memcpy(&r, &v, sizeof r); return r; }
// float
NEON_F float32x4_t vdupq_n_f32(float v) { return float32x4_t{ v, v, v, v }; }
NEON_F float32x2_t vdup_n_f32(float v) { return float32x2_t{ v, v }; }
#define vdupq_laneq_f32(v, i) vdupq_n_f32((v)[i])
NEON_F float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
NEON_F float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
NEON_F float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
NEON_F float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * vdupq_n_f32(b); }
NEON_F float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
NEON_F float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
NEON_F float32x4_t vnegq_f32(float32x4_t a) { return neonBits<float32x4_t>(neonBits<uint32x4_t>(a) ^ 0x80000000u); }
NEON_F float32x4_t vabsq_f32(float32x4_t a) { return neonBits<float32x4_t>(neonBits<uint32x4_t>(a) & 0x7fffffffu); }
#define NEON_EACH(NAME, E) NEON_F float32x4_t NAME(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) { float x = a[i]; r[i] = E; } return r; }
NEON_EACH(vsqrtq_f32, std::sqrt(x))
NEON_EACH(vrndq_f32, std::trunc(x))
NEON_EACH(vrndpq_f32, std::ceil(x))
NEON_EACH(vrndmq_f32, std::floor(x))
NEON_EACH(vrndnq_f32, std::nearbyint(x))
NEON_F float32x2_t vsqrt_f32(float32x2_t a) { return float32x2_t{ std::sqrt(a[0]), std::sqrt(a[1]) }; }
// FMIN and FMAX: a NaN operand gives a NaN, and -0 is less than +0
NEON_F float neonMin(float a, float b) { return a != a || b != b ? __builtin_nanf("") : a == b ? (std::signbit(a) ? a : b) : a < b ? a : b; }
NEON_F float neonMax(float a, float b) { return a != a || b != b ? __builtin_nanf("") : a == b ? (std::signbit(a) ? b : a) : a > b ? a : b; }
NEON_F float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = neonMin(a[i], b[i]); return r; }
NEON_F float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = neonMax(a[i], b[i]); return r; }
NEON_F float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
NEON_F float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { return { { float32x4_t{ a[0], b[0], a[1], b[1] }, float32x4_t{ a[2], b[2], a[3], b[3] } } }; }
#define vgetq_lane_f32(v, i) ((float)(v)[i])
#define vgetq_lane_s32(v, i) ((int32_t)(v)[i])
#define vgetq_lane_u32(v, i) ((uint32_t)(v)[i])
#define vget_lane_f32(v, i) ((float)(v)[i])
NEON_F float32x4_t vsetq_lane_f32(float x, float32x4_t v, int i) { v[i] = x; return v; }
NEON_F int32x4_t vsetq_lane_s32(int32_t x, int32x4_t v, int i) { v[i] = x; return v; }
NEON_F uint32x4_t vsetq_lane_u32(uint32_t x, uint32x4_t v, int i) { v[i] = x; return v; }
// int and uint
NEON_F int32x4_t vdupq_n_s32(int32_t v) { return int32x4_t{ v, v, v, v }; }
NEON_F uint32x4_t vdupq_n_u32(uint32_t v) { return uint32x4_t{ v, v, v, v }; }
#define NEON_INT(T, S) \
	NEON_F T vaddq_##S(T a, T b) { return (T)((uint32x4_t)a + (uint32x4_t)b); } NEON_F T vsubq_##S(T a, T b) { return (T)((uint32x4_t)a - (uint32x4_t)b); } NEON_F T vmulq_##S(T a, T b) { return (T)((uint32x4_t)a * (uint32x4_t)b); } \
	NEON_F T vandq_##S(T a, T b) { return a & b; } NEON_F T vorrq_##S(T a, T b) { return a | b; } NEON_F T veorq_##S(T a, T b) { return a ^ b; } NEON_F T vmvnq_##S(T a) { return ~a; } NEON_F T vbicq_##S(T a, T b) { return a & ~b; } \
	NEON_F T vminq_##S(T a, T b) { T r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; } NEON_F T vmaxq_##S(T a, T b) { T r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; } \
	NEON_F T vbslq_##S(uint32x4_t m, T a, T b) { return (T)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); } \
	/* SSHL, USHL: the shift is the signed low byte of the lane, a negative one shifts right */ \
	NEON_F T vshlq_##S(T a, int32x4_t b) { T r; for (int i = 0; i < 4; i++) { int k = (int8_t)b[i]; r[i] = k >= 0 ? k >= 32 ? 0 : (decltype(a[i] + 0))((uint32_t)a[i] << k) : a[i] >> (-k >= 32 ? 31 : -k); if (k <= -32 && (decltype(a[i] + 0))-1 > 0) r[i] = 0; } return r; }
NEON_INT(int32x4_t, s32)
NEON_INT(uint32x4_t, u32)
NEON_F int32x4_t vnegq_s32(int32x4_t a) { return (int32x4_t)(0u - (uint32x4_t)a); }
NEON_F int32x4_t vshrq_n_s32(int32x4_t a, int n) { return a >> n; }
NEON_F uint32x4_t vshrq_n_u32(uint32x4_t a, int n) { return a >> n; }
NEON_F uint32_t vminvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
NEON_F uint32_t vmaxvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
NEON_F uint32_t vaddvq_u32(uint32x4_t a) { return a[0] + a[1] + a[2] + a[3]; }
NEON_F float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return neonBits<float32x4_t>((m & neonBits<uint32x4_t>(a)) | (~m & neonBits<uint32x4_t>(b))); }
// comparisons
#define NEON_CMP(NAME, OP) NEON_F uint32x4_t NAME##_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a OP b); } NEON_F uint32x4_t NAME##_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a OP b); } NEON_F uint32x4_t NAME##_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a OP b); }
NEON_CMP(vceqq, ==)
NEON_CMP(vcltq, <)
NEON_CMP(vcleq, <=)
NEON_CMP(vcgtq, >)
NEON_CMP(vcgeq, >=)
// conversions: toward zero, saturating, NaN to 0
NEON_F int32x4_t vcvtq_s32_f32(float32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] != a[i] ? 0 : a[i] >= 2147483648.0f ? INT32_MAX : a[i] <= -2147483648.0f ? INT32_MIN : (int32_t)a[i]; return r; }
NEON_F uint32x4_t vcvtq_u32_f32(float32x4_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] != a[i] || a[i] <= 0 ? 0 : a[i] >= 4294967296.0f ? UINT32_MAX : (uint32_t)a[i]; return r; }
NEON_F float32x4_t vcvtq_f32_s32(int32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (float)a[i]; return r; }
NEON_F float32x4_t vcvtq_f32_u32(uint32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (float)a[i]; return r; }
NEON_F int32x4_t vreinterpretq_s32_u32(uint32x4_t a) { return (int32x4_t)a; }
NEON_F uint32x4_t vreinterpretq_u32_s32(int32x4_t a) { return (uint32x4_t)a; }
NEON_F uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return neonBits<uint32x4_t>(a); }
NEON_F int32x4_t vreinterpretq_s32_f32(float32x4_t a) { return neonBits<int32x4_t>(a); }
NEON_F float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return neonBits<float32x4_t>(a); }
NEON_F float32x4_t vreinterpretq_f32_s32(int32x4_t a) { return neonBits<float32x4_t>(a); }
// loads and stores, at any address
#define NEON_MEM(T, E, S) NEON_F T vld1q_##S(const E* p) { T r; memcpy(&r, p, 16); return r; } NEON_F void vst1q_##S(E* p, T v) { memcpy(p, &v, 16); }
NEON_MEM(float32x4_t, float, f32)
NEON_MEM(int32x4_t, int32_t, s32)
NEON_MEM(uint32x4_t, uint32_t, u32)
