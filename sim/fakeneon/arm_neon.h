// Stand-in for <arm_neon.h> so that the NEON branch of the library can run on
// this machine: the names it uses (and their usual neighbours), with the
// lane-wise meaning they have on ARM.
#pragma once
#include <string.h>
typedef float float32_t;
typedef float float32x4_t __attribute__ ((__vector_size__ (16), __may_alias__));
typedef float float32x2_t __attribute__ ((__vector_size__ (8), __may_alias__));
#define FN_ static inline __attribute__((always_inline, unused))
FN_ float32x4_t vmulq_f32 (float32x4_t a, float32x4_t b) { return a * b; }
FN_ float32x4_t vaddq_f32 (float32x4_t a, float32x4_t b) { return a + b; }
FN_ float32x4_t vsubq_f32 (float32x4_t a, float32x4_t b) { return a - b; }
FN_ float32x4_t vnegq_f32 (float32x4_t a) { return -a; }
FN_ float32x4_t vdupq_n_f32 (float a) { float32x4_t v = { a, a, a, a }; return v; }
FN_ float32x4_t vmovq_n_f32 (float a) { return vdupq_n_f32 (a); }
FN_ float32x4_t vmulq_n_f32 (float32x4_t a, float b) { return a * b; }
FN_ float32x4_t vmlaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
FN_ float32x4_t vmlsq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a - b * c; }
FN_ float32x4_t vfmaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c)
{ for (int i = 0; i < 4; i++) a[i] = __builtin_fmaf (b[i], c[i], a[i]); return a; }
FN_ float32x4_t vld1q_f32 (const float *p) { float32x4_t v; memcpy (&v, p, 16); return v; }
FN_ void vst1q_f32 (float *p, float32x4_t v) { memcpy (p, &v, 16); }
FN_ float32x4_t vld1q_dup_f32 (const float *p) { return vdupq_n_f32 (*p); }
FN_ float vaddvq_f32 (float32x4_t v) { return (v[0] + v[1]) + (v[2] + v[3]); }
FN_ float32x2_t vget_low_f32 (float32x4_t v) { float32x2_t r = { v[0], v[1] }; return r; }
FN_ float32x2_t vget_high_f32 (float32x4_t v) { float32x2_t r = { v[2], v[3] }; return r; }
FN_ float32x2_t vadd_f32 (float32x2_t a, float32x2_t b) { return a + b; }
FN_ float32x2_t vpadd_f32 (float32x2_t a, float32x2_t b) { float32x2_t r = { a[0] + a[1], b[0] + b[1] }; return r; }
FN_ float32x4_t vcombine_f32 (float32x2_t a, float32x2_t b) { float32x4_t r = { a[0], a[1], b[0], b[1] }; return r; }
FN_ float32x4_t vpaddq_f32 (float32x4_t a, float32x4_t b) { float32x4_t r = { a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3] }; return r; }
FN_ float32x4_t vrev64q_f32 (float32x4_t a) { float32x4_t r = { a[1], a[0], a[3], a[2] }; return r; }
FN_ float32x4_t vmaxq_f32 (float32x4_t a, float32x4_t b) { for (int i = 0; i < 4; i++) a[i] = a[i] > b[i] ? a[i] : b[i]; return a; }
FN_ float32x4_t vminq_f32 (float32x4_t a, float32x4_t b) { for (int i = 0; i < 4; i++) a[i] = a[i] < b[i] ? a[i] : b[i]; return a; }
FN_ float32x4_t vabsq_f32 (float32x4_t a) { for (int i = 0; i < 4; i++) a[i] = __builtin_fabsf (a[i]); return a; }
FN_ float32x4_t vfmsq_f32 (float32x4_t a, float32x4_t b, float32x4_t c)
{ for (int i = 0; i < 4; i++) a[i] = __builtin_fmaf (-b[i], c[i], a[i]); return a; }
FN_ float32x4_t vmlaq_n_f32 (float32x4_t a, float32x4_t b, float c) { return a + b * c; }
FN_ float32x4_t vfmaq_n_f32 (float32x4_t a, float32x4_t b, float c) { return vfmaq_f32 (a, b, vdupq_n_f32 (c)); }
FN_ float32x2_t vdup_n_f32 (float a) { float32x2_t r = { a, a }; return r; }
FN_ float32x2_t vmul_f32 (float32x2_t a, float32x2_t b) { return a * b; }
FN_ float32x2_t vld1_f32 (const float *p) { float32x2_t v; memcpy (&v, p, 8); return v; }
FN_ void vst1_f32 (float *p, float32x2_t v) { memcpy (p, &v, 8); }
typedef struct { float32x4_t val[2]; } float32x4x2_t;
FN_ float32x4x2_t vld2q_f32 (const float *p) { float32x4x2_t r; for (int i = 0; i < 4; i++) { r.val[0][i] = p[2 * i]; r.val[1][i] = p[2 * i + 1]; } return r; }
FN_ void vst2q_f32 (float *p, float32x4x2_t v) { for (int i = 0; i < 4; i++) { p[2 * i] = v.val[0][i]; p[2 * i + 1] = v.val[1][i]; } }
FN_ float32x4x2_t vuzpq_f32 (float32x4_t a, float32x4_t b) { float32x4x2_t r = { { { a[0], a[2], b[0], b[2] }, { a[1], a[3], b[1], b[3] } } }; return r; }
FN_ float32x4x2_t vzipq_f32 (float32x4_t a, float32x4_t b) { float32x4x2_t r = { { { a[0], b[0], a[1], b[1] }, { a[2], b[2], a[3], b[3] } } }; return r; }
#define vdupq_laneq_f32(v, l) vdupq_n_f32 ((v)[l])
#define vdupq_lane_f32(v, l) vdupq_n_f32 ((v)[l])
#define vmulq_laneq_f32(a, v, l) ((a) * (v)[l])
#define vmulq_lane_f32(a, v, l) ((a) * (v)[l])
#define vfmaq_laneq_f32(a, b, v, l) vfmaq_n_f32 (a, b, (v)[l])
#define vfmaq_lane_f32(a, b, v, l) vfmaq_n_f32 (a, b, (v)[l])
#define vmlaq_laneq_f32(a, b, v, l) vmlaq_n_f32 (a, b, (v)[l])
#define vmlaq_lane_f32(a, b, v, l) vmlaq_n_f32 (a, b, (v)[l])
#define vsetq_lane_f32(f, v, l) ({ float32x4_t v_ = (v); v_[l] = (f); v_; })
#define vextq_f32(a, b, n) ({ float32x4_t a_ = (a), b_ = (b), r_; for (int i_ = 0; i_ < 4; i_++) r_[i_] = i_ + (n) < 4 ? a_[i_ + (n)] : b_[i_ + (n) - 4]; r_; })
#define vgetq_lane_f32(v, l) ((v)[l])
#define vget_lane_f32(v, l) ((v)[l])
#undef FN_
