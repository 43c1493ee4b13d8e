// Specification interface of the contracts in /verif/contracts.
// The same text is (a) compiled to LLVM IR with the real aqsis sources and discharged by
// the deductive engine for all inputs, and (b) compiled natively to replay counterexamples.
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
extern "C" {
int8_t vp_i8(const char*); uint8_t vp_u8(const char*);
int16_t vp_i16(const char*); uint16_t vp_u16(const char*);
int32_t vp_i32(const char*); uint32_t vp_u32(const char*);
int64_t vp_i64(const char*); uint64_t vp_u64(const char*);
bool vp_bool(const char*);
float vp_f32(const char*); double vp_f64(const char*);
int32_t vp_range(const char*, int32_t lo, int32_t hi);      // lo <= x <= hi
float vp_f32_in(const char*, float lo, float hi);
float vp_f32_near(const char*, float lo, float hi); // any float; random native runs draw mostly from lo..hi
double vp_f64_in(const char*, double lo, double hi);
int32_t vp_pick(const char*, int32_t n);                    // enumerated case split 0..n-1
int64_t vp_concretize(int64_t v, int32_t max);              // case split on all feasible values
void vp_assume(bool);                                       // requires
void vp_assert(bool, const char* label);                    // ensures
void vp_cut();                                               // prove the rest from later assumptions only (weakens the hypotheses)
void vp_reach(const char* label);                           // must be reachable (vacuity guard)
int vp_is_symbolic();
bool vp_close(double a, double b, double tol);              // equality over the reals; native: relative tolerance
}
// Unsigned pointer-free equality helpers
template<class T> inline bool vp_same(const T& a, const T& b){ return a==b; }
inline uint32_t vp_bits(float f){ uint32_t u; __builtin_memcpy(&u,&f,4); return u; }
inline uint64_t vp_bits(double f){ uint64_t u; __builtin_memcpy(&u,&f,8); return u; }
inline bool vp_finite(float f){ return f==f && f-f==0; }
#endif
