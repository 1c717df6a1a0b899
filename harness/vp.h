// Harness interface.  In the symbolic build vpsym implements these calls; in the native
// (replay) build runtime/vp_native.c does, reading the recorded inputs from a tape file.
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

uint64_t vp_input(int bits);                      // a new unconstrained input
void vp_assume_sym(int c);
void vp_check_sym(int c, const char* msg);        // the property
void vp_reach_sym(const char* msg);               // non-vacuity marker: must be reached
void vp_out_sym(uint64_t v);                      // observed value (engine/native cross-check)
uint64_t vp_concretize(uint64_t v);               // one path per feasible value
void vp_fail_limit(const char* msg);              // outside the modelled bound
uint64_t vp_arg(int i);                           // harness parameter
uint64_t vp_heap_live(void);                      // live heap blocks
extern long vp_malloc_fail_at;                    // >0: that many allocations from now, one fails

#define VP_ASSUME(c) vp_assume_sym((c) ? 1 : 0)
#define VP_CHECK(c, msg) vp_check_sym((c) ? 1 : 0, msg)
#define VP_REACH(msg) vp_reach_sym(msg)
#define VP_OUT(v) vp_out_sym((uint64_t)(v))

static inline uint64_t vp_u64(void) { return vp_input(64); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_input(32); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_input(16); }
static inline uint8_t vp_u8(void) { return (uint8_t)vp_input(8); }
static inline int vp_bool(void) { return (int)vp_input(1); }
static inline float vp_float(void) { union { uint32_t u; float f; } x; x.u = vp_u32(); return x.f; }
static inline double vp_double(void) { union { uint64_t u; double f; } x; x.u = vp_u64(); return x.f; }
// a value in [0, n), still symbolic
static inline uint32_t vp_below(uint32_t n) { uint32_t v = vp_u32(); VP_ASSUME(v < n); return v; }
static inline uint32_t vp_range(uint32_t lo, uint32_t hi) { uint32_t v = vp_u32(); VP_ASSUME(v >= lo && v <= hi); return v; }
// a value in [0, n), one path per value
static inline uint32_t vp_choice(uint32_t n) { return (uint32_t)vp_concretize(vp_below(n)); }
#endif
