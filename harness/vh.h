/* Common vocabulary of all harnesses: the same harness source is (a) encoded by CBMC, where every
 * in_*() is a symbolic variable, and (b) compiled natively, where every in_*() reads the next value
 * of a recorded counterexample/witness, to replay what the solver found against the real code. */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VH_CBMC
/* ------------------------------------------------------------------ symbolic */
uint8_t  nondet_vh_u8(void);
uint16_t nondet_vh_u16(void);
uint32_t nondet_vh_u32(void);
uint64_t nondet_vh_u64(void);
static inline uint8_t  in_u8(void)  { uint8_t  v = nondet_vh_u8();  __CPROVER_input("u8", v);  return v; }
static inline uint16_t in_u16(void) { uint16_t v = nondet_vh_u16(); __CPROVER_input("u16", v); return v; }
static inline uint32_t in_u32(void) { uint32_t v = nondet_vh_u32(); __CPROVER_input("u32", v); return v; }
static inline uint64_t in_u64(void) { uint64_t v = nondet_vh_u64(); __CPROVER_input("u64", v); return v; }
#define ASSUME(c)     __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "CHECK " msg)
#ifdef VH_NOREACH
#define REACH(label) ((void)0)
#else
#define REACH(label) __CPROVER_assert(0, "REACH " label)
#endif
/* constants of the case split: one query per value */
#define P(i) VH_P##i
#define VH_DIE(msg) do { __CPROVER_assert(0, "CHECK " msg); __CPROVER_assume(0); } while (0)
#else
/* ------------------------------------------------------------------ native replay */
uint64_t vh_next(const char *kind);
void     vh_assume(int c, const char *text);
void     vh_check(int c, const char *msg);
void     vh_reach(const char *label);
long     vh_param(int i);
static inline uint8_t  in_u8(void)  { return (uint8_t)vh_next("u8"); }
static inline uint16_t in_u16(void) { return (uint16_t)vh_next("u16"); }
static inline uint32_t in_u32(void) { return (uint32_t)vh_next("u32"); }
static inline uint64_t in_u64(void) { return vh_next("u64"); }
#define ASSUME(c)     vh_assume(!!(c), #c)
#define CHECK(c, msg) vh_check(!!(c), msg)
#define REACH(label)  vh_reach(label)
#define P(i)          ((int)vh_param(i))
#define VH_DIE(msg)   vh_check(0, msg)
#endif

static inline int8_t  in_i8(void)  { return (int8_t)in_u8(); }
static inline int16_t in_i16(void) { return (int16_t)in_u16(); }
static inline int32_t in_i32(void) { return (int32_t)in_u32(); }
static inline int64_t in_i64(void) { return (int64_t)in_u64(); }
static inline int     in_int(void) { return (int)in_u32(); }
static inline size_t  in_size(void) { return (size_t)in_u64(); }
static inline int     in_bool(void) { uint8_t b = in_u8(); ASSUME(b <= 1); return b; }
static inline float   in_f32(void) { union { uint32_t u; float f; } x; x.u = in_u32(); return x.f; }
static inline double  in_f64(void) { union { uint64_t u; double f; } x; x.u = in_u64(); return x.f; }
/* a value in [lo, hi] */
static inline size_t  in_range(size_t lo, size_t hi) { size_t v = in_size(); ASSUME(v >= lo && v <= hi); return v; }
static inline int in_irange(int lo, int hi) { int v = in_int(); ASSUME(v >= lo && v <= hi); return v; }

#define IMPLIES(a, b) (!(a) || (b))
#define LEN(a) (sizeof(a) / sizeof((a)[0]))


#endif
