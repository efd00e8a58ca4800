/*
 * Harness interface, two modes:
 *   symbolic (cbmc):   every ND() is a fresh symbolic value, CHECK is an assertion
 *   native (VF_NATIVE): ND() reads the next value of a solver counterexample,
 *                       CHECK aborts; used only to replay a counterexample
 *                       against the same real code built with gcc + ASAN.
 */
#ifndef VF_H
#define VF_H

#include <stdint.h>
#include <stddef.h>

typedef unsigned long long vf_u64;

#ifdef VF_NATIVE

#include <stdio.h>
#include <stdlib.h>

static inline vf_u64
vf_next(void)
{
    static FILE *f;
    vf_u64       v;

    if (f == NULL) {
        const char *n = getenv("VF_INPUT");
        f = fopen(n ? n : "/dev/null", "r");
        if (f == NULL) {
            exit(78);
        }
    }

    if (fscanf(f, "%llu", &v) != 1) {
        return 0;
    }

    return v;
}

#define ND8()    ((uint8_t) vf_next())
#define ND16()   ((uint16_t) vf_next())
#define ND32()   ((uint32_t) vf_next())
#define ND64()   ((uint64_t) vf_next())
#define ASSUME(c)  do { if (!(c)) {                                         \
        fprintf(stderr, "VF-ASSUME %s:%d %s\n", __FILE__, __LINE__, #c);    \
        _Exit(77); } } while (0)
#define CHECK(c, msg)  do { if (!(c)) {                                     \
        fprintf(stderr, "VF-FAIL %s (%s:%d)\n", msg, __FILE__, __LINE__);   \
        _Exit(76); } } while (0)
#define REACH(msg)  do { } while (0)
#define VF_WITNESS 0

#else

extern volatile vf_u64 vf_nd_log;
volatile vf_u64 vf_nd_log;
uint8_t  nondet_vf_u8(void);
uint16_t nondet_vf_u16(void);
uint32_t nondet_vf_u32(void);
uint64_t nondet_vf_u64(void);

static inline uint8_t  ND8(void)  { uint8_t  v = nondet_vf_u8();  vf_nd_log = v; return v; }
static inline uint16_t ND16(void) { uint16_t v = nondet_vf_u16(); vf_nd_log = v; return v; }
static inline uint32_t ND32(void) { uint32_t v = nondet_vf_u32(); vf_nd_log = v; return v; }
static inline uint64_t ND64(void) { uint64_t v = nondet_vf_u64(); vf_nd_log = v; return v; }

#define ASSUME(c)      __CPROVER_assume(c)
#define CHECK(c, msg)  __CPROVER_assert((c), "VF: " msg)
/* must come back violated: shows the harness gets here */
#define REACH(msg)     __CPROVER_assert(0, "REACH: " msg)

#endif

/* a check after whose failure the execution is not followed */
#define MUST(c, msg)  do { int vf_must_ = (c) ? 1 : 0; CHECK(vf_must_, msg); ASSUME(vf_must_); } while (0)

/* a value in [lo, hi] */
static inline vf_u64
ND_RANGE(vf_u64 lo, vf_u64 hi)
{
    vf_u64 v = ND32();
    ASSUME(v >= lo && v <= hi);
    return v;
}

/* run body(k) for one k in [lo, hi], k a constant inside body: sizes that
 * depend on k stay constant, so bounds checks are exact and cheap */
#define EACH_LEN(lo, hi, body)  do {                                        \
        vf_u64 vf_sel_ = ND_RANGE(lo, hi), vf_k_;                            \
        for (vf_k_ = (lo); vf_k_ <= (hi); vf_k_++) {                         \
            if (vf_sel_ == vf_k_) { body(vf_k_); }                           \
        } } while (0)

static inline int
ND_BOOL(void)
{
    uint8_t v = ND8();
    ASSUME(v <= 1);
    return v;
}

static inline void
ND_BYTES(unsigned char *p, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        p[i] = ND8();
    }
}

#endif
