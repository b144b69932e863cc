/* Common harness vocabulary: the same harness source is (1) compiled by goto-cc and decided by
 * CBMC, where every vf_* draw is a fresh symbolic value, and (2) compiled by gcc with sanitizers
 * to replay the solver's counterexample, where the draws come from a file of recorded values. */
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#ifdef VF_CBMC
unsigned long nondet_ulong(void);
extern unsigned long vf_last;
#define vf_assume(c) __CPROVER_assume(c)
#define vf_assert(c, msg) __CPROVER_assert((c), "VF: " msg)
#define vf_reach() __CPROVER_assert(0, "vf_reach")
static inline unsigned long vf_u64(void)
{
    unsigned long v = nondet_ulong();
    vf_last = v;
    return v;
}
#else
unsigned long vf_u64(void);
void vf_assume_(int c);
void vf_assert_(int c, const char *msg, const char *file, int line);
#define vf_assume(c) vf_assume_(!!(c))
#define vf_assert(c, msg) vf_assert_(!!(c), msg, __FILE__, __LINE__)
#define vf_reach() ((void)0)
#endif

static inline int vf_int(void) { return (int)vf_u64(); }
static inline bool vf_bool(void) { return (bool)(vf_u64() & 1u); }
static inline unsigned char vf_u8(void) { return (unsigned char)vf_u64(); }
static inline long vf_range(long lo, long hi)
{
    long v = (long)vf_u64();
    vf_assume(v >= lo && v <= hi);
    return v;
}
/* NUL-terminated string of length <= cap-1 in a caller's buffer of cap bytes, every byte symbolic */
static inline void vf_fill_str(char *buf, int cap)
{
    for (int i = 0; i < cap - 1; i++) {
        buf[i] = (char)vf_u64();
    }
    buf[cap - 1] = '\0';
}

void harness(void);
#endif
