/* Memory wrappers under allocation failure. malloc/realloc/free/exit of the real code are renamed to
 * the vf_ versions below (both in the encoding and natively). */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#undef malloc
#undef realloc
#undef free
#undef exit
extern void *malloc(size_t);
extern void free(void *);
#include "vf.h"
#ifdef VF_CBMC
#define STOP() __CPROVER_assume(0)
#else
extern void _Exit(int);
#define STOP() _Exit(0)
#endif
extern void *MEMmalloc(size_t);
extern void *MEMrealloc(void *, size_t);
extern void *MEMfree(void *);
extern void *MEMcopy(size_t, void *);
extern int CTIgetErrors(void);
static int failed, live, freed;
static bool may_fail;
#ifndef N
#define N 4
#endif
static void *get(size_t n)
{
    for (size_t k = 0; k <= N; k++) {
        if (n == k) return malloc(k);
    }
    vf_assert(0, "the wrapper asks for the requested size");
    return NULL;
}
void *vf_malloc(size_t n)
{
    vf_assert(n > 0, "no zero-sized request");
    if (may_fail && vf_bool()) { failed++; return NULL; }
    live++;
    return get(n);
}
void vf_free(void *p)
{
    if (p) { live--; freed++; }
    free(p);
}
static size_t old_n;
void *vf_realloc(void *p, size_t n)
{
    vf_assert(p != NULL && n > 0, "resizing an existing block to a non-zero size");
    if (may_fail && vf_bool()) { failed++; return NULL; }
    char *q = get(n);
    for (size_t i = 0; i < N; i++) {
        if (i < n && i < old_n) q[i] = ((char *)p)[i];
    }
    free(p);
    return q;
}
void *vf_calloc(size_t a, size_t b) { return vf_malloc(a * b); }
void vf_exit(int code)
{
    vf_assert(failed > 0, "the process ends only because an allocation failed");
    vf_assert(code != 0, "out of memory ends the process with a failure status");
    vf_assert(CTIgetErrors() == 1, "out of memory is counted as an error");
    STOP();
}

void harness(void)
{
    may_fail = vf_bool();
    size_t n = (size_t)vf_range(0, N), m = (size_t)vf_range(0, N);
    char *p = MEMmalloc(n);
    vf_assert(failed == 0, "a failed allocation never returns to the caller");
    vf_assert((p == NULL) == (n == 0), "NULL is returned for a zero size only");
    char v[N];
    for (size_t i = 0; i < N; i++) {
        v[i] = (char)vf_u64();
        if (i < n) p[i] = v[i];
    }
    old_n = n;
    if (n > 0) {
        char *c = MEMcopy(n, p);
        vf_assert(failed == 0, "a failed allocation never returns to the caller");
        vf_assert(c != p, "a copy is fresh memory");
        for (size_t i = 0; i < N; i++) {
            if (i < n) vf_assert(c[i] == v[i] && p[i] == v[i], "a copy has the source's bytes");
        }
        vf_assert(MEMfree(c) == NULL, "freeing returns NULL");
    }
    vf_assert(live == (n > 0), "live blocks");
    char *r = MEMrealloc(p, m);
    vf_assert(failed == 0, "a failed reallocation never returns to the caller");
    vf_assert((r == NULL) == (m == 0), "NULL is returned for a zero size only");
    vf_assert(live == (m > 0), "resizing to zero releases the block, otherwise one block remains");
    for (size_t i = 0; i < N; i++) {
        if (i < n && i < m) vf_assert(r[i] == v[i], "resizing keeps the common prefix");
    }
    vf_assert(MEMfree(r) == NULL, "freeing returns NULL");
    vf_assert(MEMfree(NULL) == NULL, "freeing NULL is harmless");
    vf_assert(live == 0, "everything is released");
    vf_reach();
}
