/* CBMC-only: compile with -Dmalloc=vf_malloc. Allocation by case split on the (small) size, so every
 * object has a concrete size (the array theory for symbolic sizes is what explodes). Semantically
 * malloc; see the end for larger sizes. */
#include <stddef.h>
#include <stdlib.h>
#undef malloc
extern void *malloc(size_t);
#ifndef SPLIT_MAX
#define SPLIT_MAX 16
#endif
void *vf_malloc(size_t n)
{
    for (size_t k = 0; k <= SPLIT_MAX; k++) {
        if (n == k) {
            return malloc(k);
        }
    }
    /* a larger request gets a fixed larger object; an absurd one (wrapped size) is reported */
    __CPROVER_assert(n <= 256, "allocation size out of the model's range");
    __CPROVER_assume(n <= 256);
    return malloc(256);
}
