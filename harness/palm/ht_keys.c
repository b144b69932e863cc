/* Predefined key kinds: two keys denote the same entry exactly when their content
 * (string text / int value / pointer identity) is equal. KIND 0 string, 1 int, 2 pointer. */
#include <string.h>
#include "vf.h"
#include "palm/hash_table.h"
#ifndef KIND
#define KIND 0
#endif
#ifndef SIZE
#define SIZE 2
#endif
#ifndef SLEN
#define SLEN 3
#endif
#if KIND == 0
static char K1[SLEN], K2[SLEN], K3[SLEN];
#define NEW HTnew_String
static void *mk(char *b) { vf_fill_str(b, SLEN); return b; }
static bool same(char *a, char *b)
{
    for (int i = 0; i < SLEN; i++) {
        if (a[i] != b[i]) return false;
        if (a[i] == 0) return true;
    }
    return true;
}
#define SAME(a, b) same((char *)a, (char *)b)
#define ARG(n) K##n
#elif KIND == 1
static int K1, K2, K3;
#define NEW HTnew_Int
static void *mk(int *p) { *p = vf_int(); return p; }
#define SAME(a, b) (*(int *)a == *(int *)b)
#define ARG(n) &K##n
#else
static char K1[96];
#define NEW HTnew_Ptr
static void *mk(void *p) { (void)p; return K1 + vf_range(0, 95); }
#define SAME(a, b) ((a) == (b))
#define ARG(n) 0
#endif

void harness(void)
{
    void *a = mk(ARG(1)), *b = mk(ARG(2)), *c = mk(ARG(3));
    void *va = (void *)(uintptr_t)vf_u64(), *vb = (void *)(uintptr_t)vf_u64();
    htable_st *t = NEW(SIZE);
    HTinsert(t, a, va);
    HTinsert(t, b, vb);
    bool ab = SAME(a, b), ca = SAME(c, a), cb = SAME(c, b);
    void *want = cb ? vb : ca ? va : NULL;
    vf_assert(HTelementCount(t) == (ab ? 1u : 2u), "equal keys share one entry, different keys do not");
    vf_assert(HTlookup(t, c) == want, "lookup finds the latest value stored under an equal key");
    vf_assert(HTremove(t, c) == want, "remove returns the latest value stored under an equal key");
    vf_assert(HTlookup(t, c) == NULL, "a removed key is gone");
    vf_assert(HTlookup(t, a) == (ca ? NULL : ab ? vb : va), "removing a key leaves the others");
    HTclear(t);
    vf_assert(HTelementCount(t) == 0 && HTlookup(t, b) == NULL, "a cleared table is empty");
    HTdelete(t);
    vf_reach();
}
