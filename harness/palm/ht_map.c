/* A hash table is a finite map: any STEPS operations, keys under an arbitrary consistent hash. */
#include "vf.h"
#include "palm/hash_table.h"
#ifndef NKEYS
#define NKEYS 3
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef SIZE
#define SIZE 2
#endif
struct key { int id; };
/* any 64-bit hash for power-of-two tables; 0..31 otherwise (keeps the modulo cheap) */
#if (SIZE & (SIZE - 1)) == 0
#define HASHVAL vf_u64()
#else
#define HASHVAL ((size_t)(vf_u64() & 31u))
#endif
static size_t H[NKEYS];
static struct key KA[NKEYS], KB[NKEYS];
static size_t kh(void *k) { return H[((struct key *)k)->id]; }
static bool keq(void *a, void *b) { return ((struct key *)a)->id == ((struct key *)b)->id; }

void harness(void)
{
    bool present[NKEYS];
    void *val[NKEYS];
    size_t count = 0;
    for (int i = 0; i < NKEYS; i++) {
        H[i] = HASHVAL;
        KA[i].id = KB[i].id = i;
        present[i] = false;
        val[i] = NULL;
    }
    htable_st *t = HTnew(SIZE, kh, keq);
    vf_assert(HTelementCount(t) == 0, "a new table is empty");
    for (int s = 0; s < STEPS; s++) {
        int op = (int)vf_range(0, 3);
        int k = (int)vf_range(0, NKEYS - 1);
        void *v = (void *)(uintptr_t)vf_u64();
        struct key *kp = vf_bool() ? &KA[k] : &KB[k];
        if (op == 0) {
            bool r = HTinsert(t, kp, v);
            vf_assert(r, "insert succeeds");
            count += present[k] ? 0 : 1;
            present[k] = true;
            val[k] = v;
        } else if (op == 1) {
            void *r = HTremove(t, kp);
            vf_assert(r == (present[k] ? val[k] : NULL), "remove returns the stored value, or NULL when absent");
            count -= present[k] ? 1 : 0;
            present[k] = false;
        } else if (op == 2) {
            void *r = HTlookup(t, kp);
            vf_assert(r == (present[k] ? val[k] : NULL), "lookup returns the stored value, or NULL when absent");
        } else {
            HTclear(t);
            count = 0;
            for (int i = 0; i < NKEYS; i++) {
                present[i] = false;
            }
        }
        vf_assert(HTelementCount(t) == count, "element count equals the number of distinct keys stored");
    }
    for (int i = 0; i < NKEYS; i++) {
        vf_assert(HTlookup(t, &KB[i]) == (present[i] ? val[i] : NULL), "final contents equal the model's");
    }
    HTdelete(t);
    vf_reach();
}
