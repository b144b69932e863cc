/* One arbitrary pair of operations from any table of up to NPRE entries (arbitrary hash values):
 * the table still agrees with the model on every key. */
#include "vf.h"
#include "palm/hash_table.h"
#ifndef NPRE
#define NPRE 3
#endif
#define NKEYS (NPRE + 1)
#ifndef SIZE
#define SIZE 2
#endif
#ifndef OPS
#define OPS 2
#endif
struct key { int id; };
/* any 64-bit hash for power-of-two tables; 0..31 otherwise (keeps the modulo cheap) */
#if (SIZE & (SIZE - 1)) == 0
#define HASHVAL vf_u64()
#else
#define HASHVAL ((size_t)(vf_u64() & 31u))
#endif
static size_t H[NKEYS];
static struct key KA[NKEYS], KB[NKEYS];
static size_t kh(void *k) { return H[((struct key *)k)->id]; }
static bool keq(void *a, void *b) { return ((struct key *)a)->id == ((struct key *)b)->id; }

void harness(void)
{
    bool present[NKEYS];
    void *val[NKEYS];
    size_t count = 0;
    for (int i = 0; i < NKEYS; i++) {
        H[i] = HASHVAL;
        KA[i].id = KB[i].id = i;
        present[i] = false;
        val[i] = NULL;
    }
    htable_st *t = HTnew(SIZE, kh, keq);
    for (int i = 0; i < NPRE; i++) {
        val[i] = (void *)(uintptr_t)vf_u64();
        present[i] = true;
        HTinsert(t, &KA[i], val[i]);
        count++;
    }
    for (int s = 0; s < OPS; s++) {
        int op = (int)vf_range(0, 2);
        int k = (int)vf_range(0, NKEYS - 1);
        void *v = (void *)(uintptr_t)vf_u64();
        if (op == 0) {
            HTinsert(t, &KB[k], v);
            count += present[k] ? 0 : 1;
            present[k] = true;
            val[k] = v;
        } else if (op == 1) {
            vf_assert(HTremove(t, &KB[k]) == (present[k] ? val[k] : NULL), "remove returns the stored value or NULL");
            count -= present[k] ? 1 : 0;
            present[k] = false;
        } else {
            vf_assert(HTlookup(t, &KB[k]) == (present[k] ? val[k] : NULL), "lookup returns the stored value or NULL");
        }
    }
    vf_assert(HTelementCount(t) == count, "element count equals the number of distinct keys stored");
    for (int i = 0; i < NKEYS; i++) {
        vf_assert(HTlookup(t, &KB[i]) == (present[i] ? val[i] : NULL), "contents equal the model's");
    }
    vf_reach();
}
