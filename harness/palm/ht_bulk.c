/* Whole-table operations reach every stored entry exactly once; copies are independent. */
#include "vf.h"
#include "palm/hash_table.h"
#ifndef NKEYS
#define NKEYS 3
#endif
#ifndef SIZE
#define SIZE 2
#endif
#ifndef OP
#define OP 0
#endif
struct key { int id; };
/* any 64-bit hash for power-of-two tables; 0..31 otherwise (keeps the modulo cheap) */
#if (SIZE & (SIZE - 1)) == 0
#define HASHVAL vf_u64()
#else
#define HASHVAL ((size_t)(vf_u64() & 31u))
#endif
static size_t H[NKEYS];
static struct key K[NKEYS], C[NKEYS];
static size_t kh(void *k) { return H[((struct key *)k)->id]; }
static bool keq(void *a, void *b) { return ((struct key *)a)->id == ((struct key *)b)->id; }
static int cells[NKEYS + 2];           /* values are pointers into cells */
static int seen[NKEYS], data_ok, acc_n;
static bool present[NKEYS];
static int present_n;
static int DATA;

static int idx(void *v) { return (int)((int *)v - cells); }
static void *f_map(void *v) { seen[idx(v)]++; return (int *)v + 1; }
static void *f_mapk(void *k, void *v)
{
    vf_assert(((struct key *)k)->id == idx(v), "map passes each value with its own key");
    seen[idx(v)]++;
    return (int *)v + 1;
}
static void *f_mapdk(void *d, void *k, void *v)
{
    vf_assert(d == &DATA, "map passes the user's data");
    vf_assert(((struct key *)k)->id == idx(v), "map passes each value with its own key");
    seen[idx(v)]++;
    return (int *)v + 1;
}
static void *f_fold(void *acc, void *v)
{
    vf_assert(acc == &DATA, "fold passes the accumulator");
    seen[idx(v)]++;
    return acc;
}
static void *cpk(void *k) { return &C[((struct key *)k)->id]; }
static void *cpv(void *v) { return (int *)v + 1; }

static void expect_seen(void)
{
    for (int i = 0; i < NKEYS; i++) {
        vf_assert(seen[i] == (present[i] ? 1 : 0), "every stored entry is reached exactly once");
    }
}
static void expect(htable_st *t, int off)
{
    vf_assert(HTelementCount(t) == (size_t)present_n, "element count");
    for (int i = 0; i < NKEYS; i++) {
        vf_assert(HTlookup(t, &K[i]) == (present[i] ? (void *)&cells[i + off] : NULL), "contents after the operation");
    }
}

void harness(void)
{
    htable_st *t = HTnew(SIZE, kh, keq);
    int gone = -1;
    for (int i = 0; i < NKEYS; i++) {
        H[i] = HASHVAL;
        K[i].id = C[i].id = i;
        present[i] = true;
        HTinsert(t, &K[i], &cells[i]);
    }
    for (int i = 0; i < NKEYS; i++) {
        if (vf_bool()) {
            HTremove(t, &K[i]);
            present[i] = false;
        }
        present_n += present[i];
    }
    (void)gone;
#if OP == 0
    int n = 0;
    for (htable_iter_st *it = HTiterate(t); it; it = HTiterateNext(it)) {
        int k = ((struct key *)HTiterKey(it))->id;
        vf_assert(HTiterValue(it) == &cells[k], "the iterator pairs each key with its value");
        seen[k]++;
        HTiterSetValue(it, &cells[k + 1]);
        vf_assert(HTiterValue(it) == &cells[k + 1], "a value set through the iterator is read back");
        n++;
    }
    vf_assert(n == present_n, "iteration yields as many entries as are stored");
    expect_seen();
    expect(t, 1);
#elif OP == 1
    HTmap(t, f_map);
    expect_seen();
    expect(t, 1);
#elif OP == 2
    HTmapWithKey(t, f_mapk);
    expect_seen();
    expect(t, 1);
#elif OP == 3
    HTmapWithDataAndKey(t, &DATA, f_mapdk);
    expect_seen();
    expect(t, 1);
#elif OP == 4
    HTfold(t, f_fold, &DATA);
    expect_seen();
    expect(t, 0);
#elif OP == 5 || OP == 6
    htable_st *c = OP == 5 ? HTcpy(t) : HTdeep_copy(t, cpk, cpv);
    vf_assert(c != t, "a copy is a new table");
    expect(t, 0);
    expect(c, OP == 5 ? 0 : 1);
    if (OP == 6) {
        for (htable_iter_st *it = HTiterate(c); it; it = HTiterateNext(it)) {
            int k = ((struct key *)HTiterKey(it))->id;
            vf_assert(HTiterKey(it) == &C[k], "a deep copy stores the copied keys");
        }
    }
    /* independence: changing one does not change the other */
    int m = (int)vf_range(0, NKEYS - 1);
    if (vf_bool()) {
        HTinsert(c, &C[m], &DATA);
        HTremove(c, &C[(m + 1) % NKEYS]);
        expect(t, 0);
        HTdelete(t);
        vf_assert(HTlookup(c, &K[m]) == &DATA, "the copy outlives the original");
    } else {
        HTinsert(t, &C[m], &DATA);
        HTremove(t, &C[(m + 1) % NKEYS]);
        expect(c, OP == 5 ? 0 : 1);
        HTdelete(c);
        vf_assert(HTlookup(t, &K[m]) == &DATA, "the original outlives the copy");
    }
#elif OP == 7
    htable_iter_st *it = HTiterate(t);
    vf_assert((it == NULL) == (present_n == 0), "iteration over an empty table yields nothing");
    if (it) {
        HTiterateCancel(it);
    }
    expect(t, 0);
    HTclear(t);
    vf_assert(HTiterate(t) == NULL, "iteration over a cleared table yields nothing");
#endif
    vf_reach();
}
