/* C23: STadd / STlookup for every history of N entries and lookups with symbolic names */
#include "front.h"
#include "frontend/symboltable.h"
#ifndef N
#define N 4
#endif
#ifndef LEN
#define LEN 2
#endif

void harness(void)
{
    char name[N][LEN + 1];
    node_st *key[N], *val[N], *ste = NULL;
    for (int i = 0; i <= N; i++) {
        /* a lookup between any two entries */
        char q[LEN + 1];
        vf_fill_str(q, LEN + 1);
        for (int k = 0; k < LEN; k++) vf_assume((q[k] >= 'a' && q[k] <= 'z') || (q[k] >= 'A' && q[k] <= 'Z') || q[k] == '_' || (q[k] >= '0' && q[k] <= '9') || (k && !q[k]));
        node_st *want = NULL;
        for (int j = 0; j < i; j++) if (same(name[j], q)) want = val[j];
        node_st *id = mkid(q);
        vf_assert(STlookup(ste, id) == want, "lookup gives the most recent entry of that name");
        if (i == N) break;
        vf_fill_str(name[i], LEN + 1);
        for (int k = 0; k < LEN; k++) vf_assume((name[i][k] >= 'a' && name[i][k] <= 'z') || (name[i][k] >= 'A' && name[i][k] <= 'Z') || name[i][k] == '_' || (name[i][k] >= '0' && name[i][k] <= '9') || (k && !name[i][k]));
        key[i] = mkid(name[i]);
        val[i] = mkid("v");
        ste = STadd(ste, key[i], val[i]);
    }
    /* nothing lost */
    node_st *s = ste;
    for (int i = N - 1; i >= 0; i--) {
        vf_assert(s && NODE_TYPE(s) == NT_STE && STE_KEY(s) == key[i] && STE_VALUE(s) == val[i], "entry kept");
        s = STE_NEXT(s);
    }
    vf_assert(s == NULL, "no other entry");
    vf_reach();
}
