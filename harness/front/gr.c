/* C22: the dependency graph of attributes: closure, cycles and dependencies for every set of edges; partitions */
#include "front.h"
#include "palm/hash_table.h"
#include "frontend/attribute_scheduler/graph.h"
#include "frontend/attribute_scheduler/partition_nodes.h"
#ifndef N
#define N 3
#endif
#ifndef OWNER
#define OWNER {0, 0, 1, 1}
#endif
#ifndef ORDER
#define ORDER {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
#endif
#ifdef VF_CBMC
void htmodel_key(void *key);
#else
#define htmodel_key(k) (void)0
#endif
static node_st fake[N];
static const int owner[] = OWNER, order[] = ORDER;
static bool edge[N][N], reach[N][N];
static node_st *attr[N], *own[N];
static struct GRnode *g[N];

static void closure(void)
{
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) reach[i][j] = edge[i][j];
    for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
        if (reach[i][k] && reach[k][j]) reach[i][j] = true;
}
static bool cyclic(void)
{
    for (int i = 0; i < N; i++) if (reach[i][i]) return true;
    return false;
}
static int index_of(struct GRnode *n, struct GRnode **t)
{
    for (int i = 0; i < N; i++) if (t[i] == n) return i;
    return -1;
}
static void compare(graph_st *gr, struct GRnode **t)
{
    for (int i = 0; i < N; i++) {
        vf_assert(GRlookup_node(gr, own[i], attr[i]) == t[i], "node found");
        for (int j = 0; j < N; j++) if (i != j) {
            struct GRedge *e = GRlookup_edge(gr, t[i], t[j], false);
            vf_assert((e != NULL) == reach[i][j], "depends exactly when a chain of dependencies leads there");
            if (e) vf_assert(e->first == t[i] && e->second == t[j], "edge between these attributes");
        }
        bool dep[N] = {0}, all[N] = {0};
        int n = 0;
        struct GRnode_list *l = GRget_inter_node_dependencies(gr, t[i]);
        for (; l && n <= N; l = l->next, n++) {
            int k = index_of(l->node, t);
            vf_assert(k >= 0 && !dep[k], "each dependency once");
            if (k >= 0) dep[k] = true;
        }
        vf_assert(l == NULL, "at most all attributes");
        l = GRget_node_dependencies(gr, t[i]);
        for (n = 0; l && n <= N; l = l->next, n++) {
            int k = index_of(l->node, t);
            vf_assert(k >= 0 && !all[k], "each dependency once");
            if (k >= 0) all[k] = true;
        }
        for (int k = 0; k < N; k++) {
            vf_assert(dep[k] == (k != i && owner[k] == owner[i] && reach[k][i]), "dependencies on attributes of the same node");
            vf_assert(all[k] == (k != i && reach[k][i]), "dependencies on all attributes");
        }
    }
}

static struct GRerror add(graph_st *gr, int i, int j, bool *bad)
{
    struct GRerror e = GRadd_edge(gr, g[i], g[j], GRnormal);
    if (e.type != GR_error_none) {
        *bad = true;
        vf_assert(e.type == GR_error_cycle && e.data.cycle.n1 == g[i] && e.data.cycle.n2 == g[j], "error names the edge");
    }
    return e;
}

#ifdef PARTITION
void harness(void)
{
    bool syn[N];
    graph_st *gr = GRnew();
    static char nm[N][3];
    for (int i = 0; i < N; i++) {
        syn[i] = vf_bool();
        attr[i] = ASTattribute();
        nm[i][0] = 'a' + i;
        ATTRIBUTE_NAME(attr[i]) = mkid(nm[i]);
        ATTRIBUTE_IS_SYNTHESIZED(attr[i]) = syn[i];
        ATTRIBUTE_IS_INHERITED(attr[i]) = !syn[i];
        own[i] = &fake[owner[i]];
        g[i] = GRadd_node(gr, own[i], attr[i]);
        htmodel_key(g[i]);
    }
    /* acyclic: dependencies only along a fixed random order of the attributes, all of them closed */
    for (int x = 0; x < N; x++) for (int y = x + 1; y < N; y++) edge[order[x]][order[y]] = BASE(order[x], order[y]);
    closure();
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (reach[i][j]) {
        struct GRerror e = GRadd_edge(gr, g[i], g[j], edge[i][j] ? GRnormal : GRinduced);
        vf_assert(e.type == GR_error_none, "no cycle");
    }
    htable_st *t = partition_nodes(gr, &fake[0]);
    /* the smallest partitions: inherited even from 2, synthesized odd from 3, none before one it depends on */
    size_t want[N];
    for (int x = 0; x < N; x++) {
        int i = order[x];
        size_t m = 0;
        for (int y = 0; y < x; y++) {
            int k = order[y];
            if (owner[k] == 0 && reach[k][i] && want[k] > m) m = want[k];
        }
        want[i] = m == 0 ? (syn[i] ? 3 : 2) : m % 2 == syn[i] ? m : m + 1;
    }
    for (int i = 0; i < N; i++) {
        char key[3] = {'a' + i, 0};
        size_t p = (size_t)HTlookup(t, key);
        vf_assert(p == (owner[i] == 0 ? want[i] : 0), "partition of the attribute");
    }
    vf_reach();
}
#else
void harness(void)
{
    bool bad = false;
    static node_st afake[N];
    graph_st *gr = GRnew();
    for (int i = 0; i < N; i++) {
        attr[i] = &afake[SHARE ? i % 2 : i];
        own[i] = &fake[owner[i]];
        g[i] = GRadd_node(gr, own[i], attr[i]);
        htmodel_key(g[i]);
    }
    for (int o = 0; o < N; o++) for (int o2 = 0; o2 < N; o2++) {
        int i = order[o * N + o2] / N, j = order[o * N + o2] % N;
        edge[i][j] = FIXED(i, j) ? vf_bool() : BASE(i, j);
        if (edge[i][j]) add(gr, i, j, &bad);
    }
    closure();
    struct GRedge_list *added = NULL;
    if (!bad) {
        struct GRerror e = GRclose_transitivity(gr, &added);
        bad = e.type != GR_error_none;
        if (bad) vf_assert(e.type == GR_error_cycle_induced && index_of(e.data.cycle.n1, g) >= 0 && index_of(e.data.cycle.n2, g) >= 0, "error names an edge");
    }
    vf_assert(bad == cyclic(), "a circular dependency is reported exactly when there is one");
    if (bad) { vf_reach(); return; }
    compare(gr, g);
    /* new dependencies inside one node are handed on */
    bool new_[N][N] = {0};
    int n = 0;
    for (; added && n <= N * N; added = added->next, n++) {
        int i = index_of(added->edge->first, g), j = index_of(added->edge->second, g);
        vf_assert(i >= 0 && j >= 0 && !new_[i][j], "each new dependency once");
        new_[i][j] = true;
    }
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
        vf_assert(new_[i][j] == (i != j && owner[i] == owner[j] && reach[i][j] && !edge[i][j]), "new dependencies inside one node");
#ifdef COPY
    graph_st *c = GRcopy(gr);
    struct GRnode *t[N];
    for (int i = 0; i < N; i++) { t[i] = GRlookup_node(c, own[i], attr[i]); vf_assert(t[i] != NULL && t[i] != g[i], "copied node"); }

    GRdelete(gr);
    compare(c, t);
#endif
#ifdef MORE
    /* one more dependency between scheduled attributes */
    int a = MORE / N, b = MORE % N;
    if (a != b && reach[a][b]) { vf_reach(); return; }
    bool bad2 = false;
    edge[a][b] = true;
    add(gr, a, b, &bad2);
    closure();
    vf_assert(bad2 == cyclic(), "reported exactly when it closes a circle");
    if (bad2) { vf_reach(); return; }
    added = NULL;
    struct GRerror e = GRclose_transitivity(gr, &added);
    vf_assert(e.type == GR_error_none, "no circle");
    compare(gr, g);
#endif
    vf_reach();
}
#endif
