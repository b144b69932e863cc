/* model of palm/hash_table.h for CBMC: an association array with the contract that C01 and C02 decide for the real table
 * (a map; pointers compared by identity, ints and strings by content, otherwise by the given function). Iteration is in
 * order of insertion; the real order depends on hashes. Native replays use the real hash_table.c. With HTREG, every pointer has the same slot in all pointer tables, which keeps indices constant (insert, lookup and map only). */
#include <stdlib.h>
#include <string.h>
#include "palm/hash_table.h"
#include "vf.h"
#ifndef HTCAP
#define HTCAP 16
#endif
struct htable { void *k[HTCAP], *v[HTCAP]; int n, kind; hash_key_ft hash; is_equal_ft eq; };
struct htable_iter { struct htable *t; int i; };

static int same_key(struct htable *t, void *a, void *b)
{
    if (t->kind == 0) return a == b;
    if (t->kind == 1) return *(int *)a == *(int *)b;
    if (t->kind == 2) return a == b || strcmp(a, b) == 0;
    return t->eq(a, b);
}
static htable_st *make(int kind)
{
    htable_st *t = malloc(sizeof *t);
    t->n = 0; t->kind = kind; t->hash = NULL; t->eq = NULL;
#ifdef HTREG
    static struct htable empty;
    *t = empty; t->kind = kind;
#endif
    return t;
}
htable_st *HTnew(size_t size, hash_key_ft hash, is_equal_ft eq) { htable_st *t = make(3); t->hash = hash; t->eq = eq; return t; }
htable_st *HTnew_String(size_t size) { return make(2); }
htable_st *HTnew_Ptr(size_t size) { return make(0); }
htable_st *HTnew_Int(size_t size) { return make(1); }
#ifdef HTREG
/* tables of pointers: every pointer used as a key has one slot in all tables */
static void *reg[HTCAP];
static int regs;
static int slot(void *key)
{
    for (int i = 0; i < regs; i++) if (reg[i] == key) return i;
    vf_assert(regs < HTCAP, "more keys than the table model holds");
    reg[regs] = key;
    return regs++;
}
#endif
#ifdef HTREG
void htmodel_key(void *key) { slot(key); }
#endif
static int find(htable_st *t, void *key)
{
    for (int i = 0; i < t->n; i++) if (same_key(t, t->k[i], key)) return i;
    return -1;
}
bool HTinsert(htable_st *t, void *key, void *value)
{
#ifdef HTREG
    if (t->kind == 0) { int s = slot(key); t->v[s] = value; t->k[s] = key; return true; }
#endif
    int i = find(t, key);
    if (i < 0) {
        vf_assert(t->n < HTCAP, "more entries than the table model holds");
        i = t->n++;
        t->k[i] = key;
    }
    t->v[i] = value;
    return true;
}
void *HTlookup(htable_st *t, void *key)
{
#ifdef HTREG
    if (t->kind == 0) return t->v[slot(key)];
#endif
    int i = find(t, key); return i < 0 ? NULL : t->v[i]; }
void *HTremove(htable_st *t, void *key)
{
    int i = find(t, key);
    if (i < 0) return NULL;
    void *v = t->v[i];
    for (; i + 1 < t->n; i++) { t->k[i] = t->k[i + 1]; t->v[i] = t->v[i + 1]; }
    t->n--;
    return v;
}
void HTclear(htable_st *t) { t->n = 0; }
void HTdelete(htable_st *t) { free(t); }
size_t HTelementCount(htable_st *t) { return (size_t)t->n; }
htable_st *HTcpy(htable_st *t) { htable_st *c = malloc(sizeof *c); *c = *t; return c; }
htable_st *HTdeep_copy(htable_st *t, cpy_ft kf, cpy_ft vf)
{
    htable_st *c = make(t->kind);
    c->hash = t->hash; c->eq = t->eq;
    for (int i = 0; i < t->n; i++) HTinsert(c, kf(t->k[i]), vf(t->v[i]));
    return c;
}
void HTmap(htable_st *t, map_ft f)
{
#ifdef HTREG
    if (t->kind == 0) { for (int i = 0; i < HTCAP; i++) if (t->k[i]) t->v[i] = f(t->v[i]); return; }
#endif
    for (int i = 0; i < t->n; i++) t->v[i] = f(t->v[i]); }
void HTmapWithKey(htable_st *t, mapk_ft f) { for (int i = 0; i < t->n; i++) t->v[i] = f(t->k[i], t->v[i]); }
void HTmapWithDataAndKey(htable_st *t, void *d, mapdk_ft f) { for (int i = 0; i < t->n; i++) t->v[i] = f(d, t->k[i], t->v[i]); }
void HTfold(htable_st *t, fold_ft f, void *acc) { for (int i = 0; i < t->n; i++) f(acc, t->v[i]); }
htable_iter_st *HTiterate(htable_st *t)
{
    if (t->n == 0) return NULL;
    htable_iter_st *it = malloc(sizeof *it);
    it->t = t; it->i = 0;
    return it;
}
htable_iter_st *HTiterateNext(htable_iter_st *it)
{
    if (++it->i < it->t->n) return it;
    free(it);
    return NULL;
}
void HTiterateCancel(htable_iter_st *it) { free(it); }
void *HTiterValue(htable_iter_st *it) { return it->t->v[it->i]; }
void HTiterSetValue(htable_iter_st *it, void *v) { it->t->v[it->i] = v; }
void *HTiterKey(htable_iter_st *it) { return it->t->k[it->i]; }
