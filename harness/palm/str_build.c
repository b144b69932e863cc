/* String builders: result text is the specified one, freshly allocated, NUL-terminated, within
 * bounds; arguments untouched. FN selects the function. */
#include <limits.h>
#include <stdlib.h>
#include "vf.h"
#include "palm/memory.h"
#include "palm/str.h"
#ifndef CAP
#define CAP 4
#endif
#ifndef SUBTOK
#define SUBTOK 2
#define SUBTO 2
#endif
#ifndef FN
#define FN 0
#endif
#ifndef TAIL
#define TAIL CAP
#define LONG 0
#define PREA 0
#define PREB 0
#endif
/* PREA and PREB: long strings, of which the first characters are fixed */
static char A[CAP], B[CAP], C[CAP];
static char A0[CAP], B0[CAP], C0[CAP];
static char W[CAP * (CAP + 4)]; /* expected text */
static int wn;
static int len(const char *s) { int i = 0; while (s[i]) i++; return i; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c; }
static char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 'a' + 'A') : c; }
static void w(char c) { W[wn++] = c; }
static void ws(const char *s) { for (; *s; s++) w(*s); }
static void mk(char *b, char *b0, int pre)
{
    for (int i = 0; i < pre; i++) b[i] = "pQ"[i % 2];
#if LONG
    for (int i = pre; i < pre + TAIL - 1; i++) b[i] = vf_bool() ? 'z' : 'Z';
#else
    vf_fill_str(b, TAIL);
#endif
    for (int i = pre + TAIL; i < CAP; i++) b[i] = 0;
    for (int i = 0; i < CAP; i++) { vf_assume(b[i] >= 0); b0[i] = b[i]; }
}
static void check(char *r)
{
    vf_assert(r != NULL, "a string is returned");
    vf_assert(r != A && r != B && r != C, "the result is fresh memory");
    for (int i = 0; i < wn; i++) vf_assert(r[i] == W[i], "the text is the specified one");
    vf_assert(r[wn] == '\0', "the result is terminated where specified");
    /* fresh: writing to it does not reach the arguments */
    r[0] = r[0];
    MEMfree(r);
}
void harness(void)
{
    mk(A, A0, PREA);
    mk(B, B0, PREB);
    mk(C, C0, 0);
    const char *a = !LONG && vf_bool() ? NULL : A, *b = !LONG && vf_bool() ? NULL : B, *c = !LONG && vf_bool() ? NULL : C;
    int la = len(A), lb = len(B);
    (void)la; (void)lb; (void)a; (void)b; (void)c;
#if FN == 0
    char *r = STRcpy(a);
    if (!a) vf_assert(r == NULL, "copying NULL gives NULL");
    else { ws(A); check(r); }
#elif FN == 1
    int n = (int)vf_range(0, CAP + 1);
    char *r = STRncpy(a, n);
    if (!a) vf_assert(r == NULL, "copying NULL gives NULL");
    else { for (int i = 0; i < la && i < n; i++) w(A[i]); check(r); }
#elif FN == 2
    char *r = STRcat(a, b);
    if (!a && !b) vf_assert(r == NULL, "concatenating NULLs gives NULL");
    else { if (a) ws(A); if (b) ws(B); check(r); }
#elif FN == 3
    char *r = STRcatn(3, a, b, c);
    if (a) ws(A);
    if (b) ws(B);
    if (c) ws(C);
    if (wn == 0) { if (r) check(r); }
    else check(r);
#elif FN == 4
    int start = (int)vf_range(0, INT_MAX), n = (int)vf_u64();
    char *r = STRsubStr(A, start, n);
    long l = n < 0 ? (long)la + n : n;
    for (long i = start; i < la && i < start + l; i++) w(A[i]);
    check(r);
#elif FN == 5
    vf_assume(lb > 0 && lb <= SUBTOK && len(C) <= SUBTO);
    char *r = STRsubstToken(a, B, C);
    if (!a) vf_assert(r == NULL, "substituting in NULL gives NULL");
    else {
        for (int i = 0; i < la;) {
            int k = 0;
            while (k < lb && A[i + k] == B[k]) k++;
            if (k == lb) { ws(C); i += lb; } else { w(A[i]); i++; }
        }
        check(r);
    }
#elif FN == 6
    char *r = STRlower(a);
    if (!a) vf_assert(r == NULL, "NULL gives NULL");
    else { for (int i = 0; i < la; i++) w(low(A[i])); check(r); }
#elif FN == 7
    char *r = STRupper(a);
    if (!a) vf_assert(r == NULL, "NULL gives NULL");
    else { for (int i = 0; i < la; i++) w(up(A[i])); check(r); }
#elif FN == 8
    STRtoLower((char *)a);
    for (int i = 0; i < CAP; i++) {
        vf_assert(A[i] == (a && i < la ? low(A0[i]) : A0[i]), "in-place lowering");
        A[i] = A0[i];
    }
#elif FN == 9
    STRtoUpper((char *)a);
    for (int i = 0; i < CAP; i++) {
        vf_assert(A[i] == (a && i < la ? up(A0[i]) : A0[i]), "in-place uppering");
        A[i] = A0[i];
    }
#elif FN == 10
    /* tokens of A split at any character of B; an unfinished earlier string is dropped */
    vf_assume(lb <= 2);
    if (vf_bool()) MEMfree(STRtok(C, B));
    int at = 0;
    bool more = true;
    for (int call = 0; call < CAP + 1; call++) {
        char *r = STRtok(call == 0 ? A : NULL, B);
        if (!more) { vf_assert(r == NULL, "no token after the last one"); continue; }
        wn = 0;
        bool cut = false;
        while (A[at]) {
            for (int k = 0; k < lb; k++) if (B[k] == A[at]) cut = true;
            if (cut) break;
            w(A[at++]);
        }
        check(r);
        if (cut) at++; else more = false;
    }
#elif FN == 11
    char *r = STRnull();
    check(r);
#elif FN == 12
    int v = (int)vf_range(-1200, 1200);
    char *r = STRitoa(v);
    int u = v < 0 ? -v : v;
    if (v < 0) w('-');
    if (u >= 1000) w((char)('0' + u / 1000));
    if (u >= 100) w((char)('0' + u / 100 % 10));
    if (u >= 10) w((char)('0' + u / 10 % 10));
    w((char)('0' + u % 10));
    check(r);
#elif FN == 13
    char *r = STRfmt("%s-%s.%d", A, B, 7);
    ws(A); w('-'); ws(B); w('.'); w('7');
    check(r);
#endif
    for (int i = 0; i < CAP; i++) {
        vf_assert(A[i] == A0[i] && B[i] == B0[i] && C[i] == C0[i], "the arguments are left untouched");
    }
    vf_reach();
}
