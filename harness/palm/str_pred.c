/* String predicates agree with their specification on every pair of strings up to CAP-1 bytes.
 * FN selects the function. */
#include "vf.h"
#include "palm/str.h"
#ifndef CAP
#define CAP 4
#endif
#ifndef TAIL
#define TAIL CAP
#endif
#ifndef FN
#define FN 0
#endif
#ifndef PREA
#define PREA 0
#define PREB 0
#endif
/* PREA and PREB: long strings, of which the first characters are fixed */
static char A[CAP], B[CAP];
static int len(const char *s) { int i = 0; while (s[i]) i++; return i; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c; }
static bool same_at(const char *h, int at, const char *n, int k)
{
    for (int i = 0; i < k; i++) if (h[at + i] != n[i]) return false;
    return true;
}
static void mk(char *b, int pre)
{
    for (int i = 0; i < pre; i++) b[i] = "pQ"[i % 2];
    vf_fill_str(b + pre, TAIL);
    for (int i = pre + TAIL; i < CAP; i++) b[i] = 0;
    for (int i = 0; i < CAP; i++) vf_assume(b[i] >= 0);
}
void harness(void)
{
    mk(A, PREA);
    mk(B, PREB);
    char A0[CAP], B0[CAP];
    for (int i = 0; i < CAP; i++) { A0[i] = A[i]; B0[i] = B[i]; }
    const char *a = vf_bool() ? NULL : A, *b = vf_bool() ? NULL : B;
    int la = len(A), lb = len(B);
    bool r, want;
#if FN == 0
    r = STReq(a, b);
    want = (!a && !b) || (a && b && la == lb && same_at(A, 0, B, la));
#elif FN == 1
    r = STReqci(a, b);
    want = !a && !b;
    if (a && b && la == lb) {
        want = true;
        for (int i = 0; i < la; i++) if (low(A[i]) != low(B[i])) want = false;
    }
#elif FN == 2
    int n = (int)vf_range(0, CAP + 1);
    r = STReqn(a, b, n);
    if (!a && !b) want = true;
    else if (!a || !b) want = n == 0;
    else {
        want = true;
        for (int i = 0; i < n; i++) {
            if (A[i] != B[i]) { want = false; break; }
            if (!A[i]) break;
        }
    }
#elif FN == 3
    r = STRprefix(a, b);
    want = !a || (b && la <= lb && same_at(B, 0, A, la));
#elif FN == 4
    vf_assume(a && b);
    r = STRsuffix(a, b);
    want = la <= lb && same_at(B, lb - la, A, la);
#elif FN == 5
    r = STRsub(a, b);
    want = !a;
    if (a && b) {
        want = false;
        for (int at = 0; at + la <= lb; at++) if (same_at(B, at, A, la)) want = true;
    }
#elif FN == 6
    r = STRlen(a) == (size_t)(a ? la : 0);
    want = true;
#elif FN == 7
    r = STRonNull(B, (char *)a) == (a ? a : B);
    want = true;
#endif
    vf_assert(r == want, "the predicate's answer is the specified one");
    for (int i = 0; i < CAP; i++) {
        vf_assert(A[i] == A0[i] && B[i] == B0[i], "a predicate leaves its arguments untouched");
    }
    vf_reach();
}
