/* model of palm/str.h for CBMC, for the front-end harnesses: results live in objects of a fixed size, so that names with
 * symbolic characters do not make allocation sizes symbolic. The contract is the one C03 and C04 decide for the real
 * functions; native replays use the real ones. */
#include <stdbool.h>
#include <stdlib.h>
#include "vf.h"
#define CAP 24
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char *copy(const char *s, int how)
{
    char *r = malloc(CAP);
    for (int i = 0; i < CAP; i++) {
        r[i] = how == 1 ? low(s[i]) : how == 2 ? up(s[i]) : s[i];
        if (s[i] == 0) return r;
    }
    vf_assert(0, "a string longer than the string model holds");
    return r;
}
char *STRcpy(const char *s) { return s ? copy(s, 0) : NULL; }
char *STRlower(const char *s) { return s ? copy(s, 1) : NULL; }
char *STRupper(const char *s) { return s ? copy(s, 2) : NULL; }
static bool eq(const char *a, const char *b, bool ci)
{
    if (a == NULL || b == NULL) return a == b;
    for (int i = 0; i < CAP; i++) {
        if (ci ? low(a[i]) != low(b[i]) : a[i] != b[i]) return false;
        if (a[i] == 0) return true;
    }
    vf_assert(0, "a string longer than the string model holds");
    return false;
}
bool STReq(const char *a, const char *b) { return eq(a, b, false); }
bool STReqci(const char *a, const char *b) { return eq(a, b, true); }
char *STRnull() { return copy("", 0); }
size_t STRlen(const char *s) { size_t n = 0; if (s) while (s[n]) n++; return n; }
char *STRcat(const char *a, const char *b)
{
    if (!a) return STRcpy(b);
    if (!b) return STRcpy(a);
    char *r = malloc(2 * CAP);
    int n = 0;
    for (int i = 0; a[i]; i++) r[n++] = a[i];
    for (int i = 0; b[i]; i++) r[n++] = b[i];
    r[n] = 0;
    return r;
}
