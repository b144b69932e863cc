/* CBMC-only models of the libc functions CBMC has no body for (standard-conforming on the
 * inputs the harnesses can produce). Native replays use the real libc. */
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>

char *strstr(const char *h, const char *n)
{
    for (;; h++) {
        size_t i = 0;
        while (n[i] != '\0' && h[i] == n[i]) {
            i++;
        }
        if (n[i] == '\0') {
            return (char *)h;
        }
        if (*h == '\0') {
            return NULL;
        }
    }
}

static int in_set(char c, const char *s)
{
    for (; *s; s++) {
        if (*s == c) {
            return 1;
        }
    }
    return 0;
}

size_t strspn(const char *s, const char *a)
{
    size_t n = 0;
    while (s[n] && in_set(s[n], a)) n++;
    return n;
}

size_t strcspn(const char *s, const char *r)
{
    size_t n = 0;
    while (s[n] && !in_set(s[n], r)) n++;
    return n;
}

char *strpbrk(const char *s, const char *a)
{
    s += strcspn(s, a);
    return *s ? (char *)s : NULL;
}

static char *tok_save;
char *strtok(char *s, const char *d)
{
    if (!s) s = tok_save;
    if (!s) return NULL;
    s += strspn(s, d);
    if (!*s) { tok_save = NULL; return NULL; }
    char *e = s + strcspn(s, d);
    if (*e) { *e = '\0'; tok_save = e + 1; } else { tok_save = NULL; }
    return s;
}

size_t strnlen(const char *s, size_t n)
{
    size_t i = 0;
    while (i < n && s[i]) i++;
    return i;
}
