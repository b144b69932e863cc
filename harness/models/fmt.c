/* CBMC-only model of vsnprintf for the conversions %s %d %i %u %ld %lu %c %% (no flags or widths). */
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
static void put(char *b, size_t n, size_t *pos, char c)
{
    if (*pos + 1 < n) b[*pos] = c;
    (*pos)++;
}
static void put_u(char *b, size_t n, size_t *pos, unsigned long v)
{
    char d[20];
    int k = 0;
    do { d[k++] = (char)('0' + v % 10); v /= 10; } while (v);
    while (k > 0) put(b, n, pos, d[--k]);
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    size_t pos = 0;
    for (; *f; f++) {
        if (*f != '%') { put(b, n, &pos, *f); continue; }
        f++;
        int l = 0;
        while (*f == 'l' || *f == 'z') { l = 1; f++; }
        if (*f == 's') {
            const char *s = va_arg(ap, const char *);
            for (; *s; s++) put(b, n, &pos, *s);
        } else if (*f == 'd' || *f == 'i') {
            long v = l ? va_arg(ap, long) : va_arg(ap, int);
            if (v < 0) { put(b, n, &pos, '-'); put_u(b, n, &pos, 0ul - (unsigned long)v); }
            else put_u(b, n, &pos, (unsigned long)v);
        } else if (*f == 'u') {
            put_u(b, n, &pos, l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned));
        } else if (*f == 'c') {
            put(b, n, &pos, (char)va_arg(ap, int));
        } else {
            put(b, n, &pos, *f);
        }
    }
    if (n > 0) b[pos < n ? pos : n - 1] = '\0';
    return (int)pos;
}
