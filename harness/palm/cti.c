/* Diagnostics: counting, abort behaviour, and the text printed. exit/fprintf/fputc/fputs of the real
 * code are renamed to the vf_ versions below. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#undef exit
#undef fprintf
#undef fputc
#undef fputs
#undef putc
extern int vsnprintf(char *, size_t, const char *, va_list);
#include "vf.h"
#include "palm/ctinfo.h"
#ifdef VF_CBMC
#define STOP() __CPROVER_assume(0)
#else
extern void _Exit(int);
#define STOP() _Exit(0)
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef MODE
#define MODE 0
#endif
static int errs, warns;
static bool exit_ok;
#if MODE == 1
#define OUTN 64
static char out[OUTN];
static int on;
#endif
void vf_exit(int code)
{
    vf_assert(exit_ok, "the process ends only on an abort request, with errors pending for abort-on-error");
    vf_assert(code != 0, "an aborted compilation ends with a failure status");
    STOP();
}
int vf_fprintf(FILE *f, const char *fmt, ...)
{
#if MODE == 1
    va_list ap;
    int n = 0;
    va_start(ap, fmt);
    for (; *fmt; fmt++) {
        if (fmt[0] == '%' && fmt[1] == 's') {
            const char *a = va_arg(ap, const char *);
            for (; *a; a++) if (on < OUTN) out[on++] = *a;
            fmt++;
        } else if (fmt[0] == '%' && fmt[1] == 'd') {
            int v = va_arg(ap, int);
            if (on < OUTN) out[on++] = (char)('0' + v % 10);
            fmt++;
        } else if (on < OUTN) {
            out[on++] = *fmt;
        }
    }
    va_end(ap);
    return n;
#else
    return 0;
#endif
}
int vf_fputc(int c, FILE *f)
{
#if MODE == 1
    if (on < OUTN) out[on++] = (char)c;
#endif
    return c;
}
int vf_fputs(const char *s, FILE *f)
{
    for (; *s; s++) vf_fputc(*s, f);
    return 0;
}

#if MODE == 0
void harness(void)
{
    vf_assert(CTIgetErrors() == 0 && CTIgetWarnings() == 0, "counters start at zero");
    for (int s = 0; s < STEPS; s++) {
        int op = (int)vf_range(0, 6);
        enum cti_type ty = op == 0 ? CTI_STATE : op == 1 ? CTI_NOTE : op == 2 ? CTI_WARN : CTI_ERROR;
        if (op <= 3) {
            if (vf_bool()) {
                CTI(ty, vf_bool(), "m");
            } else {
                struct ctinfo info = {(int)vf_range(0, 2), (int)vf_range(0, 2), (int)vf_range(0, 2),
                                      (int)vf_range(0, 2), NULL, vf_bool() ? "l" : NULL};
                if (vf_bool()) info.filename = "f";
                CTIobj(ty, vf_bool(), info, "m");
            }
            errs += ty == CTI_ERROR;
            warns += ty == CTI_WARN;
        } else if (op == 4) {
            exit_ok = errs > 0;
            CTIabortOnError();
            vf_assert(errs == 0, "abort-on-error does not return when errors were reported");
            exit_ok = false;
        } else if (op == 5) {
            exit_ok = true;
            CTIabortCompilation();
            vf_assert(0, "abort does not return");
        } else {
            exit_ok = true;
            CTIabortOutOfMemory(7);
            vf_assert(0, "out-of-memory abort does not return");
        }
        vf_assert(CTIgetErrors() == errs, "error count equals the number of errors reported");
        vf_assert(CTIgetWarnings() == warns, "warning count equals the number of warnings reported");
    }
    vf_reach();
}
#elif MODE == 1
/* the printed text: header of the type, then the message, for messages of ML characters */
#ifndef ML
#define ML 3
#endif
void harness(void)
{
    char m[ML + 1];
    const int t = TYPE;
    for (int i = 0; i < ML; i++) {
        m[i] = vf_bool() ? 'x' : 'q';
        if (i < ML - 1 && vf_bool()) m[i] = ' ';
    }
    m[ML] = '\0';
    const bool nl = NL;
    const int num = 7;
#ifdef OBJ
    struct ctinfo info = {1, 0, 0, 0, "f", NULL};
    CTIobj((enum cti_type)t, nl, info, "%s:%d", m, num);
#else
    CTI((enum cti_type)t, nl, "%s:%d", m, num);
#endif
    const char *h = t == CTI_WARN ? "warning: " : t == CTI_ERROR ? "error: " : t == CTI_NOTE ? "note: " : "";
    int at = 0;
    for (; *h; h++) vf_assert(out[at++] == *h, "the message starts with the header of its type");
    for (int i = 0; i < ML; i++) vf_assert(out[at++] == m[i], "the message text is printed unchanged");
    vf_assert(out[at] == ':' && out[at + 1] == '0' + num && out[at + 2] == '\n', "the message is complete and ends its line");
    at += 3;
#ifdef OBJ
    const char *loc = " --> f:1\n";
    for (; *loc; loc++) vf_assert(out[at++] == *loc, "the position follows the message");
#endif
    if (nl) vf_assert(out[at++] == '\n', "a requested extra newline is printed");
    vf_assert(on == at, "nothing else is printed");
    vf_reach();
}
#endif
