/* common parts of the front-end harnesses: diagnostics are counted instead of printed */
#ifndef FRONT_H
#define FRONT_H
#include <stdlib.h>
#include <string.h>
#include "vf.h"
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include "palm/ctinfo.h"
#include "palm/str.h"
#include "globals.h"

struct globals globals;
static int errors;       /* CTI errors */
static int signalled;    /* CCNerrorAction / CCNerrorPhase */

#include "palm/dbug.h"
void DBUGprintAssert(int line, char *file, const char *func, char *msg, ...) { vf_assert(0, "internal assertion of cocogen"); }
void CTI(enum cti_type type, bool nl, const char *format, ...) { if (type == CTI_ERROR) errors++; }
void CTIobj(enum cti_type type, bool nl, struct ctinfo obj, const char *format, ...) { if (type == CTI_ERROR) errors++; }
static bool aborted;
void CTIabortOnError(void) { aborted = true; }
void CCNerrorAction(void) { signalled++; }
void CCNerrorPhase(void) { signalled++; }
void id_to_info(node_st *id, struct ctinfo *info)
{
    /* the real one reads the position of the id */
    vf_assert(NODE_TYPE(id) == NT_ID, "diagnostic about something that is not an id");
    info->first_line = ID_ROW(id);
}

void DBUGprint(char *header, char *msg, ...) { }
void DBUGoff(void) { }
#ifdef VF_CBMC
int printf(const char *f, ...) { return 0; }
#endif

static node_st *mkid(const char *s)
{
    return ASTid(STRcpy(s), STRlower(s), STRupper(s));
}

/* case-insensitive equality of two names, written independently of palm */
static bool same(const char *a, const char *b)
{
    for (;; a++, b++) {
        char x = *a >= 'A' && *a <= 'Z' ? *a + 32 : *a;
        char y = *b >= 'A' && *b <= 'Z' ? *b + 32 : *b;
        if (x != y) return false;
        if (!x) return true;
    }
}

/* a name of LEN characters over few letters in both cases */
static void draw_name(char *s, int len, int letters)
{
    for (int i = 0; i < len; i++) {
        char c = (char)vf_range('A', 'z');
        vf_assume((c >= 'A' && c < 'A' + letters) || (c >= 'a' && c < 'a' + letters));
        s[i] = c;
    }
    s[len] = '\0';
}
#endif
