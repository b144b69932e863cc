"""Harness text for running a generated compiler (phase driver + generated tables) against a reference
interpreter of the declared action hierarchy."""
from . import dsl

HEAD = r'''
#undef printf
#undef fprintf
#undef puts
#undef fputs
#undef putchar
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#undef exit
#undef err
#include "vf.h"
#include "ccn/ccn.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include "ccn/action_types.h"
#include "ccngen/gate.h"
#include "palm/ctinfo.h"
#ifdef VF_CBMC
#define STOP() __CPROVER_assume(0)
#else
extern void _Exit(int);
#define STOP() _Exit(0)
#endif
#ifndef NEV
#define NEV 24
#endif
#ifndef MAXC
#define MAXC 3
#endif
enum { E_RUN = 1, E_CHECK, E_GATE, E_FREE, E_BREAK };
enum { END_RETURN, END_FAIL, END_OK };
enum { C_NONE, C_NOTIFY, C_AERR, C_PERR };

struct ev { unsigned char kind, act; unsigned char id; unsigned char node; };
static struct ev expect[NEV];
static int nexp, n, end_kind, errors_seen;
static unsigned char choice[NEV];
static bool gates[NEV], bad[NEV];
static bool tree_check;
static size_t maxc = 1;
static bool stopped, broke;
static int cur, rg, rr, rk;   /* reference state: current tree, gate calls, runs, checks */
static int gg, gr, gk;        /* the same counters in the real run */
static bool overflow;

/* ---------------------------------------------------------------- reference */
static void push(int kind, int act, int id)
{
    if (nexp >= NEV) { overflow = true; stopped = true; return; }
    expect[nexp].kind = (unsigned char)kind;
    expect[nexp].act = (unsigned char)act;
    expect[nexp].id = (unsigned char)id;
    expect[nexp].node = (unsigned char)cur;
    nexp++;
}
static void ref_check(int id)
{
    if (stopped || !tree_check) return;
    push(E_CHECK, 0, id);
    if (stopped) return;
    if (bad[rk++]) { stopped = true; end_kind = END_FAIL; }
}
static bool ref_gate(int gate)
{
    push(E_GATE, gate, 0);
    return !stopped && gates[rg++];
}
static bool r_aerr;
static int ref_run(int act, int id, int out)   /* what the action reports */
{
    push(E_RUN, act, id);
    if (stopped) return C_NONE;
    int c = choice[rr++];
    cur = out;
    if (c == C_AERR) { stopped = true; end_kind = END_FAIL; return C_NONE; }
    return c;
}
'''

TAIL_COMMON = r'''
/* ---------------------------------------------------------------- the real run */
#define POOL(N) static node_st pool[N]
static int index_of(node_st *node);
static void see(int kind, int act, size_t id, node_st *node)
{
    vf_assert(n < nexp, "nothing runs that the specification does not call for");
    vf_assert(expect[n].kind == kind, "the right kind of event happens next");
    vf_assert(expect[n].act == act, "actions (and gates) run in the declared order");
    if (kind != E_GATE && kind != E_FREE && kind != E_BREAK) vf_assert(expect[n].id == id, "the current action id is the action's position");
    if (kind != E_GATE) vf_assert(expect[n].node == index_of(node), "the current tree is the previous action's result");
    n++;
}
void vf_exit(int code)
{
    vf_assert(end_kind != END_RETURN, "compilation ends early only where the specification says so");
    vf_assert(n == nexp, "compilation does not end before the actions that must still run");
    vf_assert((code != 0) == (end_kind == END_FAIL), "exit status");
    vf_reach();
    STOP();
}
void vf_err(int code, const char *fmt, ...)
{
    vf_assert(0, "framework error");
    STOP();
}
static void report(void)
{
    int c = choice[gr++];
    if (c == C_NOTIFY) CCNcycleNotify();
    if (c == C_AERR) CCNerrorAction();
    if (c == C_PERR) CCNerrorPhase();
}
int CTIgetErrors(void) { return errors_seen; }
int CTIgetWarnings(void) { return 0; }
void CTIabortOnError(void) { if (errors_seen > 0) vf_exit(1); }
void CTIabortCompilation(void) { vf_exit(1); }
void CTIabortOutOfMemory(unsigned int s) { vf_exit(1); }
void CTI(enum cti_type type, bool newline, const char *format, ...) { }
void CTIobj(enum cti_type type, bool newline, struct ctinfo obj, const char *format, ...) { }
'''


def cname(spec, o):
    """the C function that shows that the action runs"""
    return o.cfunc() if isinstance(o, dsl.Pass) else o.uid.upper() + spec.root.name.lower()


def passes_of(spec):
    out, seen = [], set()
    for a in spec.hierarchy().walk():
        if isinstance(a.obj, (dsl.Pass, dsl.Trav)) and cname(spec, a.obj) not in seen:
            seen.add(cname(spec, a.obj))
            out.append(a.obj)
    return out


def silent(spec, o):
    """a traversal that has no function for the root node"""
    return isinstance(o, dsl.Trav) and o.nodes and spec.root.name.lower() not in spec.evalset(o.nodes)


def gates_of(spec):
    out = []
    for a in spec.hierarchy().walk():
        if isinstance(a.obj, dsl.Phase) and a.obj.gate and a.obj.gate not in out:
            out.append(a.obj.gate)
    return out


def harness(spec, errors=False, brk=None, check=True, notify=True, twice=False, nev=16, tables=False):
    """brk: None, "id" (symbolic id) or ("path", maxlen, alphabet) symbolic, or ("str", text)"""
    h = spec.hierarchy()
    leafs = passes_of(spec)
    gates = gates_of(spec)
    idx = {cname(spec, o): i + 1 for i, o in enumerate(leafs)}
    o = ["#define NEV %d\n" % nev + HEAD]
    total = h.last
    # ---- breakpoint oracle
    o.append("static size_t brk_id;\nstatic const char *brk;\n")
    if brk and brk != "id":
        o.append(r'''
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
/* consumes the first component of p if it is name and more components follow; else returns p */
static const char *comp(const char *p, const char *name)
{
    size_t i = 0;
    for (; name[i]; i++) if (low(p[i]) != low(name[i])) return p;
    return p[i] == '.' && p[i + 1] ? p + i + 1 : p;
}
static bool same(const char *p, const char *name)
{
    size_t i = 0;
    for (; name[i]; i++) if (low(p[i]) != low(name[i])) return false;
    return p[i] == '\0';
}
''')
    o.append("static void ref_after(int id, const char *path_here, const char *name)\n{\n    if (stopped) return;\n")
    if brk == "id":
        o.append("    if (brk_id == (size_t)id) { broke = true; push(E_BREAK, 0, 0); stopped = true; end_kind = END_OK; }\n")
    elif brk:
        o.append("    if (same(path_here, name)) { broke = true; push(E_BREAK, 0, 0); stopped = true; end_kind = END_OK; }\n")
    o.append("    (void)id; (void)path_here; (void)name;\n}\n")
    # ---- reference interpreter
    acts = list(h.walk())
    for a in acts:
        o.append("static void ref_%d(const char *path, bool *changed, bool *perr);" % a.id)
    for a in acts:
        o.append("static void ref_%d(const char *path, bool *changed, bool *perr)\n{" % a.id)
        o.append("    if (stopped) return;\n    ref_check(%d);\n    if (stopped) return;" % a.id)
        if isinstance(a.obj, dsl.Phase):
            p = a.obj
            if p.gate:
                o.append("    if (!ref_gate(%d)) {" % (gates.index(p.gate) + 1))
                if brk == "id":
                    o.append("        vf_assume(brk_id != %d);" % a.id)   # a skipped phase: not executed
                elif brk:
                    o.append("        vf_assume(!same(path, \"%s\"));" % p.name)
                o.append("        return;\n    }")
            o.append("    const char *here = path;")
            if brk and brk != "id":
                o.append("    here = comp(path, \"%s\");" % p.name)
            o.append("    bool mine_perr = false;\n    size_t it = 0;\n    bool again;\n    do {\n        bool mine = false;")
            for k in a.kids:
                o.append("        ref_%d(here, &mine, &mine_perr);" % k.id)
            o.append("        it++;\n        if (stopped) return;\n        if (mine) *changed = true;")
            o.append("        again = %s && mine && it < maxc;\n    } while (again);" % ("true" if p.cycle else "false"))
            o.append("    if (mine_perr) { stopped = true; end_kind = END_FAIL; return; }\n    (void)perr;")
            o.append("    ref_after(%d, path, \"%s\");\n}" % (a.id, p.name))
        elif silent(spec, a.obj):
            o.append("    (void)changed; (void)perr;\n    ref_after(%d, path, \"%s\");\n}" % (a.id, a.obj.name))
        else:
            ix = idx[cname(spec, a.obj)]
            o.append("    int c = ref_run(%d, %d, %d);\n    if (stopped) return;" % (ix, a.id, ix))
            o.append("    if (c == C_NOTIFY) *changed = true;\n    if (c == C_PERR) *perr = true;")
            o.append("    ref_after(%d, path, \"%s\");\n}" % (a.id, a.obj.name))
    o.append(TAIL_COMMON)
    r = spec.root.name.lower()
    np = len(leafs) + 1
    o.append("static node_st *tree[%d];" % np)
    o.append("static int index_of(node_st *node)\n{\n    for (int i = 0; i < %d; i++) if (tree[i] == node) return i;\n    return 255;\n}" % np)
    for i, p in enumerate(leafs):
        i += 1
        if isinstance(p, dsl.Pass):
            o.append("node_st *%s(node_st *node)\n{\n    see(E_RUN, %d, CCNgetCurrentActionId(), node);\n    report();\n    return tree[%d];\n}"
                     % (p.cfunc(), i, i))
        else:
            targets = spec.evalset(p.nodes) if p.nodes else {x.name.lower() for x in spec.nodes}
            for t in sorted(targets):
                if t == r:
                    o.append("node_st *%s%s(node_st *node)\n{\n    see(E_RUN, %d, CCNgetCurrentActionId(), node);\n    report();\n    return tree[%d];\n}"
                             % (p.uid.upper(), r, i, i))
                else:
                    o.append("node_st *%s%s(node_st *node)\n{\n    vf_assert(0, \"handler of a node that is not in the tree\");\n    return node;\n}"
                             % (p.uid.upper(), t))
            if p.data:
                o.append("void %sinit() { }\nvoid %sfini() { }" % (p.uid.upper(), p.uid.upper()))
    used = {cname(spec, p) for p in leafs}
    for p in spec.of((dsl.Pass, dsl.Trav)):
        if cname(spec, p) in used:
            continue
        used.add(cname(spec, p))
        fs = [p.cfunc()] if isinstance(p, dsl.Pass) else [
            p.uid.upper() + t for t in sorted(spec.evalset(p.nodes) if p.nodes else {x.name.lower() for x in spec.nodes})]
        for f in fs:
            o.append("node_st *%s(node_st *node)\n{\n    vf_assert(0, \"an action that is not in the hierarchy runs\");\n    return node;\n}" % f)
        if isinstance(p, dsl.Trav) and p.data:
            o.append("void %sinit() { }\nvoid %sfini() { }" % (p.uid.upper(), p.uid.upper()))
    gs = {p.gate for p in spec.of(dsl.Phase) if p.gate} - set(gates)
    for g in sorted(gs):
        o.append("bool %s(void)\n{\n    vf_assert(0, \"a gate of an unused phase is called\");\n    return true;\n}" % g)
    for i, g in enumerate(gates):
        o.append("bool %s(void)\n{\n    see(E_GATE, %d, 0, NULL);\n    return gates[gg++];\n}" % (g, i + 1))
    for nd in spec.nodes:
        nl = nd.name.lower()
        if nl == r:
            o.append("node_st *CHK%s(node_st *node)\n{\n    see(E_CHECK, 0, CCNgetCurrentActionId(), node);\n    if (bad[gk++]) errors_seen++;\n    return node;\n}" % nl)
            o.append("node_st *DEL%s(node_st *node)\n{\n    see(E_FREE, 0, 0, node);\n    return NULL;\n}" % nl)
        else:
            o.append("node_st *CHK%s(node_st *node) { return node; }\nnode_st *DEL%s(node_st *node) { return NULL; }" % (nl, nl))
    o.append("void BreakpointHandler(node_st *node)\n{\n    see(E_BREAK, 0, 0, node);\n}")
    if tables:
        o.append(table_check(spec, idx))
        o.append(show_check(spec))
    # ---- the entry
    o.append("static char brk_text[16];\nvoid harness(void)\n{")
    lim = "C_PERR" if errors else "C_NOTIFY" if notify else "C_NONE"
    for i in range(nev):
        o.append("    choice[%d] = (unsigned char)vf_range(0, %s); gates[%d] = %s; bad[%d] = %s;" % (
            i, lim, i, "vf_bool()" if gates else "true", i, "vf_bool()" if check == "bad" else "false"))
    cyc = any(isinstance(a.obj, dsl.Phase) and a.obj.cycle for a in acts)
    o.append("    maxc = %s;" % ("(size_t)vf_range(1, MAXC)" if cyc else "1"))
    o.append("    tree_check = %s;" % ("vf_bool()" if check else "false"))
    if brk == "id":
        o.append("    brk_id = (size_t)vf_range(1, %d);" % (total + 1))
    elif brk and brk[0] == "str":
        o.append("    brk = \"%s\";" % brk[1])
    elif brk:
        o.append("    static const char alpha[] = \"%s\";\n    size_t bl = (size_t)vf_range(1, %d);" % (brk[2], brk[1]))
        o.append("    for (size_t i = 0; i < %d; i++) brk_text[i] = i < bl ? alpha[vf_range(0, %d)] : '\\0';" % (brk[1], len(brk[2]) - 1))
        o.append("    vf_assume(brk_text[0] != '.' && brk_text[bl - 1] != '.');\n    brk = brk_text;")
    for i in range(np):
        args = ", ".join("0" for _ in spec.ctor_params(spec.root))
        o.append("    tree[%d] = AST%s(%s);" % (i, r, args))
    o.append("    CCNsetCycles(maxc);\n    CCNsetTreeCheck(tree_check);")
    if brk == "id":
        o.append("    CCNsetBreakpointWithID(brk_id);")
    elif brk:
        o.append("    CCNsetBreakpoint((char *)brk);")
    if tables:
        o.append("    tables();\n    show();")
    for rep in range(2 if twice else 0 if tables else 1):
        o.append("    { bool ch = false, pe = false; stopped = false; nexp = 0; n = 0; cur = 0; rg = rr = rk = gg = gr = gk = 0; end_kind = END_RETURN;")
        o.append("      ref_1(brk, &ch, &pe);\n      if (!stopped) push(E_FREE, 0, 0);\n      vf_assume(!overflow); }")
        o.append("    CCNrun(tree[0]);")
        o.append("    vf_assert(n == nexp, \"everything that must run has run\");")
        o.append("    vf_assert(end_kind == END_RETURN, \"compilation does not go on after a stop\");")
    o.append("    vf_reach();\n}")
    return "\n".join(o) + "\n"


SHOW = r"""
/* what CCNshowTree prints, white space left out */
#include <stdarg.h>
static char out[OUTN];
static int outn;
static void put(char c) { if (c == ' ' || c == '\t' || c == '\n') return; vf_assert(outn < OUTN - 1, "the listing is not longer than the hierarchy"); out[outn++] = c; }
static void puts_(const char *s) { while (*s) put(*s++); }
static void putn(unsigned long v) { if (v > 9) putn(v / 10); put((char)('0' + v % 10)); }
static void fmt_(const char *f, va_list ap)
{
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        f++;
        int l = 0;
        while (*f == 'l' || *f == 'z') { l = 1; f++; }
        if (*f == 's') puts_(va_arg(ap, char *));
        else if (*f == 'c') put((char)va_arg(ap, int));
        else if (*f == '%') put('%');
        else if (l) putn(va_arg(ap, unsigned long));
        else putn(va_arg(ap, unsigned int));
    }
}
int vf_printf(const char *f, ...) { va_list ap; va_start(ap, f); fmt_(f, ap); va_end(ap); return 0; }
int vf_fprintf(void *s, const char *f, ...) { va_list ap; va_start(ap, f); fmt_(f, ap); va_end(ap); return 0; }
int vf_puts(const char *s) { puts_(s); return 0; }
int vf_fputs(const char *s, void *f) { puts_(s); return 0; }
int vf_putchar(int c) { put((char)c); return c; }
"""
SHOW_FLAGS = ["-D%s=vf_%s" % (x, x) for x in ("printf", "fprintf", "puts", "fputs", "putchar")]


def show_check(spec):
    """CCNshowTree lists every position with its id and name"""
    text = "".join("%d:%s" % (a.id, a.obj.name) for a in spec.hierarchy().walk() if a.id > 1)
    return "#define OUTN %d\n" % (len(text) + 2) + SHOW + \
        "static void show(void)\n{\n    CCNshowTree();\n    vf_assert(text_is(out, \"%s\"), \"the listing shows the declared hierarchy\");\n}" % text


def table_check(spec, idx):
    """every declared action's entry in the generated tables describes it"""
    o = ["static bool text_is(const char *a, const char *b)\n{\n    while (*a && *a == *b) { a++; b++; }\n    return *a == *b;\n}",
         "void tables(void)\n{\n    struct ccn_action *a;\n    static const struct { int dummy; } none;\n    (void)none;"]
    allacts = spec.of(dsl.Phase) + spec.of(dsl.Trav) + spec.of(dsl.Pass)
    ident = lambda x: "CCNAC_ID_" + x.name.upper()
    o.append("    vf_assert(CCN_NUM_OF_ACTIONS == CCNAC_ID_NULL, \"number of actions\");")
    o.append("    for (int i = 0; i < CCN_NUM_OF_ACTIONS; i++)\n        vf_assert(CCNgetActionFromID(i)->action_id == i, "
             "\"the entry of an action id is that action's\");")
    for s in ("check", "free"):
        o.append("    a = CCNgetActionFromID(CCNAC_ID_%s);\n    vf_assert(a->type == CCN_ACTION_TRAVERSAL && a->traversal.trav_type == TRAV_%s, "
                 "\"the %s action\");" % (s, s, s))
    o.append("    a = CCNgetActionFromID(CCNAC_ID_cleanup);\n    vf_assert(a->type == CCN_ACTION_PHASE && a->phase.gate_func == NULL && "
             "!a->phase.is_cycle && a->phase.action_table[0] == CCNAC_ID_free && a->phase.action_table[1] == CCNAC_ID_NULL, \"the cleanup action\");")
    o.append("    vf_assert(CCN_ROOT_ACTION == %s, \"root action\");" % ident([p for p in spec.of(dsl.Phase) if p.start][0]))
    for x in allacts:
        o.append("    a = CCNgetActionFromID(%s);\n    vf_assert(text_is(a->name, \"%s\"), \"name of an action\");" % (ident(x), x.name))
        if isinstance(x, dsl.Phase):
            o.append("    vf_assert(a->type == CCN_ACTION_PHASE, \"kind of an action\");\n    vf_assert(a->phase.gate_func == %s, \"gate of a phase\");\n"
                     "    vf_assert(a->phase.is_cycle == %s, \"cycle flag\");" % (x.gate or "NULL", "true" if x.cycle else "false"))
            for i, y in enumerate(x.actions):
                y = spec.action(y) if isinstance(y, str) else y
                o.append("    vf_assert(a->phase.action_table[%d] == %s, \"actions of a phase\");" % (i, ident(y)))
            o.append("    vf_assert(a->phase.action_table[%d] == CCNAC_ID_NULL, \"end of the actions of a phase\");" % len(x.actions))
        elif isinstance(x, dsl.Trav):
            o.append("    vf_assert(a->type == CCN_ACTION_TRAVERSAL && a->traversal.trav_type == TRAV_%s, \"traversal of an action\");" % x.uid.upper())
        else:
            o.append("    vf_assert(a->type == CCN_ACTION_PASS && a->pass.pass_type == PASS_%s, \"pass of an action\");" % x.name.upper())
    o.append("}")
    return "\n".join(o)


P, F, T = dsl.Pass, dsl.Phase, dsl.Trav


def base_nodes():
    return [dsl.Node("r", attrs=[dsl.Attr("a", "int")], root=True)]


def spec(name, start_actions, others=(), **k):
    return dsl.Spec(name, [F("main", start_actions, start=True, **k)] + list(others) + base_nodes())


# ---------------------------------------------------------------------- corpus and queries
def corpus():
    """hierarchies; bound on events (nev) chosen so that no run within the cycle bound overflows"""
    out = []

    def add(name, nev, *a, **k):
        out.append((spec(name, *a, **k), nev))
    add("flat", 8, [P("p1"), T("t1", "TA"), P("p2", func="doit"), T("t2", "TB")])
    add("gates", 14, [P("p1"), F("g1", [P("p2"), P("p3")], gate="gatea"), F("g2", [P("p4"), F("g3", [P("p5")], gate="gateb")],
                                                                       gate="gatea"), P("p6")])
    add("deep", 14, [F("d1", [F("d2", [F("d3", [P("p1"), T("t1", "TA")], uid="DC"), P("p2")]), P("p3")]), P("p4")])
    add("cycle", 14, [P("p1"), F("c1", [P("p2"), P("p3")], cycle=True), P("p4")])
    add("cyclephase", 18, [F("c1", [P("p1"), F("n1", [P("p2")]), T("t1", "TA")], cycle=True), P("p3")])
    add("cyclegate", 22, [F("c1", [F("n1", [P("p1")], gate="gatea"), P("p2"), F("n2", [P("p3")], gate="gateb")], cycle=True), P("p4")])
    add("twocycles", 18, [F("c1", [P("p1")], cycle=True), F("c2", [P("p2")], cycle=True), F("n", [F("c3", [P("p3")], cycle=True)]), P("p4")])
    add("nestedcycle", 26, [F("c1", [P("p1"), F("c2", [P("p2")], cycle=True)], cycle=True), P("p3")])
    add("innerfirst", 26, [F("c1", [F("c2", [P("p2")], cycle=True, gate="gatea"), P("p1")], cycle=True)])
    add("reuse", 16, [P("p1"), F("n1", ["p1", P("p2")]), F("n2", ["p2", "n1"]), T("t1", "TA"), "t1"])
    add("startcycle", 14, [P("p1"), F("n1", [P("p2")], gate="gatea")], cycle=True)
    add("toplevel", 14, ["x", "y", "z"], [P("z", func="zfun"), F("y", ["x", "u"], gate="gatey", uid="YY"), P("x"), T("u", "UU")])
    return out


def random_spec(rnd, name, maxacts=7):
    n = [0]
    gates = ["gatea", "gateb"]

    def leaf():
        n[0] += 1
        return T("t%d" % n[0], "T%s" % chr(64 + n[0])) if rnd.random() < .25 else P("p%d" % n[0])

    def phase(depth, incyc):
        n[0] += 1
        cyc = rnd.random() < .35 and incyc < 2
        nm = "f%d" % n[0]
        gate = rnd.choice(gates) if rnd.random() < .4 else None
        return F(nm, acts(depth - 1, incyc + cyc, rnd.randint(1, 2)), cycle=cyc, gate=gate)

    def acts(depth, incyc, k):
        out = []
        for _ in range(k):
            out.append(phase(depth, incyc) if depth > 0 and rnd.random() < .5 and n[0] < maxacts else leaf())
        return out
    return spec(name, acts(2, 0, rnd.randint(2, 3)))


def max_events(sp, check, maxc):
    def ev(a, mult):
        t = mult if check else 0
        if isinstance(a.obj, dsl.Phase):
            t += mult if a.obj.gate else 0
            m = mult * (maxc if a.obj.cycle else 1)
            return t + sum(ev(k, m) for k in a.kids)
        return t + mult
    return ev(sp.hierarchy(), 1) + 2


EXCL = ("ccn_check.c", "ccn_free.c")
REN = ["-Dexit=vf_exit", "-Derr=vf_err"]


def query(ctx, g, name, maxc=3, timeout=300, about="", **kw):
    import os
    from . import gen, palm
    from .core import Query
    kw.setdefault("nev", max_events(g.spec, kw.get("check", True), maxc))
    os.makedirs(g.dir + "/h", exist_ok=True)
    h = g.dir + "/h/%s.c" % name
    with open(h, "w") as f:
        f.write(harness(g.spec, **kw))
    hh = g.spec.hierarchy()
    kids = max([len(a.kids) for a in hh.walk()] + [0])
    unwind = max(maxc + 2, kids + 2, len(passes_of(g.spec)) + 3, 8)
    src = [f for f in g.src() if os.path.basename(f) not in EXCL] + gen.copra_src() + palm.all_src(exclude=("ctinfo.c",))
    if kw.get("tables"):
        acts = g.spec.of((dsl.Phase, dsl.Pass, dsl.Trav))
        unwind = max([unwind, len(acts) + 6, max(len(a.name) for a in acts) + 2, len(list(hh.walk())) * 12])
    return Query(name, h, src, includes=g.includes, defines=["MAXC=%d" % maxc],
                 flags=REN + (SHOW_FLAGS if kw.get("tables") else []), cbmc_extra=palm.MODELS,
                 unwind=unwind, timeout=timeout, about=about, object_bits=10)


FUN = ["CCNrun", "CCNdispatchAction", "StartPhase", "SkipPhase", "Checkbreakpoint", "CCNcycleNotify", "CCNerrorAction",
       "CCNerrorPhase", "CCNset*", "CCNgetCurrentActionId", "TRAVstart/TRAVpush/TRAVpop/TRAVdo", "PASSstart",
       "generated CCNgetActionFromID, action tables and vtables", "STReqci"]
ASSUME = ["code generated by the current cocogen for the listed hierarchies", "diagnostics, exit, the check and free "
          "handlers of the root node are recording stand-ins", "allocation does not fail"]
