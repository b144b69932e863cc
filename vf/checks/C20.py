import random
from .. import front
from ..front import B, q

L = "abcd"
HELP = r'''
static unsigned bit(const char *s)
{
    for (int i = 0; i < 4; i++) { char n[2] = {(char)('a' + i), 0}; if (same(s, n)) return 1u << i; }
    vf_assert(0, "a member that was never inserted");
    return 0;
}
/* the members of a set; every member once (at most 4 different names, so at most 4 levels) */
#define LEVEL(n, below) static unsigned members##n(node_st *l) \
{ \
    if (l == NULL) return 0; \
    vf_assert(NODE_TYPE(l) == NT_SETLITERAL, "a set is made of literals"); \
    unsigned c = bit(ID_LWR(SETLITERAL_REFERENCE(l))); \
    unsigned a = below(SETLITERAL_LEFT(l)); \
    unsigned b = below(SETLITERAL_RIGHT(l)); \
    vf_assert(!(a & b) && !(a & c) && !(b & c), "no member twice"); \
    return a | b | c; \
}
static unsigned none(node_st *l) { vf_assert(l == NULL, "no more members than names"); return 0; }
LEVEL(1, none) LEVEL(2, members1) LEVEL(3, members2) LEVEL(4, members3)
#define members members4
static unsigned apply(int op, unsigned a, unsigned b) { return op == SO_iunion ? a | b : op == SO_intersect ? a & b : a & ~b; }
'''


def letters(n, k=4, pre="s"):
    return ["char %s%d[2]; draw_name(%s%d, 1, %d);" % (pre, i, pre, i, k) for i in range(n)]


def q_set(ctx, n, k):
    """SETIDinsert and SETIDcontains: n inserts of any of k names"""
    t = '#include "front.h"\n#include "sets/set.h"\n' + HELP + "void harness(void)\n{\n"
    t += "".join("    " + x + "\n" for x in letters(n + 1, k))
    t += "    node_st *set = NULL; unsigned want = 0;\n"
    for i in range(n):
        t += "    set = SETIDinsert(set, mkid(s%d)); want |= bit(s%d);\n" % (i, i)
        t += "    vf_assert(members(set) == want, \"exactly what was inserted\");\n"
    t += "    vf_assert(SETIDcontains(set, mkid(s%d)) == ((want & bit(s%d)) != 0), \"membership\");\n" % (n, n)
    t += "    vf_reach();\n}\n"
    return front.spec_query(ctx, "insert%d_%d" % (n, k), t, front.SETS, unwind=7, unwindset=deep(), about="%d inserts of any of %d names and one test of membership" % (n, k))


def q_op(ctx, op, a, b, k):
    t = '#include "front.h"\n#include "sets/set.h"\n' + HELP + "void harness(void)\n{\n"
    t += "".join("    " + x + "\n" for x in letters(a + b, k))
    t += "    node_st *l = NULL, *r = NULL; unsigned ml = 0, mr = 0;\n"
    for i in range(a + b):
        v, m = ("l", "ml") if i < a else ("r", "mr")
        t += "    %s = SETIDinsert(%s, mkid(s%d)); %s |= bit(s%d);\n" % (v, v, i, m, i)
    t += "    node_st *res = SETID%s(l, r);\n" % {"iunion": "union"}.get(op, op)
    t += "    vf_assert(members(res) == apply(SO_" + op + ", ml, mr), \"the result of the operation\");\n"
    t += "    vf_assert(members(l) == ml && members(r) == mr, \"operands are unchanged\");\n    vf_reach();\n}\n"
    return front.spec_query(ctx, "%s%d_%d_%d" % (op, a, b, k), t, front.SETS, unwind=7, unwindset=deep(),
                            about=op + " of sets of %d and %d inserts of any of %d names" % (a, b, k))


def rand_expr(rnd, depth, refs, st):
    """(python expression for B.expr, C expression of its members)"""
    if depth == 0 or rnd.random() < .25:
        if refs and rnd.random() < .5:
            r = rnd.choice(refs)
            return ("ref", q(r)), "m_" + r
        if st["n"] >= st["max"]:
            lit = rnd.sample(L, rnd.choice([1, 2]))
            return ("lit", [q(x) for x in lit]), "(%s)" % " | ".join("%du" % (1 << L.index(x)) for x in lit)
        i = st["n"]
        st["n"] += 1
        lit = [rnd.choice(L)] if rnd.random() < .4 else []
        return ("lit", ["s%d" % i] + [q(x) for x in lit]), "(bit(s%d)%s)" % (i, "".join(" | %du" % (1 << L.index(x)) for x in lit))
    op = rnd.choice(["SO_iunion", "SO_intersect", "SO_difference"])
    a, ca = rand_expr(rnd, depth - 1, refs, st)
    b, cb = rand_expr(rnd, depth - 1, refs, st)
    return (op, a, b), "apply(%s, %s, %s)" % (op, ca, cb)


def q_expr(ctx, rnd, i, maxsym, k=2):
    """nodesets and traversal targets given by expressions that refer to each other, in any order of declaration"""
    st = {"n": 0, "ops": 0, "max": maxsym, "k": k}
    sets, code = ["P", "Q", "R"], []
    exprs = {}
    for j, s in enumerate(sets):
        e, c = rand_expr(rnd, (2 if ctx.thorough else 1) if j < 2 else 1, sets[:j], st)
        if j == 2 and rnd.random() < .7:
            e, c = (("SO_iunion", ("ref", q("Q")), e), "apply(SO_iunion, m_Q, %s)" % c)
        exprs[s] = e
        code.append("unsigned m_%s = %s;" % (s, c))
    te, tc = rand_expr(rnd, 1, sets, st)
    code.append("unsigned m_t = %s;" % tc)
    b = B()
    b.phase(q("ph"), None, "true", [q("tt")])
    b.trav(q("tt"), q("ut"), te)
    b.trav(q("tall"), q("ux"))
    child = rnd.choice(sets)
    for x in L:
        b.node(q(x), "true" if x == "d" else "false", [(q(child), q("kid"))] if x == "d" else [])
    order = sets[:]
    rnd.shuffle(order)
    v = {s: b.nodeset(q(s), exprs[s]) for s in order}
    b.ast()
    after = "    if (!errors) {\n" + "".join(
        "        vf_assert(members(INODESET_EXPR(%s)) == m_%s, \"nodeset %s\");\n" % (v[s], s, s) for s in sets) + \
        "        vf_assert(members(ITRAVERSAL_INODES(%s)) == m_t, \"traversal targets\");\n" % b.top["trav"][0] + \
        "        vf_assert(ITRAVERSAL_INODES(%s) == NULL, \"all nodes\");\n    }\n" % b.top["trav"][1]
    txt = front.text(letters(max(1, st["n"]), k) + code, b, ["BST", "CEX", "NCT", "USE"], "m_t == 0 || m_%s == 0" % child,
                     extra=HELP, after=after)
    return front.spec_query(ctx, "expressions%d" % i, txt, front.files("CEX", "NCT", "USE"), timeout=2400 if ctx.thorough else 220, unwind=14, max_unwind=14, defines=["HTCAP=8"], unwindset=deep(),
                            about="nodesets declared in the order %s: %r and the targets %r" % (" ".join(order), exprs, te))


def deep():
    """sets have at most 4 members, so trees of literals have at most 4 levels"""
    t = "".join(open(front.CC + "/" + f).read() for f in front.SETS + ["ccngen/ccn_copy.c", "ccngen/ccn_free.c"])
    return ["%s:5" % f for f in ("SLIsetliteral", "SLUsetliteral", "SLCsetliteral", "SLISsetliteral", "SLDsetliteral", "DELsetliteral",
                                 "CPYsetliteral") if f + "(" in t] + ["strcmp.0:4"]


def rec(k):
    t = open(front.F + "nodesets/nodeset_child_table.c").read()
    return ["%s:%d" % x for x in (("NCTast", 1), ("NCTinodeset", k + 2), ("add_inheritance_entry_list.0", k + 2), ("find.0", k + 4)) if x[0].split(".")[0] + "(" in t or x[0] == "find.0"]


def q_self(ctx, rnd, i, k, sym):
    """nodesets that refer to each other: reported iff one refers to itself"""
    b, decl = B(), ["bool r[%d][%d] = {0};" % (k, k)]
    b.phase(q("ph"), None, "true", [q("tt")])
    b.trav(q("tt"), q("ut"))
    b.node(q("xx"), "true")
    decl += ["int x%d = vf_range(0, 2); enum setoperation_type w%d = x%d == 0 ? SO_iunion : x%d == 1 ? SO_intersect : SO_difference;" % (i, i, i, i)
             for i in range(k)]
    symbolic = rnd.sample(range(k), sym)
    about = []
    for j in range(k):
        if j in symbolic:
            decl.append("char n%d[2]; draw_name(n%d, 1, %d);" % (j, j, k))
            decl += ["if (same(n%d, \"%s\")) r[%d][%d] = true;" % (j, L[m], j, m) for m in range(k)]
            e = ("ref", "n%d" % j)
            about.append("any")
        else:
            m = rnd.randrange(k + 1)
            e = ("ref", q(L[m])) if m < k and m != j else ("lit", [q("xx")])
            if e[0] == "ref":
                decl.append("r[%d][%d] = true;" % (j, m))
            about.append(L[m] if e[0] == "ref" else "none")
        b.nodeset(q(L[j]), ("w%d" % j, ("lit", [q("xx")]), e) if rnd.random() < .7 else e)
    decl += ["bool bad0 = false;",
             "for (int m = 0; m < %d; m++) for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) if (r[i][m] && r[m][j]) r[i][j] = true;" % (k, k, k),
             "for (int i = 0; i < %d; i++) if (r[i][i]) bad0 = true;" % k]
    b.ast()
    return front.spec_query(ctx, "recursion%d" % i, front.text(decl, b, ["BST", "CEX", "NCT"], "bad0"), front.files("CEX", "NCT"), unwind=12,
                            max_unwind=12, defines=["HTCAP=%d" % (k + 3)], unwindset=rec(k), about="%d nodesets referring to: %s" % (k, ", ".join(about)))


def run(ctx):
    rnd = random.Random(ctx.seed)
    qs = [q_set(ctx, 3, 3), q_set(ctx, 4, 4), *[q_op(ctx, o, a, b, 3) for o in ("iunion", "intersect", "difference") for a, b in ((2, 2), (0, 2), (2, 0))], *[q_self(ctx, rnd, i, 4, 0) for i in range(4)]]
    qs += [q_expr(ctx, rnd, i, 1 if not ctx.thorough else 1 + i % 2) for i in range(6 if not ctx.thorough else 24)]
    import os
    if os.environ.get("VF_ONLY"):
        qs = [x for x in qs if any(x.name.startswith(y) for y in os.environ["VF_ONLY"].split(","))]
    ctx.run_all(qs)
    ctx.bounds = ["insertion of up to 4 names and union, intersection and difference of sets of up to 2 (one operand up to 3) members, every name of one letter in either case",
                  "%d specifications with 2-4 nodesets and a traversal, declared in random order, with random expressions over literals, references and operators; "
                  "some names in them are any letter in either case, and the operators are symbolic where the query says so" % (6 if not ctx.thorough else 24),
                  "4 reference graphs over 4 nodesets with symbolic operators"]
    ctx.assumptions = ["allocation does not fail", "the specification arrives as the tree of node constructors that the parser's actions build (the parser itself is not encoded)",
                       "strings and hash tables follow the contracts of C01, C03 and C04 (harness/front/*model.c) in CBMC; counterexamples are replayed with the real ones"]
    return ctx.finish("model_checking", ["SETIDinsert, SETunion, SETintersect, SETdifference and their traversals", "NCTast.. (nodeset_child_table.c)", "USEast.. (unwrap_setexpr.c)",
                                         "BST and CEX stages", "cocogen's own constructors, copy and free traversals"],
                      "CBMC executes the set operations and the evaluation of set expressions of cocogen; the members of every evaluated set are compared with "
                      "bit-set algebra over the same expression, and an error must be reported exactly for empty sets where not allowed and sets that contain themselves")
