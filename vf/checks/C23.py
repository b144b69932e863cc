from .. import front
from ..front import B, q


def q_decls(ctx, i, n_each):
    """after a specification's declarations have been entered: a lookup of any name"""
    b, ns, vals = B(), [], []

    def nm():
        s = "s%d" % len(ns)
        ns.append(s)
        return s
    if i == 0:
        a, u = nm(), nm()
        v = b.phase(a, u, actions=[q("zz")])
        vals += [(a, v), (u, v)]
        a = nm()
        vals.append((a, b.node(a)))
        a = nm()
        vals.append((a, b.nodeset(a, ("lit", [q("zz")]))))
        a = nm()
        vals.append((a, b.enum(a, q("PF"), [q("yy")])))
    else:
        for f in (b.trav, b.pas):
            a, u = nm(), nm()
            v = f(a, u)
            vals += [(a, v), (u, v)]
        for f in (b.node, b.phase):
            a = nm()
            vals.append((a, f(a)))
    b.ast()
    k = len(ns)
    decl = ["char s%d[2]; draw_name(s%d, 1, %d);" % (j, j, k + 1) for j in range(k)] + ["char qq[2]; draw_name(qq, 1, %d);" % (k + 1)]
    dup = "(" + " || ".join("same(%s, %s)" % (x, y) for n, x in enumerate(ns) for y in ns[n + 1:]) + ")"
    want = "NULL"
    for a, v in vals:
        want = "same(qq, %s) ? %s : %s" % (a, v, want)
    after = "    if (!errors) vf_assert(STlookup(AST_STABLE(ast), mkid(qq)) == (%s), \"lookup finds the declaration of that name\");\n" % want
    return front.spec_query(ctx, "declarations%d" % i, front.text(decl, b, ["BST"], dup, after=after), front.files(), unwind=14,
                            about="declarations with any names, then a lookup of any name")


def run(ctx):
    qs = []
    st = ["frontend/symboltable.c"]
    for n, l in ((4, 2), (3, 3)) if not ctx.thorough else ((6, 2), (4, 4), (5, 3)):
        qs.append(front.query(ctx, "table_%d_len%d" % (n, l), "st.c", st, defines=["N=%d" % n, "LEN=%d" % l], unwind=max(n, l) + 3,
                              about="%d entries and %d lookups with names of up to %d characters" % (n, n + 1, l)))
    qs += [q_decls(ctx, i, 1) for i in range(2)]
    ctx.run_all(qs)
    ctx.bounds = ["%d entries with a lookup after each, every name of 1-%d letters, digits and underscores; %d entries with names of up to %d characters" %
                  ((4, 2, 3, 3) if not ctx.thorough else (6, 2, 4, 4)),
                  "symbol tables built from specifications with 5-6 declared names (phases, traversals, passes, nodes, nodesets, enums and uids) of one letter in either case, and a lookup of any such name"]
    ctx.assumptions = ["allocation does not fail", "in the queries over specifications, strings and hash tables follow the contracts of C01, C03 and C04 (harness/front/*model.c); "
                       "counterexamples are replayed with the real ones"]
    return ctx.finish("model_checking", ["STadd", "STlookup", "BSTast and the functions of buildsymboltable.c", "TRAVdo, TRAVchildren"],
                      "CBMC executes the symbol table (with cocogen's own generated constructors and traversals) on symbolic names; "
                      "lookups are compared with a linear search over what was entered, written in the harness")
