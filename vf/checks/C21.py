import itertools
import random
from .. import front
from ..front import B, q

SEM = ["check_existance.c", "buildsymboltable.c", "check_attributes.c", "check_product_rules.c", "propagate_attributes.c",
       "nodeset_child_table.c", "symboltable.c", "check_lifetimes.c", "map_id_to_lifetimes.c"]


def rec(depth):
    """bound on the recursion of the helper that looks for phases containing themselves (when it is there)"""
    t = open(front.F + "check_existance.c").read()
    return ["phaseContains:%d" % depth, "phaseContains.0:5"] if "phaseContains(" in t else []


def anyeq(names, pairs=None):
    pairs = list(itertools.combinations(names, 2)) if pairs is None else pairs
    return "(" + " || ".join("same(%s, %s)" % p for p in pairs) + ")" if pairs else "false"


def isin(a, lits):
    return "(" + " || ".join("same(%s, %s)" % (a, q(x)) for x in lits) + ")"


def names(n, length=1, letters=3, pre="s"):
    return ["char %s%d[%d]; draw_name(%s%d, %d, %d);" % (pre, i, length + 1, pre, i, length, letters) for i in range(n)]


def flags(*ns):
    return ["bool %s = vf_bool();" % n for n in ns]


def base(b, root=True, start=True):
    """what every well-formed specification needs"""
    if start:
        b.phase(q("mainphase"), q("mp"), "true", [q("mainpass")])
    b.pas(q("mainpass"))
    if root:
        b.node(q("rootnode"), "true")
    return b


def q_names(ctx, rnd, k, nm):
    """the names of all declarations and the uids of all actions are distinct, and so are the functions of passes"""
    b, ns, fs, used, i = B(), [], [], [], 0
    while i < k:
        kind = rnd.choice(["phase", "trav", "pass", "node", "nodeset", "enum"])
        a = "s%d" % i
        i += 1
        used.append(kind)
        ns.append(a)
        if kind in ("phase", "trav", "pass"):
            u = None
            if i < k and rnd.random() < .5:
                u = "s%d" % i
                ns.append(u)
                used[-1] += "+uid"
                i += 1
            if kind == "phase":
                b.phase(a, u, actions=[q("xx")])
            elif kind == "trav":
                b.trav(a, u or q("uu%d" % i))
            else:
                f = None
                if i < k and rnd.random() < .6:
                    f = "s%d" % i
                    fs.append(f)
                    used[-1] += "+func"
                    i += 1
                b.pas(a, u, f)
        elif kind == "node":
            b.node(a)
        elif kind == "nodeset":
            b.nodeset(a, ("lit", [q("xx")]))
        else:
            b.enum(a, a, [q("xx")])
    b.ast()
    return front.spec_query(ctx, nm, front.text(names(k, 1, k), b, ["BST"], "%s || %s" % (anyeq(ns), anyeq(fs))), front.files(),
                            about="declarations with arbitrary names: " + ", ".join(used))


UIDS = ["TRAV", "TRV", "CCN", "PASS", "CPY", "CHK", "DEL", "EVAL", "NULL"]
PREF = ["NT", "NS", "TRAV", "PASS", "CCN"]


def anyname(*bufs, cap=5):
    out = []
    for x in bufs:
        out += ["char %s[%d]; vf_fill_str(%s, %d);" % (x, cap, x, cap), "vf_assume(%s[0] != 0);" % x]
        out += ["for (int i = 0; i < %d; i++) vf_assume((%s[i] >= 'a' && %s[i] <= 'z') || (%s[i] >= 'A' && %s[i] <= 'Z') || %s[i] == '_' || "
                "(i && %s[i] >= '0' && %s[i] <= '9') || (i && !%s[i]));" % (cap - 1, x, x, x, x, x, x, x, x)]
    return out


def q_reserved(ctx, which):
    b = B()
    if which == "uid":
        base(b)
        b.phase(q("phphph"), "s0", actions=[q("mainpass")])
        b.trav(q("tttttt"), "s1")
        b.pas(q("pppppp"), "s2")
        bad = "same(s0, s1) || same(s0, s2) || same(s1, s2) || same(s0, \"mp\") || same(s1, \"mp\") || same(s2, \"mp\") || " + \
            " || ".join(isin(s, UIDS) for s in ("s0", "s1", "s2"))
        n = 3
    elif which == "prefix":
        base(b)
        b.enum(q("enumen"), "s0", [q("v")])
        b.enum(q("enumem"), "s1", [q("v")])
        bad = "same(s0, s1) || " + " || ".join(isin(s, PREF) for s in ("s0", "s1"))
        n = 2
    elif which == "name":
        base(b)
        b.phase("s0", q("ppp_u"), actions=[q("mainpass")])
        b.trav("s1", q("ttt_u"))
        b.pas("s2")
        n = 3
        bad = anyeq(["s%d" % i for i in range(n)]) + " || " + " || ".join("same(s%d, \"mp\")" % i for i in range(n)) + \
            " || " + " || ".join(isin("s%d" % i, ["null"]) for i in range(n))
    else:
        base(b)
        b.node("s0")
        b.nodeset("s1", ("lit", [q("rootnode")]))
        n = 2
        bad = "same(s0, s1) || same(s0, \"mp\") || same(s1, \"mp\") || same(s0, \"null\") || same(s1, \"null\") || same(s0, \"node\")"
    b.ast()
    return front.spec_query(ctx, "reserved_" + which, front.text(anyname(*["s%d" % i for i in range(n)]), b, ["BST", "CEX"], bad),
                            front.files("CEX"), unwind=22, about="reserved and repeated %s" % which)


def q_refs(ctx, sym):
    """references to anything declared, a uid, or nothing; those in sym are symbolic, the others fine"""
    fine = "bdddeddddceg"
    good = ["bci", "d", "def", "def", "e", "de", "de", "def", "def", "abc", "e", "d"]
    fine = ["b", "d", "e", "f", "e", "d", "e", "f", "d", "c", "e", "d"]
    r = ["s%d" % i if i in sym else q(fine[i]) for i in range(12)]
    b = B()
    b.phase(q("a"), q("uu"), "true", [r[0], q("b")])
    b.pas(q("b"), q("g"))
    b.trav(q("c"), q("vv"), ("lit", [r[1]]), [("AT_link_or_enum", r[2], q("x")), ("AT_int", None, q("y")), ("AT_link_or_enum", r[3], q("z"))])
    b.trav(q("cc"), q("vw"), ("|", ("lit", [q("d")]), ("ref", r[4])))
    b.phase(q("i"), q("ui"), "false", [q("b"), q("c"), r[9]])
    b.node(q("d"), "true", [(r[5], q("k")), (r[6], q("l"))], [dict(name=q("m"), ty="AT_link_or_enum", ref=r[7])])
    b.nodeset(q("e"), ("lit", [q("d")]), [dict(name=q("m"), ty="AT_link_or_enum", ref=r[8])])
    b.nodeset(q("ee"), ("-", ("ref", r[10]), ("lit", [r[11]])))
    b.enum(q("f"), q("PF"), [q("v")])
    b.ast()
    decl = ["char s%d[2]; draw_name(s%d, 1, 10);" % (i, i) for i in sym]
    return front.spec_query(ctx, "references" + "_".join(map(str, sym)),
                            front.text(decl, b, ["BST", "CEX"], "!(%s)" % " && ".join(isin("s%d" % i, good[i]) for i in sym)),
                            front.files("CEX"), unwind=20, unwindset=rec(4) + ["find.0:5"] if 0 in sym or 9 in sym else (),
                            defines=["HTCAP=4"] if 0 in sym or 9 in sym else (), about="references (%s) to any declared name, a uid or an undeclared name" % ", ".join(
                                ["action of the start phase", "traversal target", "traversal data type", "second traversal data type",
                                 "set reference in a traversal", "child type", "second child type", "attribute type", "nodeset attribute type",
                                 "action of a phase", "set reference in a nodeset", "set member"][i] for i in sym))


def q_actions(ctx, start):
    """an action of the start phase or of another phase that names anything declared, a uid, or nothing"""
    b = B()
    b.phase(q("a"), q("g"), "true", ["s0" if start else q("b")])
    b.pas(q("b"))
    b.trav(q("c"), q("h"))
    b.phase(q("i"), None, "false", ["s0" if not start else q("c")])
    b.node(q("d"), "true")
    b.nodeset(q("e"), ("lit", [q("d")]))
    b.enum(q("f"), q("PF"), [q("v")])
    b.ast()
    return front.spec_query(ctx, "actions_of_" + ("start" if start else "phase"),
                            front.text(["char s0[2]; draw_name(s0, 1, 10);"], b, ["BST", "CEX"], "!" + isin("s0", "bci" if start else "abc")),
                            front.files("CEX"), unwind=20, unwindset=rec(3) + ["find.0:5"], defines=["HTCAP=4"],
                            about="an action that names anything declared, a uid or nothing")


def q_members(ctx, part):
    b = base(B())
    if part == 0:
        b.node(q("na"), "false", [(q("na"), "s0")], [dict(name="s1")])
        b.node(q("nb"), "false", [(q("na"), q("a"))], [dict(name="s2")])
        bad = "same(s0, s1) || same(s2, \"a\")"
        nn = names(3, 1, 4)
    else:
        b.node(q("na"), "false", [(q("na"), "s0"), (q("na"), "s1")])
        b.nodeset(q("se"), ("lit", [q("na")]), [dict(name="s2"), dict(name="s3")])
        b.node(q("nb"), "false", [], [dict(name="s4")])
        bad = "same(s0, s1) || same(s2, s3)"
        nn = names(5, 1, 3)
    b.ast()
    return front.spec_query(ctx, "members%d" % part, front.text(nn, b, ["BST", "CEX"], bad), front.files("CEX"), unwind=12,
                            about="names of children and attributes of nodes and a nodeset")


def q_members2(ctx):
    b = base(B())
    b.trav(q("ta"), q("ua"), None, [("AT_int", None, "s0"), ("AT_bool", None, "s1"), ("AT_user", q("T"), "s2")])
    b.trav(q("tb"), q("ub"), None, [("AT_int", None, "s3"), ("AT_int", None, "s4")])
    b.enum(q("ea"), q("PA"), ["s5", "s6", "s7"])
    b.enum(q("eb"), q("PB"), ["s8", "s9"])
    b.ast()
    bad = "%s || same(s3, s4) || %s || same(s8, s9)" % (anyeq(["s0", "s1", "s2"]), anyeq(["s5", "s6", "s7"]))
    return front.spec_query(ctx, "data_values", front.text(names(10, 1, 4), b, ["BST", "CEX"], bad), front.files("CEX"), unwind=20,
                            about="names of traversal data and enum values")


def q_unique(ctx):
    b = B()
    ns = [b.node(q(x), "f%d" % i) for i, x in enumerate(("na", "nb", "nc"))]
    ps = [b.phase(q(x), None, "g%d" % i, [q("p")]) for i, x in enumerate(("pa", "pb", "pc"))]
    b.pas(q("p"))
    b.ast()
    bad = "(f0 + f1 + f2 != 1) || (g0 + g1 + g2 != 1)"
    after = "    if (!errors) { vf_assert(AST_ROOT_NODE(ast) == (f0 ? %s : f1 ? %s : %s), \"root\"); " % tuple(ns) + \
        "vf_assert(AST_START_PHASE(ast) == (g0 ? %s : g1 ? %s : %s), \"start\"); }\n" % tuple(ps)
    return front.spec_query(ctx, "root_start", front.text(flags("f0", "f1", "f2", "g0", "g1", "g2"), b, ["BST", "CEX"], bad, after=after),
                            front.files("CEX"), unwind=20, about="which nodes are the root and which phases start")


def q_nesting(ctx, k, each):
    """which phases contain which: each of k phases refers to any phases, or to a pass"""
    b, decl = B(), ["bool r[%d][%d] = {0};" % (k, k)]
    for i in range(k):
        acts = []
        for j in range(each):
            decl.append("char n%d_%d[2]; draw_name(n%d_%d, 1, %d);" % (i, j, i, j, k + 1))
            decl += ["if (same(n%d_%d, \"%s\")) r[%d][%d] = true;" % (i, j, "abcdefg"[m], i, m) for m in range(k)]
            acts.append("n%d_%d" % (i, j))
        b.phase(q("abcdefg"[i]), None, "true" if i == 0 else "false", acts)
    b.pas(q("abcdefg"[k]))
    b.node(q("nn"), "true")
    b.ast()
    decl += ["bool bad0 = false;",
             "for (int m = 0; m < %d; m++) for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) if (r[i][m] && r[m][j]) r[i][j] = true;" % (k, k, k),
             "for (int i = 0; i < %d; i++) if (r[i][i]) bad0 = true;" % k]
    return front.spec_query(ctx, "nesting%d_%d" % (k, each), front.text(decl, b, ["BST", "CEX"], "bad0"), front.files("CEX"), unwind=12,
                            max_unwind=12, unwindset=rec(k + 1), about="%d phases, each with %d references to any phase or a pass" % (k, each))


def q_attrflags(ctx):
    b, decl = B(), []
    b.phase(q("mainphase"), q("mp"), "true", [q("mainpass")])
    b.pas(q("mainpass"))
    bad = []

    def at(where, n):
        out = []
        for i in range(n):
            p = "%s%d" % (where, i)
            decl.extend(flags("c_" + p, "i_" + p, "y_" + p, "l_" + p))
            out.append(dict(name=q(p), ctor="c_" + p, inh="i_" + p, syn="y_" + p, life="l_" + p))
            bad.append("(i_%s && y_%s) || (l_%s && (i_%s || y_%s))" % (p, p, p, p, p))
            bad.append("c_" + p if where == "s" else "(c_%s && (i_%s || y_%s))" % (p, p, p))
            if where == "r":
                bad.append("i_" + p)
        return out
    b.nodeset(q("sa"), ("lit", [q("nb")]), at("s", 2))
    b.nodeset(q("sb"), ("lit", [q("nb")]), at("t", 0))
    b.node(q("na"), "true", (), at("r", 3))
    b.node(q("nb"), "false", (), at("n", 2))
    b.node(q("nc"), "false", (), at("m", 2))
    b.ast()
    return front.spec_query(ctx, "attribute_flags", front.text(decl, b, ["BST", "CEX", "CHA"], " || ".join(bad)), front.files("CEX", "CHA"),
                            unwind=20, about="constructor, inherited, synthesized and lifetime markers of the attributes of nodes and nodesets")


def q_setattr(ctx, ops):
    """attributes of nodesets built with & or - (also through references)"""
    b, decl = base(B()), flags("h0", "h1", "h2")
    o = ["o%d" % i for i in range(3)]
    decl += ["int w%d = vf_range(0, 2); enum setoperation_type o%d = w%d == 0 ? SO_iunion : w%d == 1 ? SO_intersect : SO_difference;" % (i, i, i, i) for i in range(3)]
    b.node(q("na"))
    b.node(q("nb"))
    for i, nm in enumerate(("sa", "sb", "sc")):
        e = (o[i], ("lit", [q("na"), q("nb")]), ("lit", [q("nb")]) if i != 2 else ("ref", q("sa")))
        b.nodeset(q(nm), e)
        s = b.top["nodeset"][-1]
        b.out.append("if (h%d) { node_st *a = ASTattribute(); ATTRIBUTE_NAME(a) = mkid(\"x%d\"); ATTRIBUTE_TYPE(a) = AT_int; INODESET_IATTRIBUTES(%s) = a; }" % (i, i, s))
    b.ast()
    bad = " || ".join("(h%d && o%d != SO_iunion)" % (i, i) for i in range(3))
    return front.spec_query(ctx, "set_attributes", front.text(decl, b, ["BST", "CEX", "NCT", "CHA"], bad), front.files("CEX", "NCT", "CHA"),
                            unwind=20, about="which nodesets have attributes, and how they are composed")


TYPES = [("AT_int", None), ("AT_link_or_enum", "nb"), ("AT_link_or_enum", "nB"), ("AT_link_or_enum", "nc"), ("AT_user", "T"), ("AT_user", "t")]
CLASS = [0, 1, 1, 2, 3, 4]


def typ(n):
    """a symbolic type: C declarations and the two expressions"""
    d = ["int ty%d = vf_range(0, %d);" % (n, len(TYPES) - 1)]
    t = r = None
    for i, (a, b) in enumerate(TYPES):
        t = a if t is None else "ty%d == %d ? %s : %s" % (n, i, a, t)
        r = '"int"' if r is None else "ty%d == %d ? %s : %s" % (n, i, q(b), r)
    d.append("int cl%d = %s;" % (n, " : ".join("ty%d == %d ? %d" % (n, i, c) for i, c in enumerate(CLASS[:-1])) + " : %d" % CLASS[-1]))
    return d, t, r


def q_redeclare(ctx, nested):
    """attributes of nodesets that their members declare again"""
    b = base(B())
    b.node(q("nb"))
    b.node(q("nc"))
    if nested:
        decl, (t0, r0), (t1, r1), child = flags("c1"), ("AT_int", None), ("AT_int", None), q("z")
        decl.insert(0, "bool i0 = false, y0 = false, i1 = false, y1 = false; int cl0 = 0, cl1 = 0;")
        decl.append("char s0[2] = \"b\"; char s2[2]; draw_name(s2, 1, 3);")
    else:
        d0, t0, r0 = typ(0)
        d1, t1, r1 = typ(1)
        decl, child = names(2, 1, 3) + flags("i0", "y0", "c1", "i1", "y1") + d0 + d1, "s1"
    bad = ["(i0 && y0)", "(i1 && y1)", "(c1 && (i1 || y1))", "same(s0, %s)" % child,
           "(same(s0, \"a\") && (i0 || y0 || !c1 || i1 || y1 || cl0 != cl1))", "same(%s, \"a\")" % child]
    b.node(q("na"), "false", [(q("nb"), child)], [dict(name="s0", ty=t1, ref=r1, ctor="c1", inh="i1", syn="y1")])
    b.nodeset(q("sa"), ("lit", [q("na")]), [dict(name=q("a"), ty=t0, ref=r0, inh="i0", syn="y0")])
    if nested:
        b.nodeset(q("sb"), ("|", ("ref", q("sa")), ("lit", [q("nc")])), [dict(name="s2")])
        bad += ["same(s2, \"a\")", "(same(s2, s0) && (!c1 || i1 || y1 || cl1 != 0))"]
    b.ast()
    return front.spec_query(ctx, "redeclare" + ("_nested" if nested else ""),
                            front.text(decl, b, ["BST", "CEX", "NCT", "USE", "PRA", "CHA"], " || ".join(bad)),
                            front.files("CEX", "NCT", "USE", "PRA", "CHA"), unwind=20, defines=["HTCAP=8"],
                            about="an attribute of a nodeset%s and an attribute and a child of a member, with any names, types and markers" %
                            (" and of one that includes it" if nested else ""))


KID = {"this": None, "a1": '"a1"', "b1": '"B1"', "z": '"z"'}


def q_rules(ctx, nm, rules, sym_flags):
    """product rules: (child, name) pairs, name None = any; which attributes are inherited or synthesized"""
    b, decl = B(), []
    b.phase(q("mainphase"), None, "true", [q("mainpass")])
    b.pas(q("mainpass"))
    flag = {}
    for f, v in zip(("fr", "fc", "fh", "fi"), sym_flags):
        flag[f] = f if v is None else v
        if v is None:
            decl += flags(f)
    need = [("this", "a", flag["fr"]), ("this", "c", flag["fc"]), ("a1", "b", flag["fh"]), ("b1", "c", flag["fi"])]
    eqs, rs = [], []
    for j, (kid, name) in enumerate(rules):
        if name is None:
            decl.append("char s%d[2]; draw_name(s%d, 1, 4);" % (j, j))
        e = "s%d" % j if name is None else q(name)
        rs.append((kid, e))
        eqs.append(((KID[kid], e), []))
    b.node(q("root"), "true", [(q("na"), q("a1")), (q("nb"), q("b1"))],
           [dict(name=q("a"), syn=flag["fr"]), dict(name=q("c"), syn=flag["fc"]), dict(name=q("d"))], eqs)
    b.node(q("na"), "false", (), [dict(name=q("b"), inh=flag["fh"]), dict(name=q("a"))])
    b.node(q("nb"), "false", (), [dict(name=q("c"), inh=flag["fi"])])
    b.ast()

    def is_(r, n):
        return "(same(%s, %s) && %s)" % (r[1], q(n[1]), n[2]) if r[0] == n[0] else "false"
    bad = ["!(%s)" % " || ".join(is_(r, n) for n in need) for r in rs] + \
        ["(%s && !(%s))" % (n[2], " || ".join([is_(r, n) for r in rs] or ["false"])) for n in need] + \
        ["same(%s, %s)" % (x[1], y[1]) for x, y in itertools.combinations(rs, 2) if x[0] == y[0]]
    return front.spec_query(ctx, "rules_" + nm, front.text(decl, b, ["BST", "CEX", "NCT", "USE", "PRA", "CHA", "CPR"], " || ".join(bad)),
                            front.files("CEX", "NCT", "USE", "PRA", "CHA", "CPR"), unwind=20, defines=["HTCAP=8"],
                            about="product rules for %s, with any of four attributes inherited or synthesized" %
                            ", ".join("%s.%s" % (k, n or "(anything)") for k, n in rules))


def q_args(ctx, nm, args):
    """arguments of a product rule: (child, name) pairs, name None = any"""
    b, decl = B(), []
    b.phase(q("mainphase"), None, "true", [q("mainpass")])
    b.pas(q("mainpass"))
    have = {"this": "ac", "a1": "bd", "b1": "d", "z": ""}
    as_, bad = [], []
    for j, (kid, name) in enumerate(args):
        if name is None:
            decl.append("char s%d[2]; draw_name(s%d, 1, 4);" % (j, j))
        e = "s%d" % j if name is None else q(name)
        as_.append((kid, e))
        bad.append("!" + isin(e, have[kid]) if have[kid] else "true")
    bad += ["same(%s, %s)" % (x[1], y[1]) for x, y in itertools.combinations(as_, 2) if x[0] == y[0]]
    b.node(q("root"), "true", [(q("na"), q("a1")), (q("nb"), q("b1"))], [dict(name=q("a"), syn="true"), dict(name=q("c"))],
           [((None, q("a")), [(KID[k], e) for k, e in as_])])
    b.node(q("na"), "false", (), [dict(name=q("b")), dict(name=q("d"))])
    b.node(q("nb"), "false", (), [dict(name=q("d"))])
    b.ast()
    return front.spec_query(ctx, "arguments_" + nm, front.text(decl, b, ["BST", "CEX", "NCT", "USE", "PRA", "CHA", "CPR"], " || ".join(bad)),
                            front.files("CEX", "NCT", "USE", "PRA", "CHA", "CPR"), unwind=20, defines=["HTCAP=8"],
                            about="a product rule with the arguments %s" % ", ".join("%s.%s" % (k, n or "(anything)") for k, n in args))


def q_memberattrs(ctx):
    """inherited attributes of the members of nodesets"""
    b, decl = B(), flags("ig", "ih", "ig2", "ih2")
    b.phase(q("mainphase"), None, "true", [q("mainpass")])
    b.pas(q("mainpass"))
    b.node(q("root"), "true", [(q("sa"), q("kid"))], (), [((q("kid"), q("g")), [])])
    b.node(q("na"), "false", (), [dict(name=q("h"), inh="ih")])
    b.node(q("nb"), "false", (), [dict(name=q("h"), inh="ih2")])
    b.nodeset(q("sa"), ("lit", [q("na")]), [dict(name=q("g"), inh="ig")])
    b.nodeset(q("sb"), ("lit", [q("nb")]), [dict(name=q("g"), inh="ig2")])
    b.ast()
    return front.spec_query(ctx, "member_attributes", front.text(decl, b, ["BST", "CEX", "NCT", "USE", "PRA", "CHA", "CPR"],
                                                                 "!ig || ih || (ig2 && ih2)"),
                            front.files("CEX", "NCT", "USE", "PRA", "CHA", "CPR"), unwind=20, defines=["HTCAP=8"],
                            about="which attributes of nodesets and their members are inherited")


def q_lifekinds(ctx):
    """lifetimes are for strings and links"""
    b, decl, bad, at = B(), [], [], []
    b.pas(q("a"))
    b.phase(q("start"), None, "true", [q("a")])
    ts = ["AT_int", "AT_string", "AT_link_or_enum", "AT_bool", "AT_user"]
    for i in range(3):
        decl += ["int t%d = vf_range(0, %d);" % (i, len(ts) - 1), "bool l%d = vf_bool();" % i]
        e = " : ".join("t%d == %d ? %s" % (i, k, x) for k, x in enumerate(ts[:-1])) + " : " + ts[-1]
        decl.append("char r%d[2]; draw_name(r%d, 1, 11); vf_assume(%s);" % (i, i, isin("r%d" % i, "ijk")))
        at.append(dict(name=q("x%d" % i), ty=e, ref="r%d" % i, life="l%d" % i))
        # i is an enum, j a node, k a nodeset
        bad.append("(l%d && !(t%d == 1 || (t%d == 2 && %s)))" % (i, i, i, isin("r%d" % i, "jk")))
    b.enum(q("i"), q("PF"), [q("v")])
    b.node(q("j"), "true", (), at[:2])
    b.nodeset(q("k"), ("lit", [q("j")]))
    b.node(q("n"), "false", (), at[2:])
    b.ast()
    stages = ["BST", "CEX", "CHA", "CLT"]
    return front.spec_query(ctx, "lifetime_kinds", front.text(decl, b, stages, " || ".join(bad)), front.files(*stages[1:]), unwind=20,
                            defines=["HTCAP=8"], about="lifetimes of attributes of any type")


LT = {"disallowed": "LT_disallowed", "mandatory": "LT_mandatory", "optional": "LT_optional", "allowed": "LT_allowed"}


def q_lifetime(ctx, nm, where, kind, path, end=False):
    """what the target of a lifetime names; None in the path = anything"""
    b, decl = B(), []
    b.pas(q("a"), q("f"))
    b.trav(q("b"), q("g"))
    b.pas(q("e"))
    b.phase(q("c"), q("h"), "false", [q("a"), q("d"), q("b")])
    b.phase(q("d"), None, "false", [q("e")])
    b.phase(q("start"), None, "true", [q("d"), q("c")])
    tree = {"start": ["d", "c"], "d": ["e"], "c": ["a", "d", "b"]}
    uid = {"a": "f", "b": "g", "c": "h"}

    def under(p):
        out = []
        for x in tree.get(p, []):
            out += [x] + under(x)
        return sorted(set(out))

    def name(x, n):
        return isin(n, [x] + ([uid[x]] if x in uid else []))
    ps = []
    for i, x in enumerate(path):
        if x is None:
            decl.append("char s%d[2]; draw_name(s%d, 1, 9);" % (i, i))
        ps.append("s%d" % i if x is None else q(x))

    def res(p, i):
        return "(" + (" || ".join("(%s && %s)" % (name(x, ps[i]), res(x, i + 1) if i + 1 < len(ps) else "true") for x in under(p)) or "false") + ")"
    n = b.node(q("j"), "true", [(q("j"), q("kid"))], [dict(name=q("x"), ty="AT_string")])
    b.out += ["node_st *life = ASTilifetime(); ILIFETIME_TYPE(life) = %s;" % LT[kind],
              "node_st *range = ASTlifetime_range(); node_st *t0 = mkid(%s); LIFETIME_RANGE_TARGET(range) = t0;" % ps[0]]
    for i, e in enumerate(ps[1:]):
        b.out.append("node_st *t%d = mkid(%s); ID_NEXT(t%d) = t%d;" % (i + 1, e, i, i + 1))
    b.out += ["ILIFETIME_%s(life) = range;" % ("END" if end else "BEGIN"),
              {"node": "INODE_LIFETIMES(%s) = life;", "child": "CHILD_LIFETIMES(INODE_ICHILDREN(%s)) = life;",
               "attribute": "ATTRIBUTE_LIFETIMES(INODE_IATTRIBUTES(%s)) = life;"}[where] % n]
    bad = ["!" + res("start", 0)] + (["true"] if where == "node" and kind in ("mandatory", "optional") else [])
    b.ast()
    stages = ["BST", "CEX", "CHA", "CLT", "AITA", "MITL"]
    t = open(front.F + "lifetimes/map_id_to_lifetimes.c").read()
    us = ["CountActions:4", "CountActions.0:4"] if "CountActions(" in t else []
    return front.spec_query(ctx, "lifetime_" + nm, front.text(decl, b, stages, " || ".join(bad)), front.files(*stages[1:]), unwind=20, unwindset=us + ["find.0:8"],
                            defines=["HTCAP=8"], about="a %s lifetime (%s) that targets %s" % (where, kind, ".".join(x or "(anything)" for x in path)))


def run(ctx):
    rnd = random.Random(ctx.seed)
    qs = [q_names(ctx, rnd, 7 if not ctx.thorough else 9, "names%d" % i) for i in range(2 if not ctx.thorough else 8)]
    qs += [q_reserved(ctx, w) for w in ("uid", "prefix", "name", "node")]
    qs += [q_actions(ctx, True), q_actions(ctx, False), q_refs(ctx, [1, 2, 3]), q_refs(ctx, [4, 10, 11]), q_refs(ctx, [5, 6]), q_refs(ctx, [7, 8])]
    qs += [q_members(ctx, 0), q_members(ctx, 1), q_members2(ctx), q_unique(ctx), q_nesting(ctx, 2, 1), q_nesting(ctx, 3, 1), q_nesting(ctx, 2, 2), q_attrflags(ctx), q_setattr(ctx, None)]
    qs += [q_redeclare(ctx, False), q_redeclare(ctx, True), q_memberattrs(ctx)] + [q_lifekinds(ctx)]
    qs += [q_rules(ctx, "flags", [("this", "a"), ("a1", "b")], (None,) * 4), q_rules(ctx, "this", [("this", None)], ("true", "false", "true", "false")),
           q_rules(ctx, "child", [("a1", None)], (None, "false", "true", "true")), q_rules(ctx, "two", [("a1", None), ("a1", "b")], ("false", "false", "true", "false"))]
    qs += [q_args(ctx, "this", [("this", None), ("a1", "b")]), q_args(ctx, "child", [("a1", None)]), q_args(ctx, "two", [("a1", None), ("a1", None)]), q_args(ctx, "none", [("z", None)])]
    qs += [q_lifetime(ctx, "node", "node", "allowed", [None]), q_lifetime(ctx, "child", "child", "optional", ["c", None], True),
           q_lifetime(ctx, "attribute", "attribute", "mandatory", ["h", None]), q_lifetime(ctx, "deep", "attribute", "disallowed", ["c", "d", None], True), q_lifetime(ctx, "kind", "node", "optional", ["d"])]
    import os
    if os.environ.get("VF_ONLY"):
        qs = [x for x in qs if any(x.name.startswith(y) for y in os.environ["VF_ONLY"].split(","))]
    ctx.run_all(qs)
    ctx.bounds = ["names in conflict queries: %d declarations with names of one of four letters in either case; reserved words: every identifier of up to 4 characters" % (7 if not ctx.thorough else 9),
                  "references: one to three at a time (see the queries) range over every declared name in either case, a uid and undeclared names",
                  "nesting of phases: 2-3 phases with 1-2 references; equations: 1-2 product rules, 1-2 arguments on fixed children with any attribute name; "
                  "lifetime targets: 1-3 components of which one is any name",
                  "markers (root, start, constructor, inherited, synthesized, lifetime), types and set operators are symbolic where the query says so"]
    ctx.assumptions = ["allocation does not fail", "the specification arrives as the tree of node constructors that the parser's actions build (the parser itself is not encoded)",
                       "strings and hash tables follow the contracts of C01, C03 and C04 (harness/front/*model.c) in CBMC; counterexamples are replayed with the real ones",
                       "CTI messages are counted, and a stage that ends with errors ends the compiler"]
    return ctx.finish("model_checking", ["BSTast.. (buildsymboltable.c)", "CEXast.. (check_existance.c)", "NCT, USE, PRA (nodesets)", "CHA (check_attributes.c)",
                                         "CPR (check_product_rules.c)", "CLT, AITA, MITL (lifetimes)", "STadd, STlookup", "SET operations", "cocogen's own constructors, TRAVdo and TRAVchildren"],
                      "CBMC executes the semantic checks of cocogen, in the order the compiler runs them, on specifications whose names, references and markers are symbolic; "
                      "an error must be reported exactly when the rule written next to the query in this file says the specification is ill-formed")
