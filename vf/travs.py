"""Traversal harnesses: generated vtables and child functions (C16), the traversal stack (C07), traversal data (C19)."""
import random
from . import dsl, trees
from .dsl import Trav as T, Child as C, Attr as A, Node as N, Nodeset, Enum, Spec, lit, ref, op
from .trees import Sk, acc, nt, PRE, stubs


def targets(spec, t):
    return spec.evalset(t.nodes) if t.nodes else {n.name.lower() for n in spec.nodes}


def tname(t):
    return "TRAV_" + t.uid.upper()


# ---------------------------------------------------------------------- C16
def paths(spec, t):
    """for every node type and every child slot below which a target can be reached through non-target nodes: a tree
    with the shortest such path in that slot; and for the others a tree with something in the slot"""
    tg = targets(spec, t)
    dist = {n: 0 for n in tg}

    def full(n, d=0):
        # a node with its children left out
        return Sk(spec.node(n), [None] * len(spec.node(n).children))

    def best(n):
        """shortest chain from node type n to a target"""
        n = n.lower()
        node = spec.node(n)
        if n in tg:
            return full(n)
        seen, todo = {n}, [(n, [])]
        while todo:
            x, path = todo.pop(0)
            for i, c in enumerate(spec.node(x).children):
                for y in spec.allowed(c):
                    if y in tg:
                        sk = full(y)
                        for (p, j) in reversed(path + [(x, i)]):
                            k = full(p)
                            k.kids[j] = sk
                            sk = k
                        return sk
                    if y not in seen:
                        seen.add(y)
                        todo.append((y, path + [(x, i)]))
        return None
    out = []
    for n in spec.nodes:
        for i, c in enumerate(n.children):
            for y in spec.allowed(c):
                b = best(y)
                sk = full(n.name)
                sk.kids[i] = b if b else full(y)
                out.append((bool(b), sk))
        if not n.children:
            out.append((n.name.lower() in tg, full(n.name)))
    return out


def h_reach(spec, jobs, explicit):
    """jobs: list of (traversal, skeleton)"""
    travs = []
    for t, _ in jobs:
        if t not in travs:
            travs.append(t)
    skip = [t.uid.upper() + n for t in travs for n in targets(spec, t)]
    skip += [spec_fn for t in travs for spec_fn in ([t.uid.upper() + "init", t.uid.upper() + "fini"] if t.data else [])]
    o = [PRE, stubs(spec, set(skip)), "#define MAXN 12\nstatic node_st *nd[MAXN];\nstatic bool go[MAXN], want[MAXN], seen[MAXN];\n"
         "static int n_nd, last;\nstatic enum ccn_traversal_type running;\nstatic node_st *visit(enum ccn_traversal_type t, enum ccn_nodetype type, node_st *n)\n{\n"
         "    vf_assert(n != NULL && t == running, \"a user function is called for a node by its own traversal\");\n"
         "    vf_assert(NODE_TYPE(n) == type, \"the function of the node's type is called\");\n"
         "    vf_assert(TRAVgetCurrent() != NULL && TRAVgetCurrent()->trav_type == t, \"the running traversal is the current one\");\n"
         "    for (int i = 0; i < n_nd; i++) if (nd[i] == n) {\n"
         "        vf_assert(!seen[i], \"a node is visited once\");\n"
         "        vf_assert(want[i], \"only target nodes reached through traversed parents are visited\");\n"
         "        vf_assert(i > last, \"children are visited in declaration order, after their parent\");\n"
         "        last = i; seen[i] = true;\n        if (go[i]) descend(n);\n        return n;\n    }\n"
         "    vf_assert(0, \"only nodes of the tree are visited\");\n    return n;\n}\n"]
    d = ["static void descend(node_st *n)\n{"]
    if explicit:
        d.append("    switch (NODE_TYPE(n)) {")
        for n in spec.nodes:
            d.append("    case %s: %s break;" % (nt(n), " ".join("TRAV%s(n);" % c.name for c in n.children)))
        d.append("    default: break;\n    }")
        o[0] += '#include "ccngen/trav.h"\n'
    else:
        d.append("    TRAVchildren(n);")
    d.append("}")
    o.insert(1, "\n".join(d))
    for t in travs:
        for n in sorted(targets(spec, t)):
            o.append("node_st *%s%s(node_st *n) { return visit(%s, %s, n); }" % (t.uid.upper(), n, tname(t), nt(spec.node(n))))
        if t.data:
            for x in ("init", "fini"):
                o.append("void %s%s(void) { }" % (t.uid.upper(), x))
    body = []
    for j, (t, sk) in enumerate(jobs):
        tg = targets(spec, t)
        sk.number("n%d_" % j)
        o.append("static void job%d(void)\n{" % j)
        nodes = list(sk.walk())
        for s in reversed(nodes):
            args = []
            for p in spec.ctor_params(s.node):
                args.append("0" if isinstance(p, A) else (s.kids[s.node.children.index(p)].v if s.kids[s.node.children.index(p)] else "NULL"))
            o.append("    node_st *%s = AST%s(%s);" % (s.v, s.node.name.lower(), ", ".join(args)))
            for c, kd in zip(s.node.children, s.kids):
                if not c.ctor and kd:
                    o.append("    %s = %s;" % (acc(s.node, c, s.v), kd.v))
        par = {}
        for s in nodes:
            for k in s.kids:
                if k:
                    par[k] = s
        o.append("    last = -1; n_nd = %d; running = %s;" % (len(nodes), tname(t)))
        for i, s in enumerate(nodes):
            o.append("    nd[%d] = %s; go[%d] = vf_bool(); seen[%d] = false;" % (i, s.v, i, i))
        for i, s in enumerate(nodes):
            conds, a = [], par.get(s)
            while a:
                if a.node.name.lower() in tg:
                    conds.append("go[%d]" % nodes.index(a))
                a = par.get(a)
            o.append("    want[%d] = %s;" % (i, " && ".join(conds) or "true") if s.node.name.lower() in tg else "    want[%d] = false;" % i)
        o.append("    vf_assert(TRAVstart(%s, %s) == %s, \"the traversal returns what the user functions return\");" % (sk.v, tname(t), sk.v))
        o.append("    for (int i = 0; i < n_nd; i++) vf_assert(seen[i] == want[i], \"every target node below traversed parents is visited\");")
        for s in nodes:
            for c, kd in zip(s.node.children, s.kids):
                o.append("    vf_assert(%s == %s, \"children are unchanged\");" % (acc(s.node, c, s.v), kd.v if kd else "NULL"))
        o.append("    vf_assert(TRAVgetCurrent() == NULL, \"no traversal is left running\");\n}")
        body.append("    job%d();" % j)
    o.append("void harness(void)\n{\n%s\n    vf_reach();\n}" % "\n".join(body))
    return "\n".join(o) + "\n"


def with_travs(mk, name, travs):
    s = mk(acts=list(travs))
    s.name = name
    return s


def reach_specs(rnd, n):
    out = [
        with_travs(trees.mix, "mix", [T("tnum", "AAA", lit("num")), T("all", "BBB"), T("vars", "CCC", op("-", ref("expr"), lit("Binop", "num"))),
                                      T("Two", "ddd", op("|", lit("EMPTY"), op("&", ref("leafs"), ref("expr"))))]),
        with_travs(trees.rec, "rec", [T("lf", "AAA", lit("leaf")), T("tw", "BBB", lit("twig")), T("ch", "CCC", lit("chain", "top")),
                                      T("l1", "DDD", lit("link1")), T("an", "EEE", op("-", ref("any"), lit("leaf", "link2")), data=[("int", "x")])]),
    ]
    for i in range(n):
        def mk(acts=()):
            return trees.rnd_spec(rnd, "rnd%d" % i, acts=acts)
        base = None
        # draw a specification first, then target sets over its nodes and sets
        st = rnd.getstate()
        base = trees.rnd_spec(rnd, "rnd%d" % i)
        names = [x.name for x in base.nodes]
        sets = [x.name for x in base.of(Nodeset)]
        tv = []
        for k in range(4):
            e = lit(*rnd.sample(names, rnd.randint(1, min(2, len(names)))))
            r = rnd.random()
            if r < .3:
                e = ref(rnd.choice(sets))
            elif r < .6:
                e = op(rnd.choice("|&-"), ref(rnd.choice(sets)), e)
            if not base.evalset(e):
                e = lit(rnd.choice(names))
            tv.append(T("tv%d" % k, "U%s" % "ABCD"[k], None if k == 3 and rnd.random() < .5 else e))
        base.items[0] = trees.main_phase(*tv)
        out.append(base)
    return out


# ---------------------------------------------------------------------- C07 / C19
def stack_spec(name, seedy=0):
    """two traversals with data, one of them over some node types only"""
    data1 = [("int", "tag"), ("string", "s"), ("leaf", "l"), ("bool", "b"), (("user", "uptr"), "u"), ("hue", "h"), ("double", "d"), ("uint8", "u8"),
             (("user", "uval"), "uv")]
    data2 = [("uint64", "tag"), ("twig", "Tw"), ("float", "f"), ("int8", "i8"), ("bool", "Flag")]
    if seedy:
        data1, data2 = data2, data1
    acts = [T("first", "ONE", data=data1), T("second", "two", op("|", lit("top"), lit("leaf", "link2")), data=data2), T("plain", "PPP", lit("leaf", "twig"))]
    if seedy:
        acts.reverse()
    s = trees.rec(Enum("hue", "HUE", ["dark", "light"]), acts=acts)
    s.name = name
    return s


def zero(spec, t):
    return "NULL" if t == "string" or spec.akind(t) == "link" else "false" if t == "bool" else "0"


def h_stack(spec, sk, sk2, inner, mode):
    """the outer traversal runs over sk; user functions choose symbolically between leaving out children, traversing
    them, returning NULL or another node, and starting the inner traversal over sk2 before or after. mode: which outer"""
    travs = spec.of(T)
    skip = [t.uid.upper() + x for t in travs for x in [spec.node(n).name for n in targets(spec, t)] + ["init", "fini"]]
    skip += [t.uid.upper() + n for t in travs for n in targets(spec, t)]
    o = [PRE + '#include "ccngen/trav_data.h"\n', stubs(spec, set(skip))]
    o.append('''
#define MAXN 10
struct run { enum ccn_traversal_type type; unsigned tag; int inits, finis; ccn_trav_st *st; struct run *up; };
static struct run runs[4];
static struct run *cur;          /* what the harness believes to be running */
static node_st *nd[2][MAXN], *repl;
static int n_nd[2], last[2], op_[2][MAXN];
static bool seen[2][MAXN], want[2][MAXN], nestb[MAXN], nesta[MAXN];
static node_st *visit(enum ccn_traversal_type t, enum ccn_nodetype type, node_st *n);
static void check_state(void)
{
    vf_assert(TRAVgetCurrent() != NULL && TRAVgetCurrent()->trav_type == cur->type, "the innermost running traversal is the current one");
    vf_assert(TRAVgetCurrent() == cur->st, "the current traversal is the same object throughout its run");
    vf_assert(cur->inits == HAS_INIT(cur->type) && cur->finis == 0, "data is initialised once at the start and not yet released");
    vf_assert(tag_of(cur->type) == cur->tag, "a traversal sees its own data");
}
static void start(int slot, enum ccn_traversal_type t, int tree, bool first)
{
    struct run *r = &runs[slot];
    r->type = t; r->inits = 0; r->finis = 0; r->st = NULL; r->up = cur; r->tag = HAS_INIT(t) ? (unsigned)vf_range(1, 100) : 0;
    cur = r;
    last[tree] = -1;
    for (int i = 0; i < n_nd[tree]; i++) seen[tree][i] = false;
    node_st *root = nd[tree][0];
    node_st *res = TRAVstart(root, t);
    vf_assert(!want[tree][0] || tree == 1 || res == (op_[tree][0] == 2 ? NULL : op_[tree][0] == 3 ? repl : root), "a traversal returns the result for the root");
    if (tree == 1) vf_assert(res == root, "a traversal returns the tree if the root is not replaced");
    for (int i = 0; i < n_nd[tree]; i++) if (WANTED(t, tree, i)) vf_assert(seen[tree][i] == want[tree][i], "exactly the nodes below traversed parents are visited");
    vf_assert(r->inits == HAS_INIT(t) && r->finis == HAS_INIT(t), "data is initialised and released exactly once");
    cur = r->up;
    if (cur == NULL) vf_assert(TRAVgetCurrent() == NULL, "nothing runs after the outermost traversal");
    else check_state();
}
''')
    o.append("static node_st *visit(enum ccn_traversal_type t, enum ccn_nodetype type, node_st *n)\n{\n"
             "    vf_assert(cur != NULL && t == cur->type, \"the functions of the innermost traversal are called\");\n"
             "    if (cur->st == NULL) cur->st = TRAVgetCurrent();\n"
             "    vf_assert(n != NULL && NODE_TYPE(n) == type, \"the function of the node's type is called\");\n    check_state();\n"
             "    int tree = cur->up != NULL;\n"
             "    for (int i = 0; i < n_nd[tree]; i++) if (nd[tree][i] == n) {\n"
             "        vf_assert(!seen[tree][i] && want[tree][i], \"a node is visited once, below traversed parents\");\n"
             "        vf_assert(i > last[tree], \"children are visited in declaration order\");\n"
             "        last[tree] = i; seen[tree][i] = true;\n"
             "        if (tree == 0 && nestb[i]) start(1, INNER(i), 1, false);\n"
             "        if (op_[tree][i] == 1) { vf_assert(TRAVchildren(n) == n, \"the default child traversal returns its node\"); after(tree, i); }\n"
             "        if (tree == 0 && nesta[i]) start(1, INNER(i + 1), 1, false);\n"
             "        check_state();\n"
             "        if (tree == 1) return n;\n"
             "        return op_[tree][i] == 2 ? NULL : op_[tree][i] == 3 ? repl : n;\n    }\n"
             "    vf_assert(0, \"only nodes of the tree are visited\");\n    return n;\n}\n")
    # tag_of, HAS_INIT, WANTED, after
    pre = []
    pre.append("static unsigned tag_of(enum ccn_traversal_type t)\n{\n    switch (t) {")
    for t in travs:
        if t.data:
            pre.append("    case %s: return (unsigned)TRAVgetCurrent()->trav_data.%s->tag;" % (tname(t), t.name))
    pre.append("    default: return 0;\n    }\n}")
    pre.append("#define HAS_INIT(t) (%s)" % (" || ".join("(t) == %s" % tname(t) for t in travs if t.data)))
    order = [travs[(mode + k) % len(travs)] for k in range(len(travs))]
    outer = order[0]
    ins = [inner, outer]
    pre.append("#define INNER(i) ((i) % 2 ? " + tname(ins[0]) + " : " + tname(ins[1]) + ")")
    o.insert(1, "\n".join(pre) + "\nstatic void after(int tree, int i);\nstatic bool WANTED(enum ccn_traversal_type t, int tree, int i);\n")
    for t in travs:
        for n in sorted(targets(spec, t)):
            o.append("node_st *%s%s(node_st *n) { return visit(%s, %s, n); }" % (t.uid.upper(), n, tname(t), nt(spec.node(n))))
        if t.data:
            o.append("void %sinit(void)\n{\n    vf_assert(cur != NULL && cur->type == %s, \"data is initialised for the traversal that starts\");\n"
                     "    vf_assert(TRAVgetCurrent() != NULL && TRAVgetCurrent()->trav_type == %s, \"the starting traversal is current in its initialiser\");"
                     % (t.uid.upper(), tname(t), tname(t)))
            for ty, nm in t.data:
                o.append("    vf_assert(DATA_%s_GET()->%s == %s, \"traversal data item %s starts at its default\");" % (t.uid.upper(), nm, zero(spec, ty), nm))
            o.append("    for (struct run *r = cur->up; r; r = r->up) vf_assert(r->type != %s || DATA_%s_GET() != r->st->trav_data.%s, \"a nested run has its own data\");"
                     % (tname(t), t.uid.upper(), t.name))
            o.append("    cur->inits++; cur->st = TRAVgetCurrent(); DATA_%s_GET()->tag = cur->tag;" % t.uid.upper())
            for k, (ty, nm) in enumerate(t.data):
                if nm != "tag":
                    v = {"link": "repl", "string": "(char *)&opaque_a", "user": "(void *)&opaque_a" if "ptr" in str(ty) else "(long)cur->tag", "bool": "true"}.get(spec.akind(ty), "(cur->tag %% 7 + %d)" % k)
                    o.append("    DATA_%s_GET()->%s = %s;" % (t.uid.upper(), nm, v))
            o.append("}")
            o.append("void %sfini(void)\n{\n    vf_assert(cur != NULL && cur->type == %s, \"data is released for the traversal that ends\");\n"
                     "    check_state();" % (t.uid.upper(), tname(t)))
            for k, (ty, nm) in enumerate(t.data):
                if nm != "tag":
                    v = {"link": "repl", "string": "(char *)&opaque_a", "user": "(void *)&opaque_a" if "ptr" in str(ty) else "(long)cur->tag", "bool": "true"}.get(spec.akind(ty), "(cur->tag %% 7 + %d)" % k)
                    o.append("    vf_assert(DATA_%s_GET()->%s == %s, \"traversal data item %s keeps its value\");" % (t.uid.upper(), nm, v, nm))
            o.append("    cur->finis++;\n}")
    body = []
    leaf = min(spec.nodes, key=lambda n: len(spec.ctor_params(n)))
    decl = []
    sk.number("m")
    sk2.number("q")
    for tree, s0 in ((0, sk), (1, sk2)):
        nodes = list(s0.walk())
        par = {}
        for s in nodes:
            for k in s.kids:
                if k:
                    par[k] = s
        for s in nodes:
            decl.append("static node_st *%s;" % s.v)
        for s in reversed(nodes):
            args = []
            for p in spec.ctor_params(s.node):
                args.append("0" if isinstance(p, A) else (s.kids[s.node.children.index(p)].v if s.kids[s.node.children.index(p)] else "NULL"))
            body.append("    %s = AST%s(%s);" % (s.v, s.node.name.lower(), ", ".join(args)))
            for c, kd in zip(s.node.children, s.kids):
                if not c.ctor and kd:
                    body.append("    %s = %s;" % (acc(s.node, c, s.v), kd.v))
        body.append("    n_nd[%d] = %d;" % (tree, len(nodes)))
        for i, s in enumerate(nodes):
            body.append("    nd[%d][%d] = %s; op_[%d][%d] = (int)vf_range(0, %d);" % (tree, i, s.v, tree, i, 1 if tree else 3))
            if tree == 0:
                body.append("    nestb[%d] = %s; nesta[%d] = %s;" % (i, "vf_bool()" if i % 3 == 0 else "false", i, "vf_bool()" if i % 3 == 1 else "false"))
    after = ["static void after(int tree, int i)\n{\n    switch (tree * MAXN + i) {"]
    for tree, s0 in ((0, sk), (1, sk2)):
        nodes = list(s0.walk())
        for i, s in enumerate(nodes):
            after.append("    case %d * MAXN + %d:" % (tree, i))
            for c, kd in zip(s.node.children, s.kids):
                if kd is None:
                    after.append("        vf_assert(%s == NULL, \"absent children stay absent\");" % acc(s.node, c, s.v))
                else:
                    ki = nodes.index(kd)
                    e = kd.v if tree else "(!WANTED(cur->type, 0, %d) ? %s : op_[0][%d] == 2 ? NULL : op_[0][%d] == 3 ? repl : %s)" % (ki, kd.v, ki, ki, kd.v)
                    after.append("        vf_assert(%s == %s, \"the result of a child's function replaces it\");" % (acc(s.node, c, s.v), e))
            after.append("        break;")
    after.append("    }\n}")
    # want depends on the traversal kind for the inner tree: recomputed per start
    w = ["static bool WANTED(enum ccn_traversal_type t, int tree, int i)\n{\n    switch (t) {"]
    for t in travs:
        tg = targets(spec, t)
        w.append("    case %s: switch (tree * MAXN + i) {" % tname(t))
        for tree, s0 in ((0, sk), (1, sk2)):
            for i, s in enumerate(s0.walk()):
                w.append("        case %d * MAXN + %d: return %s;" % (tree, i, "true" if s.node.name.lower() in tg else "false"))
        w.append("        } break;")
    w.append("    default: break;\n    }\n    return false;\n}")
    wt = ["static void wants(enum ccn_traversal_type t, int tree)\n{"]
    for tree, s0 in ((0, sk), (1, sk2)):
        nodes = list(s0.walk())
        wt.append("    if (tree == %d) {" % tree)
        for i, s in enumerate(nodes):
            p = [x for x in nodes if s in x.kids]
            if not p:
                wt.append("        bool r%d = true;" % i)
            else:
                pi = nodes.index(p[0])
                wt.append("        bool r%d = r%d && (!WANTED(t, %d, %d) || op_[%d][%d] == 1);" % (i, pi, tree, pi, tree, pi))
            wt.append("        want[%d][%d] = r%d && WANTED(t, %d, %d);" % (tree, i, i, tree, i))
        wt.append("    }")
    wt.append("}")
    txt = "\n".join(o)
    txt = txt.replace("static void start(int slot", "\n".join(w + wt) + "\nstatic void start(int slot").replace("    last[tree] = -1;", "    wants(t, tree);\n    last[tree] = -1;")
    txt += "\n" + "\n".join(decl + after)
    txt += "\nvoid harness(void)\n{\n    repl = AST%s(%s);\n" % (leaf.name.lower(), ", ".join("0" for _ in spec.ctor_params(leaf)))
    txt += "\n".join(body) + "\n    start(0, %s, 0, true);\n    vf_reach();\n}\n" % tname(outer)
    return txt


# ---------------------------------------------------------------------- C19
DTYPES = trees.ALLP + ["string", "hue", "leaf", "Top", ("user", "uptr"), ("user", "uval")]


def data_spec(rnd, name, ntrav=3):
    names = ["a", "B", "val", "data_x", "nod", "prev", "x2", "Zed", "trav", "i"]
    tv = []
    for k in range(ntrav):
        ns = rnd.sample(names, rnd.randint(1, 7))
        tv.append(T(["walk", "Scan", "third", "fourth"][k], ["WLK", "scn", "Thr", "FOU"][k], None if k != 1 else lit("leaf", "mid"),
                    data=[(rnd.choice(DTYPES), n) for n in ns]))
    tv.insert(rnd.randint(0, ntrav), T("nodata", "NOD"))
    return Spec(name, [trees.main_phase(*tv), Enum("hue", "HUE", ["dark", "light"]),
                       N("top", [C("m", "mid", True)], root=True), N("mid", [C("l", "leaf", True)]), N("leaf")])


def h_data(spec):
    """every traversal over leaf nodes; nested runs of the same and another traversal"""
    travs = spec.of(T)
    withd = [t for t in travs if t.data]
    skip = [t.uid.upper() + x for t in travs for x in list(targets(spec, t)) + ["init", "fini"]]
    o = [PRE + '#include "ccngen/trav_data.h"\n', stubs(spec, set(skip)),
         "static int depth, inits[3], finis[3];\nstatic void *block[3];\nstatic node_st *leafs[2], *tops[2];\nstatic char chars[2];\n"]

    def ctype(t):
        return spec.ctype(t)

    def dr(t):
        if spec.akind(t) == "link":
            return "(vf_bool() ? leafs[0] : NULL)"
        return draw_t(t)

    def draw_t(t):
        return trees.draw(spec, A("x", t), ("NULL", "leafs[0]"), ("NULL", "&chars[0]", "&chars[1]"))
    for t in withd:
        u = t.uid.upper()
        o.append("static struct { %s } %s_v[3];" % (" ".join("%s %s;" % (ctype(ty), n) for ty, n in t.data), u))
        o.append("static void %s_check(void)\n{\n    vf_assert(TRAVgetCurrent() && TRAVgetCurrent()->trav_type == %s && (void *)DATA_%s_GET() == block[depth], \"a run keeps its own data block\");"
                 % (u, tname(t), u))
        for ty, n in t.data:
            o.append("    vf_assert(DATA_%s_GET()->%s == %s_v[depth].%s, \"data item %s of %s keeps its value\");" % (u, n, u, n, n, t.name))
        o.append("}")
        o.append("void %sinit(void)\n{\n    vf_assert(TRAVgetCurrent() && TRAVgetCurrent()->trav_type == %s, \"the starting traversal is current in its initialiser\");\n"
                 "    vf_assert(inits[depth] == 0 && finis[depth] == 0, \"the initialiser runs once, first\");\n    inits[depth]++;\n    block[depth] = DATA_%s_GET();\n"
                 "    vf_assert(block[depth] != NULL, \"a run has a data block\");\n"
                 "    for (int d = 0; d < depth; d++) vf_assert(block[d] != block[depth], \"a nested run has its own data block\");" % (u, tname(t), u))
        for ty, n in t.data:
            o.append("    vf_assert(DATA_%s_GET()->%s == %s, \"data item %s of %s starts at its default\");" % (u, n, zero(spec, ty), n, t.name))
        for ty, n in t.data:
            o.append("    %s_v[depth].%s = %s; DATA_%s_GET()->%s = %s_v[depth].%s;" % (u, n, dr(ty), u, n, u, n))
        o.append("}")
        o.append("void %sfini(void)\n{\n    vf_assert(inits[depth] == 1 && finis[depth] == 0, \"the finaliser runs once, last\");\n    %s_check();\n    finis[depth]++;\n}" % (u, u))
    o.append("static void start(enum ccn_traversal_type t, node_st *n, bool has)\n{\n    depth++;\n    inits[depth] = finis[depth] = 0;\n"
             "    vf_assert(TRAVstart(n, t) == n, \"the traversal returns the tree\");\n"
             "    vf_assert(inits[depth] == has && finis[depth] == has, \"initialiser and finaliser run exactly once\");\n    depth--;\n}")
    for k, t in enumerate(travs):
        u = t.uid.upper()
        other = withd[(withd.index(t) + 1) % len(withd)] if t in withd else withd[0]
        for n in sorted(targets(spec, t)):
            b = []
            if t.data:
                b.append("%s_check();" % u)
            b.append("vf_assert(inits[depth] == %d && finis[depth] == 0, \"user functions run between initialiser and finaliser\");" % (1 if t.data else 0))
            if n == "leaf":
                b.append("if (depth == 0 && vf_bool()) start(%s, leafs[1], %s);" % (tname(t), "true" if t.data else "false"))
                b.append("if (depth == 0 && vf_bool()) start(%s, leafs[1], true);" % tname(other))
                if t.data:
                    b.append("switch (vf_range(0, %d)) {" % len(t.data))
                    for j, (ty, dn) in enumerate(t.data):
                        b.append("case %d: %s_v[depth].%s = %s; DATA_%s_GET()->%s = %s_v[depth].%s; break;" % (j, u, dn, dr(ty), u, dn, u, dn))
                    b.append("}")
            else:
                b.append("TRAVchildren(n);")
            if t.data:
                b.append("%s_check();" % u)
            b.append("return n;")
            o.append("node_st *%s%s(node_st *n)\n{\n    %s\n}" % (u, n, "\n    ".join(b)))
    o.append("void harness(void)\n{\n    depth = -1;\n    for (int i = 0; i < 2; i++) { leafs[i] = ASTleaf(); tops[i] = ASTtop(ASTmid(leafs[i])); }")
    for t in travs:
        o.append("    start(%s, tops[0], %s);" % (tname(t), "true" if t.data else "false"))
    o.append("    vf_assert(TRAVgetCurrent() == NULL, \"nothing runs at the end\");\n    vf_reach();\n}")
    return "\n".join(o) + "\n"
