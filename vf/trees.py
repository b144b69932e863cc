"""Corpus of node declarations, concrete tree skeletons over them, and C text that builds and inspects trees."""
import random
import threading
from . import dsl
from .dsl import Enum, Nodeset, Child as C, Attr as A, Node as N, Trav as T, Pass, Phase, Spec, Life, lit, ref, op

USER_TYPES = "typedef long uval;\ntypedef struct opaque *uptr;\n"
ALLP = ["bool", "string", "int", "float", "double", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]

SPLIT = threading.Lock()


def main_phase(*acts):
    return Phase("main", list(acts) or [Pass("nothing")], start=True)


def mix(*extra, acts=()):
    return Spec("mix", [main_phase(*acts)] + list(extra) + [
        Enum("colour", "COL", ["red", "green", "blue"]),
        N("prog", [C("body", "stmts", True), C("Val", "expr"), C("last", "num", True)],
          [A("Count", "int", True), A("name", "string", True), A("flag", "bool"), A("f", "float"), A("d", "double", True),
           A("color", "colour", True), A("lnk", "num"), A("up", ("user", "uptr"), True), A("uv", ("user", "uval"))], root=True),
        N("stmts", [C("stmt", "stmt", True), C("next", "stmts", True)]),
        N("assign", [C("lhs", "var", True), C("rhs", "expr", True)], [A("op", "string"), A("line", "uint32", True)]),
        N("ifst", [C("cond", "expr", True), C("then", "stmts"), C("els", "stmts")], [A("target", "stmts", True), A("label", "string")]),
        N("num", [], [A("i8", "int8"), A("i16", "int16", True), A("i32", "int32"), A("i64", "int64", True), A("u8", "uint8", True),
                      A("u16", "uint16"), A("u32", "uint32", True), A("u64", "uint64")]),
        N("Binop", [C("left", "expr", True), C("right", "expr", True)], [A("kind", "colour"), A("text", "string", True)]),
        N("var", [], [A("name", "string", True), A("decl", "assign")]),
        N("empty"),
        Nodeset("stmt", lit("assign", "ifst", "empty")),
        Nodeset("expr", lit("num", "Binop", "var"), [A("ty", "int"), A("Tag", "string"), A("where", "prog"), A("shade", "colour"),
                                                    A("wide", "int64"), A("uu", ("user", "uval"))]),
        Nodeset("leafs", op("-", op("|", ref("expr"), ref("stmt")), lit("Binop", "ifst", "assign"))),
        Nodeset("more", op("|", ref("stmt"), op("|", lit("num"), lit("NUM", "prog"))), [A("hits", "uint8")]),
    ])


def rec(*extra, acts=()):
    """mutual recursion through nodesets, unary chains"""
    return Spec("rec", [main_phase(*acts)] + list(extra) + [
        N("top", [C("a", "chain", True), C("b", "any", True)], [A("s", "string")], root=True),
        N("chain", [C("down", "link1", True)]),
        N("link1", [C("down", "link2", True), C("side", "leaf")], [A("v", "int", True)]),
        N("link2", [C("up", "any", True), C("tail", "chain")], [A("s1", "string", True), A("s2", "string")]),
        N("leaf", [], [A("ref", "top"), A("s", "string", True)]),
        N("twig", [C("l", "leaf", True), C("r", "twig", True), C("m", "leaf")]),
        Nodeset("any", op("|", lit("leaf", "twig"), op("-", lit("chain", "top", "link1"), lit("top")))),
    ])


def rnd_spec(rnd, name, extra=(), acts=(), maxnodes=5):
    names = ["alpha", "Beta", "gamma", "delta2", "Eps", "zeta"][:rnd.randint(3, maxnodes)]
    sets = []
    for i in range(rnd.randint(1, 3)):
        wants = rnd.randint(0, 2)

        def expr(d):
            if d == 0 or rnd.random() < .4:
                return lit(*rnd.sample(names, rnd.randint(1, len(names))))
            return op(rnd.choice("|" if wants else "||&-"), expr(d - 1), expr(d - 1))
        attrs = []
        for k in range(wants):
            attrs.append(A("s%d_%d" % (i, k), rnd.choice(ALLP + ["hue", ("user", "uval"), rnd.choice(names)])))
        sets.append(Nodeset("set%d" % i, expr(2), attrs))
    nodes = []
    for i, n in enumerate(names):
        kids = [C("c%d%s" % (k, rnd.choice("xY")), rnd.choice(names + [s.name for s in sets] * 2), rnd.random() < .5)
                for k in range(rnd.choice((0, 1, 2, 2, 3)))]
        attrs = [A("a%d%s" % (k, rnd.choice("xy")), rnd.choice(ALLP + ["string", "string", "hue", ("user", "uptr"), rnd.choice(names)]),
                   rnd.random() < .4) for k in range(rnd.choice((0, 1, 2, 3)))]
        nodes.append(N(n, kids, attrs, root=i == 0))
    rest = nodes + sets
    if rnd.random() < .5:
        rnd.shuffle(rest)
    s = Spec(name, [main_phase(*acts)] + list(extra) + [Enum("hue", "HUE", ["dark", "light"])] + rest)
    for ns in sets:
        if not s.evalset(ns.expr):
            return rnd_spec(rnd, name, extra, acts, maxnodes)
    # everything reachable from the root, and finite trees exist for every node (children are optional)
    seen, todo = set(), [nodes[0]]
    while todo:
        n = todo.pop()
        if n.name.lower() in seen:
            continue
        seen.add(n.name.lower())
        for c in n.children:
            todo += [s.node(x) for x in s.allowed(c)]
    if len(seen) < min(3, len(names)):
        return rnd_spec(rnd, name, extra, acts, maxnodes)
    return s


# ---------------------------------------------------------------------- skeletons
class Sk:
    """one node of a concrete tree; kids: list of Sk or None, one per declared child"""

    def __init__(self, node, kids):
        self.node, self.kids, self.v = node, kids, None

    def walk(self):
        yield self
        for k in self.kids:
            if k:
                yield from k.walk()

    def show(self):
        return self.node.name + ("(" + ",".join(k.show() if k else "-" for k in self.kids) + ")" if self.kids else "")

    def number(self, prefix="n"):
        for i, s in enumerate(self.walk()):
            s.v = "%s%d" % (prefix, i)
        return self


def size(s):
    return sum(1 for _ in s.walk())


def skeleton(rnd, spec, top, budget, pnull=.25, depth=6):
    b = [budget]

    def mk(n, d):
        b[0] -= 1
        kids = []
        for c in n.children:
            al = spec.allowed(c)
            if b[0] <= 0 or d == 0 or not al or rnd.random() < pnull:
                kids.append(None)
            else:
                kids.append(mk(spec.node(rnd.choice(al)), d - 1))
        return Sk(n, kids)
    return mk(top, depth)


def skeletons(rnd, spec, count, budget=7, tops=None):
    """varied trees; covers every node type as the top of some tree if count allows"""
    out, seen = [], set()
    tops = tops or spec.nodes
    tries = 0
    while len(out) < count and tries < count * 20:
        tries += 1
        top = tops[tries % len(tops)] if tries > 1 else spec.root
        s = skeleton(rnd, spec, top, budget, rnd.choice((0, .15, .4)))
        if s.show() in seen:
            continue
        seen.add(s.show())
        out.append(s)
    return out


# ---------------------------------------------------------------------- C text
def acc(node, field, arg):
    return "%s_%s(%s)" % (node.name.upper(), field.name.upper(), arg)


def classic(spec, node):
    return [a for a in spec.attrs_of(node) if not a.ag]


def nt(node):
    return "NT_" + node.name.upper()


PRE = r'''
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"
#include "user_types.h"
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include "palm/ctinfo.h"
#include "palm/memory.h"
#include "palm/str.h"
#ifdef VF_CBMC
#define STOP() __CPROVER_assume(0)
#else
extern void _Exit(int);
#define STOP() _Exit(0)
#endif
#define SAME(a, b) (__builtin_types_compatible_p(__typeof__(a), float) || __builtin_types_compatible_p(__typeof__(a), double) ? (a) == (b) : (a) == (b))
static int opaque_a, opaque_b;
'''


def draw(spec, attr, links=("NULL",), strs=("NULL",)):
    """a C expression with a symbolic value of the attribute's type"""
    k, ct = spec.akind(attr.type), spec.ctype(attr.type)
    if k == "bool":
        return "vf_bool()"
    if k == "int":
        return "(%s)vf_u64()" % ct
    if k == "float":
        return "(%s)vf_range(-1000, 1000)" % ct
    if k == "enum":
        return "(%s)vf_range(0, %d)" % (ct, len(spec.enum(attr.type).values))
    if k == "user":
        return "(uptr)(vf_bool() ? &opaque_a : &opaque_b)" if ct == "uptr" else "(%s)vf_u64()" % ct
    pool = links if k == "link" else strs
    e = pool[-1]
    for p in reversed(pool[:-1]):
        e = "(vf_bool() ? %s : %s)" % (p, e)
    return e


def uses_of_files(g):
    return g.src()


def base_sources(g, exclude=()):
    """generated sources + copra core (no phase driver tables needed beyond what links) + palm"""
    import os
    from . import gen, palm
    src = [f for f in g.src() if os.path.basename(f) not in exclude]
    return src, gen.copra_src(), palm


def stubs(spec, skip=()):
    """empty definitions of everything a user would define (passes, handlers, gates, breakpoint handler)"""
    o = []
    acts = {}
    for a in spec.of((Pass, T)):
        acts[a.name.lower()] = a
    for a in acts.values():
        if isinstance(a, Pass):
            if a.cfunc() not in skip:
                o.append("node_st *%s(node_st *node) { return node; }" % a.cfunc())
        else:
            tg = spec.evalset(a.nodes) if a.nodes else {n.name.lower() for n in spec.nodes}
            for n in sorted(tg):
                f = a.uid.upper() + n
                if f not in skip:
                    o.append("node_st *%s(node_st *node) { TRAVchildren(node); return node; }" % f)
            if a.data:
                for x in ("init", "fini"):
                    if a.uid.upper() + x not in skip:
                        o.append("void %s%s(void) { }" % (a.uid.upper(), x))
    for p in spec.of(Phase):
        if p.gate and p.gate not in skip:
            o.append("bool %s(void) { return true; }" % p.gate)
    if "DBUGprintAssert" not in skip:
        o.append('#undef DBUGprintAssert\nvoid DBUGprintAssert(int line, char *file, const char *func, char *msg, ...)\n'
                 '{ vf_assert(0, "accessors are used on nodes of their type"); STOP(); }')
    if "BreakpointHandler" not in skip:
        o.append("void BreakpointHandler(node_st *node) { }")
    return "\n".join(o) + "\n"


def edges():
    """small specifications with unusual but valid spellings"""
    return [
        Spec("userctor", [main_phase(), N("r", [C("Kid", "R", True)], [A("Up", ("user", "uptr"), True), A("Uv", ("user", "uval"), True)], root=True)]),
        Spec("enumcase", [main_phase(), Enum("Colour", "COL", ["red", "Blue"]), N("r", [], [A("c", "colour"), A("D", "COLOUR", True)], root=True)]),
        Spec("nodecase", [main_phase(), N("R", [C("k", "LEAF"), C("L", "Any", True)], [A("c", "lEaf", True)], root=True), N("Leaf"),
                          Nodeset("aNy", lit("LEAF", "r"), [A("Zed", "int"), A("lnk", "LEAF")])]),
    ]


# ---------------------------------------------------------------------- C11: constructors and accessors
def h_ctor(spec, unsafe=False):
    o = [PRE, stubs(spec, ("DBUGprintAssert",))]
    o.append("static node_st *k[3];\nstatic char str_a[2] = \"a\", str_b[2] = \"b\";")
    o.append('#undef DBUGprintAssert\nvoid DBUGprintAssert(int line, char *file, const char *func, char *msg, ...)\n'
             '{ vf_assert(0, "an accessor used on a node of its type reports nothing"); STOP(); }')
    links = ("NULL", "k[0]", "k[1]")
    strs = ("NULL", "str_a", "str_b")

    def draw_field(f):
        return draw(spec, f, links, strs) if isinstance(f, A) else draw(spec, A("x", "?link"), links) if False else \
            "(vf_bool() ? NULL : vf_bool() ? k[0] : k[1])"

    def ctype(f):
        return spec.ctype(f.type) if isinstance(f, A) else "node_st *"
    leaf = min(spec.nodes, key=lambda n: len(spec.ctor_params(n)))
    for n in spec.nodes:
        fields = list(n.children) + classic(spec, n)
        par = spec.ctor_params(n)
        o.append("static void try_%s(void)\n{" % n.name.lower())
        for i, f in enumerate(fields):
            o.append("    %s v%d = %s;" % (ctype(f), i, draw_field(f) if f in par else "0"))
        args = ", ".join("v%d" % fields.index(f) for f in par)
        o.append("    node_st *other = AST%s(%s);\n    node_st *n = AST%s(%s);" % (n.name.lower(), args, n.name.lower(), args))
        o.append("    vf_assert(n != NULL && other != NULL && n != other && n != k[0] && n != k[1], \"a constructor returns a fresh node\");")
        o.append("    vf_assert(NODE_TYPE(n) == %s, \"a constructor returns a node of its type\");" % nt(n))
        o.append("    vf_assert(NODE_NUMCHILDREN(n) == %d, \"number of children\");" % len(n.children))
        o.append("    vf_assert(NODE_FILENAME(n) == NULL && NODE_BLINE(n) == 0 && NODE_ELINE(n) == 0 && NODE_BCOL(n) == 0 && NODE_ECOL(n) == 0, "
                 "\"a new node has no position\");")

        def check(what, node="n", val="v%d"):
            for i, f in enumerate(fields):
                o.append("    vf_assert(%s == %s, \"%s: %s\");" % (acc(n, f, node), val % i, what, f.name))
            for i, c in enumerate(n.children):
                o.append("    vf_assert(NODE_CHILDREN(%s)[%d] == %s, \"the child array aliases child %s (%s)\");" % (node, i, val % i, c.name, what))
            for s in spec.of(Nodeset):
                if s.attrs and n.name.lower() in spec.evalset(s.expr):
                    for a in s.attrs:
                        if not a.ag:
                            fi = [x.name for x in fields].index(a.name)
                            o.append("    vf_assert(%s_%s(%s) == %s, \"nodeset accessor %s.%s (%s)\");" % (
                                s.name.upper(), a.name.upper(), node, val % fi, s.name, a.name, what))
        check("constructor value or default")
        # a symbolic write through the node's own accessor, a nodeset's or the child array
        writes = []
        for i, f in enumerate(fields):
            writes.append((i, acc(n, f, "n"), f))
        for i, c in enumerate(n.children):
            writes.append((i, "NODE_CHILDREN(n)[%d]" % i, c))
        for s in spec.of(Nodeset):
            if s.attrs and n.name.lower() in spec.evalset(s.expr):
                for a in s.attrs:
                    if not a.ag:
                        writes.append(([x.name for x in fields].index(a.name), "%s_%s(n)" % (s.name.upper(), a.name.upper()), a))
        if fields:
            for i, f in enumerate(fields):
                o.append("    %s w%d = v%d;" % (ctype(f), i, i))
            for rep in range(2):
                o.append("    switch (vf_range(0, %d)) {" % (len(writes) - 1))
                for j, (i, lv, f) in enumerate(writes):
                    o.append("    case %d: w%d = %s; %s = w%d; break;" % (j, i, draw_field(f), lv, i))
                o.append("    }")
            check("after writing fields", val="w%d")
            check("untouched node", node="other")
        o.append("    vf_assert(NODE_TYPE(n) == %s && NODE_NUMCHILDREN(n) == %d && NODE_FILENAME(n) == NULL && NODE_BLINE(n) == 0, "
                 "\"writing fields leaves the node header alone\");\n}" % (nt(n), len(n.children)))
    o.append("void harness(void)\n{")
    for i in range(2):
        o.append("    k[%d] = AST%s(%s);" % (i, leaf.name.lower(), ", ".join("0" for _ in spec.ctor_params(leaf))))
    for n in spec.nodes:
        o.append("    try_%s();" % n.name.lower())
    o.append("    vf_reach();\n}")
    return "\n".join(o) + "\n"


def h_misuse(spec):
    """an accessor applied to any node type: reported if and only if the type does not have the field"""
    o = [PRE, stubs(spec, ("DBUGprintAssert",)), "static bool wrong;"]
    o.append('void DBUGprintAssert(int line, char *file, const char *func, char *msg, ...)\n'
             '{ vf_assert(wrong, "an accessor used on a node that has the field reports nothing"); vf_reach(); STOP(); }')
    o.append("void harness(void)\n{\n    node_st *n = NULL;\n    int t = (int)vf_range(0, %d);\n    switch (t) {" % (len(spec.nodes) - 1))
    for i, n in enumerate(spec.nodes):
        o.append("    case %d: n = AST%s(%s); break;" % (i, n.name.lower(), ", ".join("0" for _ in spec.ctor_params(n))))
    o.append("    }")
    uses = []
    for i, n in enumerate(spec.nodes):
        for f in list(n.children) + classic(spec, n):
            uses.append(("t == %d" % i, acc(n, f, "n")))
    for s in spec.of(Nodeset):
        for a in s.attrs:
            if not a.ag:
                uses.append((" || ".join("t == %d" % i for i, n in enumerate(spec.nodes) if n.name.lower() in spec.evalset(s.expr)) or "false",
                             "%s_%s(n)" % (s.name.upper(), a.name.upper())))
    o.append("    switch (vf_range(0, %d)) {" % (len(uses) - 1))
    for j, (ok, e) in enumerate(uses):
        o.append("    case %d: wrong = !(%s); if (wrong) { (void)&%s; } else { (void)%s; } break;" % (j, ok, e, e))
    o.append("    }\n    vf_assert(!wrong, \"an accessor used on a node of another type is reported\");\n    vf_reach();\n}")
    return "\n".join(o) + "\n"


def write(g, name, text):
    import os
    os.makedirs(g.dir + "/h", exist_ok=True)
    p = g.dir + "/h/%s.c" % name
    with open(p, "w") as f:
        f.write(text)
    return p


def tquery(g, name, text, unwind=6, exclude=(), noexcl=(), about="", timeout=300, palm_excl=("dbug.c",), drop_copra=(), **kw):
    import os
    from . import gen, palm
    from .core import Query
    h = write(g, name, text)
    src = [f for f in g.src() if os.path.basename(f) not in exclude]
    src += [f for f in gen.copra_src() if os.path.basename(f) not in drop_copra] + palm.all_src(exclude=palm_excl)
    kw.setdefault("object_bits", 10)
    kw.setdefault("cbmc_map", split_data(g))
    return Query(g.spec.name + "_" + name, h, src, includes=g.includes, unwind=unwind, timeout=timeout, about=about,
                 cbmc_extra=palm.MODELS, **kw)


def split_data(g):
    """copies of the generated code and of copra for CBMC in which the per-type data pointers of a node and of a traversal
    are members of a struct instead of a union: CBMC 6.11 misreads a symbolic pointer through such a union (seen on a 12
    line program). Code that stores through one member and reads another is not encodable this way; the native replay
    uses the real headers."""
    import os, shutil
    from .core import REPO
    d = g.dir + "/split"
    with SPLIT:
        if not os.path.isdir(d):
            shutil.copytree(g.dir + "/gen", d + "/gen")
            shutil.copytree(REPO + "/copra", d + "/copra")
            for root, _, files in os.walk(d):
                for f in files:
                    if f.endswith((".c", ".h")):
                        p = os.path.join(root, f)
                        t = open(p).read()
                        u = t.replace("union NODE_DATA", "struct NODE_DATA_OF").replace("union TRAV_DATA", "struct TRAV_DATA_OF")
                        if u != t:
                            open(p, "w").write(u)
    return ((g.dir + "/gen", d + "/gen"), (REPO + "/copra", d + "/copra"))


def gens(ctx, specs):
    from . import gen
    out = []
    for s in specs:
        g = gen.generate(ctx, s, USER_TYPES)
        if g and gen.compiles(ctx, g):
            ctx.programs.append(s.name)
            out.append(g)
    return out


# ---------------------------------------------------------------------- building concrete trees
def emit_build(spec, sk, strlen=1, links=None, pos=True, strs="maybe"):
    """statements that build the tree bottom-up; returns lines. Every attribute value is kept in a variable
    <node var>_<index into classic attrs>; string values are NULL or fresh (symbolically)."""
    out = []
    nodes = list(sk.walk())
    for s in reversed(nodes):
        n = s.node
        at = classic(spec, n)
        for i, a in enumerate(at):
            k = spec.akind(a.type)
            if k == "string":
                e = "vf_str(%s)" % strlen if strs == "maybe" else "NULL"
            elif k == "link":
                e = draw(spec, a, tuple(links or ("NULL",)))
            else:
                e = draw(spec, a)
            out.append("%s_%d = %s;" % (s.v, i, e))
        args = []
        for p in spec.ctor_params(n):
            if isinstance(p, A):
                args.append("%s_%d" % (s.v, at.index(p)))
            else:
                kd = s.kids[n.children.index(p)]
                args.append(kd.v if kd else "NULL")
        out.append("%s = AST%s(%s);" % (s.v, n.name.lower(), ", ".join(args)))
        for c, kd in zip(n.children, s.kids):
            if not c.ctor and kd:
                out.append("%s = %s;" % (acc(n, c, s.v), kd.v))
        for i, a in enumerate(at):
            if not (a.ctor and a in n.attrs):
                out.append("%s = %s_%d;" % (acc(n, a, s.v), s.v, i))
        if pos:
            out.append("NODE_BLINE(%s) = %s_p[0]; NODE_ELINE(%s) = %s_p[1]; NODE_BCOL(%s) = %s_p[2]; NODE_ECOL(%s) = %s_p[3];" % ((s.v,) * 8))
            out.append("%s_fn = vf_str(2); NODE_FILENAME(%s) = %s_fn;" % (s.v, s.v, s.v))
    return out


def emit_decls(spec, sk, pos=True):
    o = []
    for s in sk.walk():
        o.append("static node_st *%s;" % s.v)
        for i, a in enumerate(classic(spec, s.node)):
            o.append("static %s %s_%d;" % (spec.ctype(a.type), s.v, i))
        if pos:
            o.append("static uint32_t %s_p[4]; static char *%s_fn;" % (s.v, s.v))
    return o


def emit_pos(sk):
    return ["%s_p[%d] = (uint32_t)vf_u64();" % (s.v, i) for s in sk.walk() for i in range(4)]


STRFN = r'''
/* NULL, or a fresh string of the given length with arbitrary characters */
static char *vf_str(int len)
{
    char *s = MEMmalloc((size_t)len + 1);
    for (int i = 0; i < 3; i++) if (i < len) { s[i] = (char)vf_u64(); vf_assume(s[i] != '\0'); }
    s[len] = '\0';
    if (vf_bool()) return s;
    return NULL;
}
static bool streq3(const char *a, const char *b)
{
    if (!a || !b) return a == b;
    for (int i = 0; i < 4; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; }
    return false;
}
'''


def emit_same(spec, sk, var, what, fresh=None):
    """assertions that the tree at C expression var has sk's shape and recorded values. fresh: the prefix of node
    variables for a copy: string pointers and nodes must differ from the original's."""
    out = []
    n = sk.node
    out.append("vf_assert(%s != NULL && NODE_TYPE(%s) == %s, \"%s: node type\");" % (var, var, nt(n), what))
    if not fresh:
        out.append("vf_assert(%s == %s, \"%s: same node\");" % (var, sk.v, what))
    out.append("vf_assert(NODE_NUMCHILDREN(%s) == %d, \"%s: number of children\");" % (var, len(n.children), what))
    for i, a in enumerate(classic(spec, n)):
        e, v = acc(n, a, var), "%s_%d" % (sk.v, i)
        if spec.akind(a.type) == "string":
            out.append("vf_assert(streq3(%s, %s), \"%s: string attribute %s\");" % (e, v, what, a.name))
            if fresh:
                out.append("vf_assert(%s == NULL || %s != %s, \"%s: string %s is duplicated\");" % (e, e, v, what, a.name))
            else:
                out.append("vf_assert(%s == %s, \"%s: string attribute %s\");" % (e, v, what, a.name))
        else:
            out.append("vf_assert(%s == %s, \"%s: attribute %s\");" % (e, v, what, a.name))
    out.append("vf_assert(NODE_BLINE(%s) == %s_p[0] && NODE_ELINE(%s) == %s_p[1] && NODE_BCOL(%s) == %s_p[2] && NODE_ECOL(%s) == %s_p[3], \"%s: position\");"
               % (var, sk.v, var, sk.v, var, sk.v, var, sk.v, what))
    out.append("vf_assert(streq3(NODE_FILENAME(%s), %s_fn), \"%s: file name\");" % (var, sk.v, what))
    if fresh:
        out.append("vf_assert(NODE_FILENAME(%s) == NULL || NODE_FILENAME(%s) != %s_fn, \"%s: file name is duplicated\");" % (var, var, sk.v, what))
    for c, kd in zip(n.children, sk.kids):
        e = acc(n, c, var)
        if not kd:
            out.append("vf_assert(%s == NULL, \"%s: absent child %s\");" % (e, what, c.name))
        elif fresh:
            cv = fresh + kd.v[1:]
            out.append("node_st *%s = %s;" % (cv, e))
            out += emit_same(spec, kd, cv, what, fresh)
        else:
            out += emit_same(spec, kd, e, what, None)
    return out


def h_copy(spec, sks):
    o = [PRE, STRFN, stubs(spec), "static node_st *ext[2];"]
    body = []
    leaf = min(spec.nodes, key=lambda n: len(spec.ctor_params(n)))
    for t, sk in enumerate(sks):
        sk.number("n%d_" % t)
        o += emit_decls(spec, sk)
        o.append("static void tree%d(void)\n{" % t)
        b = emit_pos(sk) + emit_build(spec, sk, strlen=1 + t % 2, links=["NULL", "ext[0]", "ext[1]"])
        # links inside the tree: to any node of it
        b.append("node_st *c = CCNcopy(%s);" % sk.v)
        b += emit_same(spec, sk, "c", "copy", "c")
        vs = [s.v for s in sk.walk()]
        cs = ["c"] + ["c" + s.v[1:] for s in sk.walk()][1:]
        for i, c in enumerate(cs):
            for v in vs:
                b.append("vf_assert(%s != %s, \"no node is shared\");" % (c, v))
            for c2 in cs[:i]:
                b.append("vf_assert(%s != %s, \"copied nodes are distinct\");" % (c, c2))
        b += emit_same(spec, sk, sk.v, "original after copying")
        b.append("vf_assert(TRAVgetCurrent() == NULL, \"no traversal is left on the stack\");")
        o += ["    " + x for x in b] + ["}"]
        body.append("    tree%d();" % t)
    o.append("void harness(void)\n{")
    for i in range(2):
        o.append("    ext[%d] = AST%s(%s);" % (i, leaf.name.lower(), ", ".join("0" for _ in spec.ctor_params(leaf))))
    o += body + ["    vf_reach();\n}"]
    return "\n".join(o) + "\n"


TRACK = r'''
#undef malloc
#undef free
#undef calloc
#undef realloc
extern void *malloc(size_t);
extern void free(void *);
#define NBLK 160
static void *blk[NBLK];
static bool dead[NBLK], keep[NBLK];
static int nblk;
void *vf_malloc(size_t n)
{
    void *p = malloc(n);
    vf_assert(nblk < NBLK, "harness: block table");
    blk[nblk++] = p;
    return p;
}
void *vf_calloc(size_t a, size_t b) { void *p = vf_malloc(a * b); memset(p, 0, a * b); return p; }
void vf_free(void *p)
{
    if (p == NULL) return;
    for (int i = 0; i < nblk; i++) {
        if (!dead[i] && blk[i] == p) {
            vf_assert(!keep[i], "nothing that is not owned by the freed tree is released");
            dead[i] = true;
            free(p);
            return;
        }
    }
    vf_assert(0, "only live blocks are released, each once");
}
static void retain(int from, int to) { for (int i = from; i < to; i++) if (!dead[i]) keep[i] = true; }
static void unretain(int from, int to) { for (int i = from; i < to; i++) keep[i] = false; }
/* a string attribute value: absent for len 0; with MAYBE symbolically present (else released here) */
static char *vf_own_str(int len)
{
    if (len == 0) return NULL;
    int i = nblk;
    char *s = vf_malloc((size_t)len + 1);
    for (int j = 0; j < len; j++) s[j] = 'x';
    s[len] = '\0';
#ifdef MAYBE
    if (vf_bool()) { dead[i] = true; return NULL; }
#endif
    return s;
}
#define vf_str(len) vf_own_str(len)
static void all_released(int from, int to) { for (int i = from; i < to; i++) vf_assert(dead[i], "everything the tree owns is released"); }
static void none_released(int from, int to, const bool *was) { for (int i = from; i < to; i++) vf_assert(dead[i] == was[i], "the other tree is left intact"); }
'''
STRONLY = STRFN[STRFN.index("static bool streq3"):]


def h_free(spec, sks, mode):
    """mode 0: free; 1: copy, free the original, then the copy; 2: copy, free the copy, then the original"""
    o = ["#define MAYBE\n" if mode == 0 else "", PRE, TRACK, STRONLY, stubs(spec), "static node_st *ext[2];\nstatic int si;\nstatic const int slen[8] = {1, 0, 2, 1, 1, 0, 0, 2};"]
    body = []
    leaf = min(spec.nodes, key=lambda n: len(spec.ctor_params(n)))
    for t, sk in enumerate(sks):
        sk.number("n%d_" % t)
        o += emit_decls(spec, sk)
        o.append("static void tree%d(void)\n{" % t)
        b = ["int from = nblk;"] + emit_pos(sk) + emit_build(spec, sk, strlen="slen[si++ % 8]", links=["NULL", "ext[0]", "ext[1]"] + [])
        inlinks = []
        nodes = list(sk.walk())
        for s in nodes:
            for i, a in enumerate(classic(spec, s.node)):
                if spec.akind(a.type) == "link" and not inlinks:
                    inlinks.append("if (vf_bool()) { %s_%d = %s; %s = %s_%d; }" % (s.v, i, nodes[0].v, acc(s.node, a, s.v), s.v, i))
        b += inlinks
        b.append("int to = nblk;")
        if mode == 0:
            b += ["node_st *r = CCNfree(%s);" % sk.v, "vf_assert(r == NULL, \"freeing returns NULL\");"]
        elif mode == 1:
            b += ["node_st *c = CCNcopy(%s);" % sk.v, "int ctop = nblk;", "retain(to, ctop);", "CCNfree(%s);" % sk.v,
                  "all_released(from, to);", "unretain(to, ctop);"]
            b += ["{"] + emit_same_values(spec, sk, "c", "copy after freeing the original") + ["}", "CCNfree(c);"]
        else:
            b += ["node_st *c = CCNcopy(%s);" % sk.v, "int ctop = nblk;", "retain(from, to);", "CCNfree(c);", "all_released(to, ctop);",
                  "unretain(from, to);"]
            b += emit_same(spec, sk, sk.v, "original after freeing the copy")
            b += ["CCNfree(%s);" % sk.v]
        b += ["all_released(from, nblk);", "vf_assert(TRAVgetCurrent() == NULL, \"no traversal is left on the stack\");"]
        o += ["    " + x for x in b] + ["}"]
        body.append("    tree%d();" % t)
    o.append("void harness(void)\n{")
    for i in range(2):
        o.append("    ext[%d] = AST%s(%s);" % (i, leaf.name.lower(), ", ".join("0" for _ in spec.ctor_params(leaf))))
    o.append("    retain(0, nblk);\n    int base = nblk;")
    o += body + ["    for (int i = 0; i < base; i++) vf_assert(!dead[i], \"linked nodes are left alone\");", "    vf_reach();\n}"]
    return "\n".join(o) + "\n"


def emit_same_values(spec, sk, var, what):
    """like emit_same for a copy, but without reading the (freed) original: non-string values only, strings readable"""
    out = ["vf_assert(NODE_TYPE(%s) == %s, \"%s: node type\");" % (var, nt(sk.node), what)]
    for i, a in enumerate(classic(spec, sk.node)):
        e = acc(sk.node, a, var)
        if spec.akind(a.type) == "string":
            out.append("vf_assert(!%s || %s[0] == %s[0], \"%s: string readable\");" % (e, e, e, what))
        elif spec.akind(a.type) != "link":
            out.append("vf_assert(%s == %s_%d, \"%s: attribute %s\");" % (e, sk.v, i, what, a.name))
    for c, kd in zip(sk.node.children, sk.kids):
        if kd:
            out += emit_same_values(spec, kd, acc(sk.node, c, var), what)
    return out
