"""C18: attribute grammars. Every evaluation function is a fixed mix (a xor of rotations) of its arguments, classic attributes are symbolic: a wrong, missing, swapped or stale argument changes the value of some
attribute for some values of the classic attributes."""
import random
from . import dsl, trees
from .dsl import Nodeset, Child as C, Attr as A, Node as N, Spec, Life, Eq, Enum, lit, op, ref
from .trees import Sk, main_phase, acc, nt

ENUM = Enum("hue", "HUE", ["dark", "light", "grey"])


def all_attrs(spec, node):
    """attributes of a node by name: its own, and those of nodesets it belongs to (a redeclared one counts once)"""
    out = {}
    for a in spec.attrs_of(node):
        out.setdefault(a.name.lower(), a)
    return out


def set_attrs(spec, s):
    out = {a.name.lower(): a for a in s.attrs}
    mine = spec.evalset(s.expr)
    return out


def type_attrs(spec, child):
    """attributes reachable through a child slot"""
    n = spec.node(child.type)
    return all_attrs(spec, n) if n else set_attrs(spec, spec.nodeset(child.type))


def mandatory(c):
    return any(x.kind == "mandatory" and not x.ranged for x in c.life)


def child_of(node, name):
    return [c for c in node.children if c.name.lower() == name.lower()][0]


def attr_of(spec, node, r):
    """the attribute a reference (who, attr) in a rule of node denotes"""
    return (all_attrs(spec, node) if r[0] == "this" else type_attrs(spec, child_of(node, r[0])))[r[1].lower()]


def opt_args(node, eq):
    """optional children among the arguments of an equation, in order of first mention"""
    out = []
    for w, _ in eq.args:
        if w != "this":
            c = child_of(node, w)
            if not mandatory(c) and c not in out:
                out.append(c)
    return out


def variants(node, eq):
    import itertools
    ch = opt_args(node, eq)
    for k in range(len(ch) + 1):
        for absent in itertools.combinations(ch, k):
            yield list(absent)


def fname(node, eq, absent):
    return "EVAL%s_%s_%s%s" % (node.name.lower(), eq.target[0].lower(), eq.target[1].lower(),
                               "".join("_%s_NULL" % c.name.lower() for c in absent))


def to_num(spec, attr, e):
    k = spec.akind(attr.type)
    if k == "string":
        return "(uint64_t)(%s - strs)" % e
    if k == "link":
        return "link_no(%s)" % e
    if k == "user" and spec.ctype(attr.type) == "uptr":
        return "(uint64_t)((char *)%s - strs)" % e
    return "(uint64_t)%s" % e


def from_num(spec, attr, e):
    k, ct = spec.akind(attr.type), spec.ctype(attr.type)
    if k == "string":
        return "strs + (%s & 7)" % e
    if k == "link":
        return "links[%s & 3]" % e
    if k == "user" and ct == "uptr":
        return "(uptr)(strs + (%s & 7))" % e
    if k == "bool":
        return "(bool)((%s >> 1) & 1)" % e
    if k == "float":
        return "(%s)(%s & 255)" % (ct, e)
    if k == "enum":
        return "(%s)(%s & 3)" % (ct, e)
    return "(%s)(%s)" % (ct, e)


def rules(spec):
    for n in spec.nodes:
        for e in n.eqs:
            yield n, e


HEAD = r'''
#include "ccngen/ag.h"
#include "ccngen/equation.h"
#undef exit
static char strs[16];
static node_st *links[4];
static uint64_t rot(uint64_t x, int k) { return (x << k) ^ (x >> (63 - k)); }
static uint64_t link_no(node_st *n)
{
    for (int i = 0; i < 4; i++) if (links[i] == n) return (uint64_t)i;
    vf_assert(0, "an argument is the value of the attribute it stands for");
    return 9;
}
void vf_exit(int code) { vf_assert(0, "evaluation does not end the process"); STOP(); }
'''


def h_eval(spec, sks):
    o = [trees.PRE, HEAD, trees.stubs(spec)]
    rs = list(rules(spec))
    no = {}
    k = 1
    for n, e in rs:
        no[(n.name, e.target)] = k
        for absent in variants(n, e):
            f = fname(n, e, absent)
            at = attr_of(spec, n, e.target)
            args = [(w, x) for w, x in e.args if w == "this" or child_of(n, w) not in absent]
            ps = ", ".join("%s a%d" % (spec.ctype(attr_of(spec, n, a).type), i) for i, a in enumerate(args)) or "void"
            salt = 0x9E37 * (k * 7 + sum(1 << n.children.index(c) for c in absent)) & 0xffff
            body = "%du" % salt
            for i, a in enumerate(args):
                body += " ^ rot(%s, %d)" % (to_num(spec, attr_of(spec, n, a), "a%d" % i), (i * 3 + k) % 11)
            o.append("static %s ref_%s(%s)\n{\n    uint64_t h = %s;\n    return %s;\n}" % (spec.ctype(at.type), f, ps, body, from_num(spec, at, "h")))
            o.append("%s %s(%s)\n{\n    calls[%d]++;\n    return ref_%s(%s);\n}" % (
                spec.ctype(at.type), f, ps, k, f, ", ".join("a%d" % i for i in range(len(args)))))
        k += 1
    o.insert(2, "static int calls[%d];" % k)
    body = []
    for t, sk in enumerate(sks):
        sk.number("n%d_" % t)
        o += trees.emit_decls(spec, sk, pos=False)
        b = trees.emit_build(spec, sk, pos=False, links=["links[0]", "links[1]", "links[2]", "links[3]"])
        b = [x.replace("vf_str(1)", "strs + vf_range(0, 7)") for x in b]
        order, vals = evaluation(spec, sk)
        for s, a, who, eq, owner in order:
            absent = [c for c in opt_args(owner.node, eq) if owner.kids[owner.node.children.index(c)] is None]
            args = []
            for w, x in eq.args:
                if w == "this":
                    args.append(value(spec, owner, x))
                else:
                    kd = owner.kids[owner.node.children.index(child_of(owner.node, w))]
                    if kd:
                        args.append(value(spec, kd, x))
            b.append("%s e_%s_%s = ref_%s(%s);" % (spec.ctype(a.type), s.v, a.name.lower(), fname(owner.node, eq, absent), ", ".join(args)))
        b.append("for (int i = 0; i < %d; i++) calls[i] = 0;" % k)
        b.append("CCNevaluateAttributes(%s);" % sk.v)
        for s in sk.walk():
            for a in all_attrs(spec, s.node).values():
                if not a.ag:
                    continue
                want = "e_%s_%s" % (s.v, a.name.lower())
                b.append("vf_assert(%s == %s, \"value of %s.%s\");" % (acc(s.node, a, s.v), want, s.node.name, a.name))
                for ns in spec.of(Nodeset):
                    if a in ns.attrs:
                        b.append("vf_assert(%s_%s(%s) == %s, \"value of %s.%s\");" % (ns.name.upper(), a.name.upper(), s.v, want, ns.name, a.name))
            for i, a in enumerate(trees.classic(spec, s.node)):
                b.append("vf_assert(%s == %s_%d, \"attribute %s is left alone\");" % (acc(s.node, a, s.v), s.v, i, a.name))
            for c, kd in zip(s.node.children, s.kids):
                b.append("vf_assert(%s == %s, \"the tree is left alone\");" % (acc(s.node, c, s.v), kd.v if kd else "NULL"))
        for n, e in rs:
            i = no[(n.name, e.target)]
            here = [s for s in sk.walk() if s.node is n]
            hi = len(here)
            lo = hi if e.target[0] == "this" else sum(1 for s in here if s.kids[n.children.index(child_of(n, e.target[0]))])
            b.append("vf_assert(calls[%d] %s %d, \"%s.%s.%s is computed once for each node\");" % (
                i, ">= %d && calls[%d] <=" % (lo, i) if lo != hi else "==", hi, n.name, e.target[0], e.target[1]))
        o += ["static void tree%d(void)\n{" % t] + ["    " + x for x in b] + ["}"]
        body.append("    tree%d();" % t)
    leaf = min(spec.nodes, key=lambda n: len(spec.ctor_params(n)))
    o.append("void harness(void)\n{\n    for (int i = 0; i < 4; i++) links[i] = AST%s(%s);" % (leaf.name.lower(), ", ".join("0" for _ in spec.ctor_params(leaf))))
    o += body + ["    vf_reach();\n}"]
    return "\n".join(o) + "\n"


def value(spec, s, name):
    a = all_attrs(spec, s.node)[name.lower()]
    if a.ag:
        return "e_%s_%s" % (s.v, a.name.lower())
    return "%s_%d" % (s.v, trees.classic(spec, s.node).index(a))


class Circular(Exception):
    pass


def evaluation(spec, sk):
    """every attribute instance of the tree in an order that respects its dependencies, with the equation it is computed by"""
    insts = {}
    for s in sk.walk():
        for e in s.node.eqs:
            if e.target[0] == "this":
                t = s
            else:
                t = s.kids[s.node.children.index(child_of(s.node, e.target[0]))]
                if t is None:
                    continue
            insts[(t.v, e.target[1].lower())] = (t, all_attrs(spec, t.node)[e.target[1].lower()], e.target[0], e, s)
    order, state = [], {}

    def visit(key):
        if state.get(key) == 2:
            return
        if state.get(key) == 1:
            raise Circular("%s.%s" % key)
        state[key] = 1
        t, a, who, e, owner = insts[key]
        for w, x in e.args:
            o = owner if w == "this" else owner.kids[owner.node.children.index(child_of(owner.node, w))]
            if o is not None and all_attrs(spec, o.node)[x.lower()].ag:
                visit((o.v, x.lower()))
        state[key] = 2
        order.append(insts[key])
    for key in insts:
        visit(key)
    return order, insts


# ---------------------------------------------------------------------- trees with mandatory children
def heights(spec):
    h = {}
    for _ in range(len(spec.nodes) + 1):
        for n in spec.nodes:
            v = 0
            for c in n.children:
                if mandatory(c):
                    al = [h[x] for x in spec.allowed(c) if x in h]
                    v = None if not al else max(v, min(al) + 1)
                    if v is None:
                        break
            if v is not None:
                h[n.name.lower()] = min(v, h.get(n.name.lower(), v))
    return h


def skeleton(rnd, spec, top, budget, pnull):
    h = heights(spec)
    b = [budget]

    def mk(n, d):
        b[0] -= 1
        kids = []
        for c in n.children:
            al = [x for x in spec.allowed(c) if x in h]
            if not mandatory(c) and (not al or b[0] <= 0 or d == 0 or rnd.random() < pnull):
                kids.append(None)
                continue
            if b[0] <= 0 or d == 0:
                m = min(h[x] for x in al)
                al = [x for x in al if h[x] == m]
            kids.append(mk(spec.node(rnd.choice(al)), max(0, d - 1)))
        return Sk(n, kids)
    return mk(top, 5)


def tops(spec):
    """nodes that evaluation may start at: without inherited attributes, with some attribute"""
    out = []
    for n in spec.nodes:
        at = all_attrs(spec, n).values()
        if n.name.lower() in heights(spec) and any(a.ag for a in at) and not any(a.ag == "inherited" for a in at):
            out.append(n)
    return out


def skeletons(rnd, spec, count, budget):
    out, seen = [], set()
    tp = tops(spec)
    for i in range(count * 12):
        if len(out) >= count or not tp:
            break
        top = spec.root if i == 0 and spec.root in tp else rnd.choice(tp)
        s = skeleton(rnd, spec, top, budget, rnd.choice((0, .2, .5)))
        if trees.size(s) <= budget + 4 and s.show() not in seen:
            seen.add(s.show())
            out.append(s)
    return out


# ---------------------------------------------------------------------- grammars
M = [Life("mandatory")]


def fixed():
    out = []
    out.append(Spec("tree", [main_phase(),
        Nodeset("tree", lit("binop", "leaf"), [A("sum", "int", ag="synthesized"), A("depth", "int", ag="inherited")]),
        N("prog", [C("tree", "tree")], [A("sum", "int", ag="synthesized")],
          [Eq(("tree", "depth")), Eq(("this", "sum"), [("tree", "sum")])], root=True),
        N("binop", [C("left", "tree"), C("right", "tree")], [],
          [Eq(("this", "sum"), [("left", "sum"), ("right", "sum")]), Eq(("left", "depth"), [("this", "depth")]),
           Eq(("right", "depth"), [("this", "depth")])]),
        N("leaf", [], [A("val", "int", True)], [Eq(("this", "sum"), [("this", "val"), ("this", "depth")])])]))
    # two passes over the tree: the minimum is collected, then distributed (repmin)
    out.append(Spec("repmin", [main_phase(),
        Nodeset("t", lit("fork", "tip"), [A("min", "int32", ag="synthesized"), A("glob", "int64", ag="inherited"), A("out", "uint16", ag="synthesized")]),
        N("begin", [C("t", "t", life=M)], [A("res", "int", ag="synthesized")],
          [Eq(("t", "glob"), [("t", "min")]), Eq(("this", "res"), [("t", "out")])], root=True),
        N("fork", [C("l", "t", life=M), C("r", "t", life=M)], [],
          [Eq(("this", "min"), [("l", "min"), ("r", "min")]), Eq(("l", "glob"), [("this", "glob")]), Eq(("r", "glob"), [("this", "glob"), ("l", "out")]),
           Eq(("this", "out"), [("l", "out"), ("r", "out"), ("this", "min")])]),
        N("tip", [], [A("v", "int32")], [Eq(("this", "min"), [("this", "v")]), Eq(("this", "out"), [("this", "glob"), ("this", "v")])])]))
    # dependencies on inherited attributes of children, on classic attributes of optional children, chains through siblings
    out.append(Spec("side", [main_phase(), ENUM,
        N("r", [C("a", "item"), C("b", "item", life=M), C("c", "item")], [A("s", "string", ag="synthesized"), A("base", "int")],
          [Eq(("a", "i"), [("this", "base")]), Eq(("b", "i"), [("a", "i"), ("a", "cl")]), Eq(("c", "i"), [("b", "i"), ("b", "o"), ("a", "o")]),
           Eq(("this", "s"), [("a", "i"), ("c", "i"), ("b", "cl"), ("c", "h")])], root=True),
        N("item", [], [A("i", "int", ag="inherited"), A("o", "uint8", ag="synthesized"), A("h", "hue", ag="synthesized"), A("cl", "int16")],
          [Eq(("this", "o"), [("this", "i"), ("this", "cl")]), Eq(("this", "h"), [("this", "o")])])]))
    # kinds of values
    out.append(Spec("kinds", [main_phase(), ENUM,
        N("r", [C("k", "leaf", life=M)], [A("u", ("user", "uval"), ag="synthesized"), A("l", "leaf")], [
          Eq(("this", "u"), [("k", "b"), ("k", "f"), ("k", "d"), ("k", "e"), ("k", "p"), ("k", "s"), ("k", "u64")]),
          Eq(("k", "s"), [("this", "l")]), Eq(("k", "p"), [])], root=True),
        N("leaf", [], [A("b", "bool", ag="synthesized"), A("f", "float", ag="synthesized"), A("d", "double", ag="synthesized"),
                       A("e", "hue", ag="synthesized"), A("p", ("user", "uptr"), ag="inherited"), A("s", "string", ag="inherited"),
                       A("u64", "uint64", ag="synthesized"), A("c", "uint32")],
          [Eq(("this", "b"), [("this", "c")]), Eq(("this", "f"), [("this", "b"), ("this", "c")]), Eq(("this", "d"), [("this", "f")]),
           Eq(("this", "e"), [("this", "s")]), Eq(("this", "u64"), [("this", "c"), ("this", "p")])])]))
    # lists, and a nodeset some members of which have nothing to compute
    out.append(Spec("list", [main_phase(),
        Nodeset("stmt", lit("decl", "use", "skip")),
        Nodeset("env", op("|", lit("decl"), lit("use", "stmts")), [A("inn", "int", ag="inherited"), A("outt", "int", ag="synthesized")]),
        N("prog", [C("body", "stmts", True)], [A("n", "int", ag="synthesized")], [Eq(("body", "inn")), Eq(("this", "n"), [("body", "outt")])], root=True),
        N("stmts", [C("first", "env", True), C("rest", "stmts")], [],
          [Eq(("first", "inn"), [("this", "inn")]), Eq(("rest", "inn"), [("first", "outt"), ("this", "inn")]),
           Eq(("this", "outt"), [("rest", "outt"), ("first", "outt")])]),
        N("decl", [], [A("id", "int", True)], [Eq(("this", "outt"), [("this", "inn"), ("this", "id")])]),
        N("use", [C("x", "skip")], [A("cost", "int8")], [Eq(("this", "outt"), [("this", "inn"), ("this", "cost")])]),
        N("skip")]))
    # children of one type with more than one result, visited from the same function
    two = [A("w", "int", ag="synthesized"), A("h", "uint8", ag="synthesized"), A("v", "int")]
    out.append(Spec("twins", [main_phase(),
        N("begin", [C("a", "box", life=M), C("b", "box", life=M), C("c", "box")], [A("t", "int", ag="synthesized")],
          [Eq(("this", "t"), [("a", "w"), ("b", "h"), ("b", "w"), ("c", "h")])], root=True),
        N("box", [C("x", "cell", life=M), C("y", "cell", life=M)], list(two), [Eq(("this", "w"), [("x", "w"), ("y", "w"), ("this", "v")]), Eq(("this", "h"), [("y", "h"), ("x", "h")])]),
        N("cell", [], list(two), [Eq(("this", "w"), [("this", "v")]), Eq(("this", "h"), [("this", "v"), ("this", "w")])])]))
    # members of a nodeset that need another number of visits than each other and than the nodeset; the first member needs none
    out.append(Spec("members", [main_phase(),
        Nodeset("any", lit("na", "nb"), [A("q", "uint8", ag="inherited")]),
        Nodeset("out", lit("nb", "na"), [A("k", "int"), A("s", "int", ag="synthesized")]),
        N("begin", [C("a", "na"), C("b", "any"), C("c", "idle2"), C("d", "nc", life=M)], [A("x", "uint16", ag="synthesized"), A("y", "int", ag="synthesized")],
          [Eq(("this", "y"), [("a", "x1"), ("a", "x2")]), Eq(("b", "q"), [("a", "s")]), Eq(("this", "x"), [("a", "s"), ("a", "k")]),
           Eq(("a", "q"), [("a", "s")])], root=True),
        Nodeset("idle2", lit("nc", "nd")),
        N("na", [], [A("x0", "int64", ag="synthesized"), A("x1", "int", ag="synthesized"), A("x2", "int16", ag="synthesized")],
          [Eq(("this", "x2")), Eq(("this", "x0")), Eq(("this", "s"), [("this", "k")]), Eq(("this", "x1"), [("this", "k"), ("this", "s"), ("this", "q")])]),
        N("nb", [C("c", "any", life=M)], [A("z", "bool", ag="synthesized")],
          [Eq(("this", "s")), Eq(("this", "z"), [("this", "k")]), Eq(("c", "q"), [("this", "k"), ("this", "z"), ("this", "q")])]),
        N("nc", [], [A("v", "int")]),
        N("nd", [], [A("y", "int", ag="synthesized")], [Eq(("this", "y"))])]))
    return out


def random_spec(rnd, name, nn=3):
    """a random grammar whose equations respect a rank order, so that no tree is circular"""
    kinds = ["int", "int", "uint8", "int64", "uint16", "hue", "string", "bool"]
    names = ["rt"] + ["n%s" % "abcd"[i] for i in range(rnd.randint(2, nn))]
    rank = {}
    sets = []
    rest = names[1:]
    used_inh = set()
    ranks = rnd.choice((1, 2, 2, 3))

    def mk(prefix, k, inh):
        out = []
        for i in range(k):
            ag = rnd.choice(["synthesized", "synthesized", None] + (["inherited"] * 3 if inh else []))
            a = A("%s%d" % (prefix, i), rnd.choice(kinds), ag=ag)
            rank[a.name] = rnd.randint(1, ranks) if ag else 0
            out.append(a)
        return out
    for i in range(rnd.choice((0, 1, 1, 2))):
        mem = rnd.sample(rest, rnd.randint(1, len(rest)))
        inh = not any(m in used_inh for m in mem)
        at = mk("q%d_" % i, rnd.randint(1, 4), inh)
        if any(a.ag == "inherited" for a in at):
            used_inh |= set(mem)
        sets.append(Nodeset("set%d" % i, lit(*mem), at))
    in_set = {m for s in sets for m in s.expr[1]}
    nodes = []
    for n in names:
        kids = []
        for k in range(rnd.choice((1, 2, 2, 3)) if n == "rt" else rnd.choice((0, 0, 1, 2, 2))):
            kids.append(C("c%s%d" % (n[-1], k), rnd.choice(rest + [s.name for s in sets] * 2), life=M if rnd.random() < .4 else []))
        nodes.append(N(n, kids, mk("x%s" % n[-1], rnd.randint(0, 3), n != "rt" and n not in in_set), root=n == "rt"))
    if not any(a.ag == "synthesized" for a in nodes[0].attrs):
        nodes[0].attrs.append(A("res", "int", ag="synthesized"))
        rank["res"] = ranks
    sp = Spec(name, [main_phase(), ENUM] + sets + nodes)
    hs = heights(sp)
    if len(hs) < len(nodes):
        return random_spec(rnd, name, nn)
    # a child slot must show every inherited attribute of the nodes it may hold
    for n in nodes:
        for c in n.children:
            shown = type_attrs(sp, c)
            for m in sp.allowed(c):
                for a in all_attrs(sp, sp.node(m)).values():
                    if a.ag == "inherited" and a.name not in [x.name for x in shown.values()]:
                        return random_spec(rnd, name, nn)
    for n in nodes:
        mine = all_attrs(sp, n)

        def deps(target_who, a):
            """references that may be used for the target: (rank, position) strictly smaller"""
            r = rank[a.name]
            out = []
            for b in mine.values():
                if b is a and target_who == "this":
                    continue
                if not b.ag or rank[b.name] < r or (b.ag == "inherited" and rank[b.name] <= r):
                    out.append(("this", b.name))
            for ci, c in enumerate(n.children):
                for b in type_attrs(sp, c).values():
                    if target_who == c.name and b is a:
                        continue
                    rb = rank[b.name] if b.ag else 0
                    ok = rb < r
                    if rb == r:
                        if target_who == "this":
                            ok = True
                        else:
                            me = [x.name for x in n.children].index(target_who)
                            ok = ci < me
                    if ok:
                        out.append((c.name, b.name))
            return out
        for a in mine.values():
            if a.ag == "synthesized":
                ds = deps("this", a)
                n.eqs.append(Eq(("this", a.name), rnd.sample(ds, min(len(ds), rnd.choice((0, 1, 2, 3, 4))))))
        for c in n.children:
            for a in type_attrs(sp, c).values():
                if a.ag == "inherited":
                    ds = deps(c.name, a)
                    n.eqs.append(Eq((c.name, a.name), rnd.sample(ds, min(len(ds), rnd.choice((0, 1, 2, 3))))))
        rnd.shuffle(n.eqs)
    return sp
