"""The generated consistency check (C14) and lifetimes (C15)."""
import random
from . import dsl, trees
from .dsl import Trav as T, Pass, Phase, Child as C, Attr as A, Node as N, Nodeset, Enum, Spec, Life, lit, ref, op
from .trees import Sk, acc, nt, PRE, stubs


# ---------------------------------------------------------------------- lifetimes: the oracle
def resolve(spec, path):
    """the action (a position) a range end names: for each component the first action of that name or uid, depth
    first, inside the previous component's phase"""
    at = spec.hierarchy()
    for comp in path.split("."):
        def names(a):
            u = getattr(a.obj, "uid", None)
            return {a.obj.name.lower()} | ({u.lower()} if u else set())
        # a uid also names the action; the search does not look inside an action that is named itself
        hit = [a for k in at.kids for a in k.walk() if comp.lower() in names(a)]
        if not hit:
            return None
        at = hit[0]
    return at


def inside(spec, life, var="id"):
    """C condition: the action about to run lies inside the range"""
    c = []
    if life.begin:
        a = resolve(spec, life.begin[0])
        c.append("%s >= %d" % (var, a.id if life.begin[1] else a.last + 1))
    if life.end:
        a = resolve(spec, life.end[0])
        c.append("%s <= %d" % (var, a.last) if life.end[1] else "%s < %d" % (var, a.id))
    return "(" + (" && ".join(c) or "true") + ")"


def viol(spec, life, present):
    """C condition: this lifetime is broken, given the C condition that the item is present"""
    i = inside(spec, life)
    if not life.ranged:
        return {"disallowed": present, "mandatory": "!(%s)" % present}.get(life.kind, "false")
    return {"disallowed": "%s && (%s)" % (i, present), "allowed": "!%s && (%s)" % (i, present),
            "mandatory": "%s && !(%s)" % (i, present), "optional": "!%s && !(%s)" % (i, present)}[life.kind]


# ---------------------------------------------------------------------- harness
CTI = r'''
static int errors, want_min, want_max;
static size_t id;
void CTI(enum cti_type type, bool newline, const char *format, ...) { if (type == CTI_ERROR) errors++; }
void CTIobj(enum cti_type type, bool newline, struct ctinfo obj, const char *format, ...) { if (type == CTI_ERROR) errors++; }
int CTIgetErrors(void) { return errors; }
int CTIgetWarnings(void) { return 0; }
void CTIabortOnError(void) { if (errors) { vf_assert(0, "the check itself does not end the process"); STOP(); } }
void CTIabortCompilation(void) { vf_assert(0, "the check itself does not end the process"); STOP(); }
void CTIabortOutOfMemory(unsigned int s) { STOP(); }
size_t CCNgetCurrentActionId() { return id; }
'''


def h_check(spec, sks, nids):
    o = [PRE, CTI, stubs(spec), "static node_st *ext;\nstatic char some[2] = \"s\";"]
    leaf = min(spec.nodes, key=lambda n: len(spec.ctor_params(n)))
    body = []
    for t, sk in enumerate(sks):
        sk.number("n%d_" % t)
        o.append("static void tree%d(void)\n{" % t)
        b = []
        viols = []
        nodes = list(sk.walk())
        for s in reversed(nodes):
            n = s.node
            at = trees.classic(spec, n)
            vals = []
            for i, a in enumerate(at):
                k = spec.akind(a.type)
                if k in ("string", "link"):
                    b.append("bool %s_h%d = vf_bool();" % (s.v, i))
                    vals.append("(%s_h%d ? %s : NULL)" % (s.v, i, "some" if k == "string" else "ext"))
                else:
                    vals.append("0")
            args = []
            for p in spec.ctor_params(n):
                if isinstance(p, A):
                    args.append(vals[at.index(p)])
                else:
                    kd = s.kids[n.children.index(p)]
                    args.append(kd.v if kd else "NULL")
            b.append("node_st *%s = AST%s(%s);" % (s.v, n.name.lower(), ", ".join(args)))
            for c, kd in zip(n.children, s.kids):
                if not c.ctor and kd:
                    b.append("%s = %s;" % (acc(n, c, s.v), kd.v))
            for i, a in enumerate(at):
                if not (a.ctor and a in n.attrs) and spec.akind(a.type) in ("string", "link"):
                    b.append("%s = %s;" % (acc(n, a, s.v), vals[i]))
        for s in nodes:
            n = s.node
            at = trees.classic(spec, n)
            for c, kd in zip(n.children, s.kids):
                if kd and kd.node.name.lower() not in spec.allowed(c):
                    viols.append(["true"])
                v = [viol(spec, l, "true" if kd else "false") for l in c.life]
                if v:
                    viols.append(v)
            for i, a in enumerate(at):
                if spec.akind(a.type) in ("string", "link") and a.life:
                    viols.append([viol(spec, l, "%s_h%d" % (s.v, i)) for l in a.life])
            if n.life:
                viols.append([viol(spec, l, "true") for l in n.life])
        b.append("id = (size_t)vf_range(1, %d); errors = want_min = want_max = 0;" % nids)
        for v in viols:
            b.append("{ int k = 0; %s if (k) want_min++; want_max += k; }" % " ".join("if (%s) k++;" % x for x in v))
        b.append("vf_assert(TRAVstart(%s, TRAV_check) == %s, \"the check returns the tree\");" % (sk.v, sk.v))
        b.append("vf_assert(errors >= want_min, \"every violation of the specification is reported\");")
        b.append("vf_assert(errors <= want_max, \"nothing that satisfies the specification is reported\");")
        for s in nodes:
            for c, kd in zip(s.node.children, s.kids):
                b.append("vf_assert(%s == %s, \"the check leaves the tree alone\");" % (acc(s.node, c, s.v), kd.v if kd else "NULL"))
        o += ["    " + x for x in b] + ["}"]
        body.append("    tree%d();" % t)
    o.append("void harness(void)\n{\n    ext = AST%s(%s);" % (leaf.name.lower(), ", ".join("0" for _ in spec.ctor_params(leaf))))
    o += body + ["    vf_reach();\n}"]
    return "\n".join(o) + "\n"


def slot_trees(rnd, spec):
    """for every node type and child slot: the slot absent and filled with every node type, allowed or not; the rest
    of the tree random"""
    out = []
    for n in spec.nodes:
        for i, c in enumerate(n.children):
            for y in [None] + spec.nodes:
                sk = trees.skeleton(rnd, spec, n, 3, .4, 2)
                sk.kids[i] = trees.skeleton(rnd, spec, y, 2, .5, 1) if y else None
                if rnd.random() < .4:
                    # below another node, so that the check must get there
                    ups = [(m, j) for m in spec.nodes for j, d in enumerate(m.children) if n.name.lower() in spec.allowed(d)]
                    if ups:
                        m, j = rnd.choice(ups)
                        up = Sk(m, [None] * len(m.children))
                        up.kids[j] = sk
                        sk = up
                out.append(sk)
        if not n.children:
            out.append(Sk(n, []))
    return out


def mandatory(rnd, spec, p=.45):
    """unranged mandatory on random children and string/link attributes"""
    for n in spec.nodes:
        for c in n.children:
            c.life = [Life("mandatory")] if rnd.random() < p else []
        for a in n.attrs:
            if spec.akind(a.type) in ("string", "link") and rnd.random() < p:
                a.life = [Life("mandatory")]
    for s in spec.of(Nodeset):
        for a in s.attrs:
            if spec.akind(a.type) in ("string", "link") and rnd.random() < p:
                a.life = [Life("mandatory")]
    return spec


# ---------------------------------------------------------------------- C15: hierarchies and ranges
def rnd_hierarchy(rnd, maxacts=14):
    cnt = [0]
    named = []

    def mk(d):
        cnt[0] += 1
        i = cnt[0]
        r = rnd.random()
        uid = rnd.choice([None, "U%dx" % i, "u%dY" % i])
        if d < 3 and r < .45 and cnt[0] < maxacts:
            kids = [mk(d + 1) for _ in range(rnd.randint(1, 3))]
            ph = Phase("ph%d" % i, kids, uid=uid, cycle=rnd.random() < .25)
            named.append(ph)
            return ph
        if r < .85:
            return Pass("pa%d" % i, uid=uid)
        return T("tr%d" % i, "T%d" % i, lit("r"))
    top = [mk(1) for _ in range(rnd.randint(3, 5))]
    extra = []
    # a phase referenced a second time, by name
    if named and rnd.random() < .6:
        ph = rnd.choice(named)
        holder = Phase("again", [ph.name, Pass("lastone")]) if rnd.random() < .5 else None
        if holder:
            top.insert(rnd.randint(0, len(top)), holder)
        else:
            top.append(ph.name)
    main = Phase("main", top, start=True)
    return main


def rnd_path(rnd, spec):
    acts = [a for a in spec.hierarchy().walk()][1:]
    for _ in range(50):
        a = rnd.choice(acts)
        comps = []
        p = a
        while p.parent:
            if p is a or rnd.random() < .4:
                u = getattr(p.obj, "uid", None)
                nm = u if u and rnd.random() < .4 else p.obj.name
                comps.append(rnd.choice([nm, nm, nm.upper(), nm.lower()]))
            p = p.parent
        path = ".".join(reversed(comps))
        if resolve(spec, path):
            return path
    return acts[0].obj.name


def rnd_life(rnd, spec, kinds):
    k = rnd.choice(kinds)
    r = rnd.random()
    b = (rnd_path(rnd, spec), rnd.random() < .5) if r < .8 else None
    e = (rnd_path(rnd, spec), rnd.random() < .5) if r > .25 or b is None else None
    return Life(k, b, e)


def life_spec(rnd, name):
    main = rnd_hierarchy(rnd)
    base = [main, N("r", [C("a", "x", True), C("b", "grp"), C("Cc", "r")], [A("s", "string"), A("lnk", "x", True), A("n", "int")], root=True),
            N("x", [C("k", "y")], [A("s2", "string", True)]), N("y"), N("Zed", [C("down", "grp", True)]),
            Nodeset("grp", lit("x", "y", "Zed"))]
    s = Spec(name, base)
    K = ["disallowed", "allowed", "mandatory", "optional"]
    for n in s.nodes:
        for f in list(n.children) + [a for a in n.attrs if s.akind(a.type) in ("string", "link")]:
            f.life = [rnd_life(rnd, s, K) for _ in range(rnd.choice((0, 1, 1, 1, 2, 2, 3)))]
            if rnd.random() < .12:
                f.life = [Life(rnd.choice(["disallowed", "mandatory"]))] + f.life
        if not n.root and (n.children or n.attrs):
            n.life = [rnd_life(rnd, s, K[:2]) for _ in range(rnd.choice((0, 1, 1, 2)))]
    return s, s.hierarchy().last
