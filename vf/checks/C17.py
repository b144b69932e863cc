import random
from .. import dsl, gen, phases
from ..phases import P, F, T, spec


def fixed():
    n = [dsl.Node("other", attrs=[dsl.Attr("a", "int")]), dsl.Node("more", attrs=[dsl.Attr("a", "int")])]
    s = []
    s.append(spec("names", [P("Pass_One", func="doFirst"), "phaseTwo", P("plain"), P("WithUid", uid="wU"), "TRAVERSE", "plain"],
                  [P("second", func="SecondFunc", short=True), dsl.Nodeset("some", dsl.lit("other", "r")),
                   F("PhaseTwo", ["SECOND", "Inner"], gate="gateTwo", uid="PTW"),
                   F("inner", ["withuid", "traverse", P("last", uid="LST", func="lastFunc")], gate="gateTwo"),
                   T("Traverse", "tRw", nodes=dsl.ref("some"), data=[("int", "x")])] + n))
    s.append(spec("shared", [P("a1", func="same"), P("a2", func="other_func"), P("a3", func="Same2", short=True), "a1"], n))
    s.append(spec("silent", [P("a1"), T("none", "NO", nodes=dsl.lit("other")), T("every", "ALL", data=[("string", "s")]),
                             T("rooted", "RO", nodes=dsl.op("-", dsl.lit("r", "other", "more"), dsl.lit("more"))), P("a2")], n))
    s.append(spec("cleanup_names", [P("check"), F("cleanup", [P("Freed"), "check"], cycle=True), T("copying", "CP")],
                  [T("unused", "UN"), P("unused_pass"), F("unused_phase", ["unused", "check"])]))
    s.append(spec("forward", ["c", "b", "a"], [F("a", ["p"]), F("b", ["a", "p"], cycle=True, gate="gb"), F("c", [P("q"), "t"], gate="gc"),
                                               T("t", "TT"), P("p")]))
    return s


def random_spec(rnd, i):
    """declarations in random order, reused, forward referenced and nested inline at random"""
    npass, ntrav, nphase = rnd.randint(2, 4), rnd.randint(0, 2), rnd.randint(1, 3)
    case = lambda x: "".join(c.upper() if rnd.random() < .5 else c for c in x)
    funcs = ["fnA", "fnb", "go_C", "pass9"]   # a function belongs to one pass
    rnd.shuffle(funcs)
    leafs = []
    for k in range(npass):
        nm = case("pass%d" % k)
        how = rnd.random()
        leafs.append(P(nm, func=funcs.pop(), short=rnd.random() < .5) if how < .35
                     else P(nm, uid="U%d" % k) if how < .55 else P(nm))
    for k in range(ntrav):
        nodes = rnd.choice([None, dsl.lit("r"), dsl.lit("other"), dsl.op("|", dsl.lit("other"), dsl.lit("r")),
                            dsl.op("&", dsl.lit("other", "r"), dsl.lit("r", "more"))])
        leafs.append(T(case("trav%d" % k), "t%d" % k, nodes=nodes, data=[("int", "v")] if rnd.random() < .4 else []))
    placed = set()

    def use(x):
        """inline the first time with probability, otherwise by name"""
        if x.name not in placed and rnd.random() < .5:
            placed.add(x.name)
            return x
        return case(x.name.lower())
    phases_ = []
    below = []
    for k in range(nphase):
        acts = [use(rnd.choice(leafs)) for _ in range(rnd.randint(1, 2))]
        if below and rnd.random() < .6:
            acts.insert(rnd.randint(0, len(acts)), use(rnd.choice(below)))
        ph = F(case("phase%d" % k), acts, gate=rnd.choice([None, "gateA", "gateB"]), cycle=rnd.random() < .3,
               uid="F%d" % k if rnd.random() < .3 else None)
        phases_.append(ph)
        below.append(ph)
    acts = [use(x) for x in phases_] + [use(rnd.choice(leafs)) for _ in range(rnd.randint(1, 2))]
    rnd.shuffle(acts)
    rest = [x for x in leafs + phases_ if x.name not in placed]
    rnd.shuffle(rest)
    sp = spec("any%d" % i, acts, rest + [dsl.Node("other", attrs=[dsl.Attr("a", "int")]), dsl.Node("more", attrs=[dsl.Attr("a", "int")])])
    if rnd.random() < .5:
        rnd.shuffle(sp.items)
    return sp


def run(ctx):
    specs = fixed()
    rnd = random.Random(ctx.seed + 17)
    want, i = (40 if ctx.thorough else 9), 0
    lim = 60 if ctx.thorough else 22
    while len(specs) < 5 + want:
        s = random_spec(rnd, i)
        i += 1
        if phases.max_events(s, True, 1) <= lim:
            specs.append(s)
    qs = []
    for s in specs:
        trav = any(isinstance(a.obj, dsl.Trav) for p in s.hierarchy().walk() if isinstance(p.obj, dsl.Phase) and p.obj.cycle
                   for a in p.walk())
        maxc = 2 if phases.max_events(s, True, 2) <= (lim if not trav or ctx.thorough else 14) else 1
        g = gen.generate(ctx, s)
        if not g or not gen.compiles(ctx, g, user=False):
            continue
        ctx.programs.append(s.name)
        # with repeated iterations, checking is symbolic only in the smaller ones
        chk = maxc == 1 or ctx.thorough or phases.max_events(s, True, 2) <= 16
        qs.append(phases.query(ctx, g, s.name, maxc=maxc, check=chk, timeout=1800 if ctx.thorough else 300,
                               about="any gate outcomes and change reports, tree check %s, 1..%d iterations" % ("on or off" if chk else "off", maxc)))
        qs.append(phases.query(ctx, g, s.name + "_tables", maxc=1, check=False, tables=True,
                               about="every entry of the generated tables, and the listing of the hierarchy"))
    ctx.run_all(qs)
    ctx.bounds = ["%d specifications (program_names; part drawn from VERIF_SEED) with up to %d events" % (len(ctx.programs), lim),
                  "1 or 2 iterations per cycle"]
    ctx.assumptions = phases.ASSUME
    return ctx.finish("model_checking", phases.FUN + ["CCNshowTree", "generated ids tables, gate declarations"],
                      "the code generated for each specification is executed symbolically (gates, change reports, checking "
                      "and cycle maximum symbolic) against a reference interpreter of the specification; tables and listing are asserted entry by entry")
