import random
from .. import trees


def run(ctx):
    rnd = random.Random(ctx.seed + 11)
    specs = [trees.mix(), trees.rec()] + trees.edges() + [trees.rnd_spec(rnd, "rnd%d" % i) for i in range(20 if ctx.thorough else 5)]
    qs = []
    for g in trees.gens(ctx, specs):
        qs.append(trees.tquery(g, "ctor", trees.h_ctor(g.spec), about="every constructor with any arguments, then any two field writes"))
        if g.spec.name in ("mix", "rnd0", "nodecase") or ctx.thorough:
            qs.append(trees.tquery(g, "ctor_ndebug", trees.h_ctor(g.spec), defines=["NDEBUG"], about="the same in an unchecked build"))
        qs.append(trees.tquery(g, "misuse", trees.h_misuse(g.spec), about="any accessor on a node of any type"))
    ctx.run_all(qs)
    ctx.bounds = ["%d specifications (program_names; part drawn from VERIF_SEED)" % len(ctx.programs),
                  "all constructor arguments, default values and two consecutive writes symbolic"]
    ctx.assumptions = ["code generated by the current cocogen for the listed specifications", "allocation does not fail"]
    return ctx.finish("model_checking", ["AST<node>() constructors", "NewNode", "CCNaccess_* accessors and macros",
                                         "nodeset accessors", "CCNaccesserror_*"],
                      "CBMC executes the generated constructors and accessors with symbolic arguments and writes and compares "
                      "every field with the declared one")
