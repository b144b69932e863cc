import random
from .. import trees, travs


def queries(ctx, seed):
    rnd = random.Random(ctx.seed + seed)
    specs = [travs.data_spec(rnd, "data%d" % i, 3 + i % 2) for i in range(24 if ctx.thorough else 8)]
    return [trees.tquery(g, "data", travs.h_data(g.spec), unwind=8,
                         about="; ".join("%s {%s}" % (t.name, ", ".join("%s %s" % x for x in t.data)) for t in g.spec.of(travs.T)))
            for g in trees.gens(ctx, specs)]


def run(ctx):
    ctx.run_all(queries(ctx, 19))
    ctx.bounds = ["%d specifications (program_names, drawn from VERIF_SEED) with 3-4 traversals of 1-7 data items of random types" % len(ctx.programs),
                  "fresh memory has arbitrary contents; stored values are symbolic; nested runs of the same and another traversal to depth 2 by symbolic choice"]
    ctx.assumptions = ["code generated by the current cocogen for the listed specifications", "allocation does not fail"]
    return ctx.finish("model_checking", ["TRAVdataInit<trav>", "TRAVdataFree<trav>", "DATA_<uid>_GET", "TRAVpush", "TRAVpop", "TRAVstart"],
                      "CBMC executes the generated data initialisers and the traversal core; freshly allocated blocks hold arbitrary bytes")
