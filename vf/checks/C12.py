import random
from .. import trees


def run(ctx):
    rnd = random.Random(ctx.seed + 12)
    specs = [trees.mix(), trees.rec()] + [trees.rnd_spec(rnd, "rnd%d" % i) for i in range(16 if ctx.thorough else 4)]
    qs = []
    for g in trees.gens(ctx, specs):
        big = g.spec.name in ("mix", "rec")
        for part in range((6 if big else 3) if ctx.thorough else (4 if big else 2)):
            sks = trees.skeletons(rnd, g.spec, 5 if ctx.thorough else 3, 9 if ctx.thorough else 7)
            q = trees.tquery(g, "copy%d" % part, trees.h_copy(g.spec, sks), unwind=8, about="copying " + "; ".join(s.show() for s in sks))
            qs.append(q)
    ctx.run_all(qs)
    ctx.bounds = ["%d specifications (program_names; part drawn from VERIF_SEED), concrete tree shapes of up to %d nodes" % (
        len(ctx.programs), 9 if ctx.thorough else 7),
        "all attribute values, positions, link targets and string contents symbolic; strings of 1 or 2 characters or NULL"]
    ctx.assumptions = ["code generated by the current cocogen for the listed specifications", "allocation does not fail"]
    return ctx.finish("model_checking", ["CCNcopy", "CPY<node>", "CopyBaseNode", "TRAVstart/TRAVopt/TRAVdo", "AST<node>()", "STRcpy"],
                      "CBMC executes the generated copy traversal on trees whose attribute values are symbolic")
