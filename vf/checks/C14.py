import random
from .. import trees, checkt


def run(ctx):
    rnd = random.Random(ctx.seed + 14)
    specs = [checkt.mandatory(rnd, s) for s in [trees.mix(), trees.rec()] + [trees.rnd_spec(rnd, "rnd%d" % i) for i in range(16 if ctx.thorough else 4)]]
    qs = []
    for g in trees.gens(ctx, specs):
        sks = checkt.slot_trees(rnd, g.spec) + trees.skeletons(rnd, g.spec, 24 if ctx.thorough else 8, 9)
        rnd.shuffle(sks)
        n = 24
        for i in range(0, len(sks), n):
            qs.append(trees.tquery(g, "check%d" % (i // n), checkt.h_check(g.spec, sks[i:i + n], 9), unwind=12, palm_excl=("dbug.c", "ctinfo.c"),
                                   drop_copra=("phase_driver.c",), exclude=("action_handling.c",),
                                   about="checking " + "; ".join(s.show() for s in sks[i:i + n])[:2000]))
    ctx.run_all(qs)
    ctx.bounds = ["%d specifications (program_names; part drawn from VERIF_SEED)" % len(ctx.programs),
                  "for every node type and child slot, the slot absent and filled with every node type, plus random trees of up to 9 nodes; "
                  "which string and link attributes are present is symbolic"]
    ctx.assumptions = ["code generated by the current cocogen for the listed specifications", "allocation does not fail", "CTI is a counter of error messages"]
    return ctx.finish("model_checking", ["CHK<node>", "TypeIs<nodeset>", "TRAVstart", "TRAVchildren"],
                      "CBMC executes the generated check traversal; the number of reported errors is compared with the number of violations the specification implies")
