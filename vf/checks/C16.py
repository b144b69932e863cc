import random
from .. import trees, travs


def run(ctx):
    rnd = random.Random(ctx.seed + 16)
    specs = travs.reach_specs(rnd, 16 if ctx.thorough else 4)
    qs = []
    for g in trees.gens(ctx, specs):
        jobs = []
        for t in g.spec.of(travs.T):
            for hit, sk in travs.paths(g.spec, t):
                if hit or rnd.random() < .3:
                    jobs.append((t, sk))
            for sk in trees.skeletons(rnd, g.spec, 4 if ctx.thorough else 2, 8):
                jobs.append((t, sk))
        rnd.shuffle(jobs)
        n = 18
        for i in range(0, len(jobs), n):
            part = jobs[i:i + n]
            q = trees.tquery(g, "reach%d" % (i // n), travs.h_reach(g.spec, part, (i // n) % 2 == 1), unwind=13,
                             about="traversals " + "; ".join("%s: %s" % (t.name, s.show()) for t, s in part)[:2000])
            qs.append(q)
    ctx.run_all(qs)
    ctx.bounds = ["%d specifications (program_names; part drawn from VERIF_SEED), 3-5 traversals each" % len(ctx.programs),
                  "for every traversal, node type and child slot: a tree with the shortest path to a target in that slot, plus random trees of up to 8 nodes",
                  "which user functions traverse their children is symbolic for every node"]
    ctx.assumptions = ["code generated by the current cocogen for the listed specifications", "allocation does not fail"]
    return ctx.finish("model_checking", ["TRAVstart", "TRAVdo", "TRAVopt", "TRAVchildren", "TRAV<child>", "the traversal vtables"],
                      "CBMC executes the generated vtables and the traversal core; every user function records its node and "
                      "descends or not by a symbolic choice, and the recorded visits are compared with the declared target sets")
