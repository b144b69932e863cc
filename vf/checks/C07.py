import random
from .. import trees, travs


def queries(ctx, seed):
    rnd = random.Random(ctx.seed + seed)
    qs = []
    for g in trees.gens(ctx, [travs.stack_spec("stack%d" % i, i) for i in range(2)]):
        tv = g.spec.of(travs.T)
        for part in range(8 if ctx.thorough else 4):
            sk = trees.skeletons(rnd, g.spec, 3, 7 if ctx.thorough else 6)[part % 3]
            sk2 = trees.skeletons(rnd, g.spec, 3, 4)[(part + 1) % 3]
            q = trees.tquery(g, "stack%d" % part, travs.h_stack(g.spec, sk, sk2, tv[(part + 1) % 3], part), unwind=10,
                             about="outer %s over %s, inner over %s" % (tv[part % 3].name, sk.show(), sk2.show()))
            qs.append(q)
    return qs


def run(ctx):
    ctx.run_all(queries(ctx, 7))
    ctx.bounds = ["2 specifications with three traversals, 8 (16) pairs of an outer tree of up to 6 (7) and an inner tree of up to 4 nodes",
                  "symbolic per visit: leave the children, traverse them, return NULL or another node, start a nested traversal (same or other kind) before or after; nesting depth 2"]
    ctx.assumptions = ["code generated by the current cocogen for the listed specifications", "allocation does not fail"]
    return ctx.finish("model_checking", ["TRAVstart", "TRAVpush", "TRAVpop", "TRAVdo", "TRAVopt", "TRAVchildren", "TRAVgetCurrent", "the traversal vtables"],
                      "CBMC executes copra/src/dynamic_core.c with user functions whose behaviour is symbolic")
