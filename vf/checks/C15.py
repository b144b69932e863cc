import random
from .. import trees, checkt


def run(ctx):
    rnd = random.Random(ctx.seed + 15)
    pairs = [checkt.life_spec(rnd, "life%d" % i) for i in range(60 if ctx.thorough else 12)]
    last = {s.name: n for s, n in pairs}
    qs = []
    for g in trees.gens(ctx, [s for s, _ in pairs]):
        sks = [s for s in checkt.slot_trees(rnd, g.spec)]
        rnd.shuffle(sks)
        sks = sks[:30] + trees.skeletons(rnd, g.spec, 6, 6)
        n = 18
        for i in range(0, len(sks), n):
            qs.append(trees.tquery(g, "life%d" % (i // n), checkt.h_check(g.spec, sks[i:i + n], last[g.spec.name] + 1), unwind=12,
                                   palm_excl=("dbug.c", "ctinfo.c"), drop_copra=("phase_driver.c",), exclude=("action_handling.c",),
                                   about="checking " + "; ".join(s.show() for s in sks[i:i + n])[:2000]))
    ctx.run_all(qs)
    ctx.bounds = ["%d specifications (drawn from VERIF_SEED) with random action hierarchies of up to about 25 actions, nesting depth 4, phases referenced twice, "
                  "and random lifetimes (all kinds, inclusive/exclusive/omitted ends, names, uids, paths) on nodes, children and attributes" % len(ctx.programs),
                  "the id of the action about to run and which string and link attributes are present are symbolic; trees concrete"]
    ctx.assumptions = ["code generated by the current cocogen for the listed specifications", "allocation does not fail",
                       "CTI is a counter of error messages; the current action id is symbolic instead of set by the phase driver (C09 decides that it is the position)"]
    return ctx.finish("model_checking", ["CHK<node>", "TRAVstart", "TRAVchildren"],
                      "CBMC executes the generated check traversal for every action id; reported errors are compared with those the declared ranges imply")
