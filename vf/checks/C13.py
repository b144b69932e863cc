import random
from .. import trees

REN = ["-Dmalloc=vf_malloc", "-Dfree=vf_free", "-Dcalloc=vf_calloc"]


def run(ctx):
    rnd = random.Random(ctx.seed + 13)
    specs = [trees.mix(), trees.rec()] + [trees.rnd_spec(rnd, "rnd%d" % i) for i in range(16 if ctx.thorough else 4)]
    qs = []
    for g in trees.gens(ctx, specs):
        big = g.spec.name in ("mix", "rec")
        for part in range((6 if big else 3) if ctx.thorough else 3):
            sks = trees.skeletons(rnd, g.spec, 3, 8 if ctx.thorough else 6)
            q = trees.tquery(g, "free%d" % part, trees.h_free(g.spec, sks, part % 3), unwind=8, flags=REN, unwindset=["%s.0:165" % f for f in ("vf_free", "retain", "unretain", "all_released")] + ["harness.0:20"], about="freeing " + "; ".join(s.show() for s in sks))
            qs.append(q)
    ctx.run_all(qs)
    ctx.bounds = ["%d specifications (program_names; part drawn from VERIF_SEED), concrete tree shapes of up to %d nodes" % (
        len(ctx.programs), 8 if ctx.thorough else 6), "attribute values, which strings are present and link targets symbolic"]
    ctx.assumptions = ["code generated by the current cocogen for the listed specifications", "allocation does not fail",
                       "malloc and free are recording wrappers around the real ones"]
    return ctx.finish("model_checking", ["CCNfree", "DEL<node>", "CCNcopy", "CPY<node>", "TRAVchildren", "MEMfree"],
                      "CBMC executes the generated free traversal with every allocation and release recorded, plus its own "
                      "use-after-free and double-free checks")
