from ..core import Query, HARNESS
from .. import palm
OPS = ["iterate", "map", "map_with_key", "map_with_data_and_key", "fold", "copy", "deep_copy", "cancel_and_empty"]


def run(ctx):
    qs = []
    for op, nm in enumerate(OPS):
        for size in ((1, 2, 3, 4) if ctx.thorough else (1, 2, 3)):
            n = 4 if ctx.thorough else 3
            qs.append(Query("%s_%dkeys_%dbuckets" % (nm, n, size), HARNESS + "/palm/ht_bulk.c", palm.all_src(),
                            includes=[palm.PINC], defines=["OP=%d" % op, "SIZE=%d" % size, "NKEYS=%d" % n],
                            unwind=8, timeout=1800 if ctx.thorough else 300,
                            about="%s over any subset of %d keys with arbitrary hash values" % (nm, n)))
    ctx.run_all(qs)
    ctx.bounds = ["tables holding any subset of %d keys, %s buckets, arbitrary hash values"
                  % (4 if ctx.thorough else 3, "1..4" if ctx.thorough else "1..3")]
    ctx.assumptions = ["allocation does not fail", "the callbacks are pure apart from recording their calls"]
    return ctx.finish("model_checking",
                      ["HTiterate", "HTiterateNext", "HTiterateCancel", "HTiterKey", "HTiterValue", "HTiterSetValue",
                       "HTmap", "HTmapWithKey", "HTmapWithDataAndKey", "HTfold", "HTcpy", "HTdeep_copy", "HTinsert",
                       "HTremove", "HTlookup", "HTdelete", "HTclear"],
                      "CBMC executes palm/src/hash_table.c symbolically; which keys are stored and how they hash "
                      "is symbolic; every visited entry is counted")
