from ..core import Query, HARNESS
from .. import palm
FUN = ["HTnew", "HTnew_String", "HTnew_Int", "HTnew_Ptr", "HTinsert", "HTremove", "HTlookup", "HTclear",
       "HTdelete", "HTelementCount", "hash/equality helpers", "MEMmalloc", "MEMfree", "STReq"]


def run(ctx):
    qs = []

    def q(name, h, defs, unwind=6, **k):
        qs.append(Query(name, HARNESS + "/palm/" + h, palm.all_src(), includes=[palm.PINC], defines=defs,
                        unwind=unwind, **k))
    steps = 5 if ctx.thorough else 4
    for size in (1, 2, 3):
        q("sequence_%dsteps_3keys_%dbuckets" % (steps, size), "ht_map.c",
          ["SIZE=%d" % size, "STEPS=%d" % steps], 8, timeout=1800 if ctx.thorough else 300,
          about="any %d operations over 3 keys with an arbitrary consistent hash, %d buckets" % (steps, size))
        npre = 4 if ctx.thorough else 3
        q("step_from_%d_entries_%dbuckets" % (npre, size), "ht_step.c",
          ["SIZE=%d" % size, "NPRE=%d" % npre], 8, timeout=1800 if ctx.thorough else 300,
          about="any 2 operations on a table of %d entries with arbitrary hash values" % npre)
    for npre in ((5, 6, 8) if ctx.thorough else (6,)):
        q("step_from_%d_entries_1buckets" % npre, "ht_step.c", ["SIZE=1", "NPRE=%d" % npre] + ([] if ctx.thorough else ["OPS=1"]), npre + 4,
          timeout=1800 if ctx.thorough else 300, about="any operation(s) on one chain of %d entries" % npre)
    for kind, nm in enumerate(("string", "int", "pointer")):
        for size in ((1, 2, 4) if ctx.thorough else (1, 4)):
            q("keys_%s_%dbuckets" % (nm, size), "ht_keys.c", ["KIND=%d" % kind, "SIZE=%d" % size]
              + (["SLEN=4"] if ctx.thorough else []), 8,
              about="symbolic %s keys: identity is content equality" % nm)
    ctx.run_all(qs)
    ctx.bounds = ["up to %d operations in sequence over 3 keys; 2 operations from any table of %d entries"
                  % (steps, 4 if ctx.thorough else 3),
                  "one chain of %s entries" % ("up to 8" if ctx.thorough else "6"),
                  "1, 2, 3 buckets; hash values are arbitrary 64-bit numbers per key (every collision pattern)",
                  "string keys up to %d bytes, int keys over the full range" % (3 if ctx.thorough else 2)]
    ctx.assumptions = ["allocation does not fail", "key comparison and hash functions are consistent"]
    return ctx.finish("model_checking", FUN,
                      "CBMC executes palm/src/hash_table.c symbolically against a map model; every operation "
                      "choice, key choice, value and hash value is symbolic")
