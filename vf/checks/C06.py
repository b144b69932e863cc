from ..core import Query, HARNESS
from .. import palm
REN = ["-D%s=vf_%s" % (f, f) for f in ("exit", "fprintf", "fputc", "fputs", "putc")]


def run(ctx):
    st = 6 if ctx.thorough else 4
    mk = dict(includes=[palm.PINC], cbmc_extra=palm.MODELS + palm.FMT, flags=REN)
    qs = [Query("counters_%dcalls" % st, HARNESS + "/palm/cti.c", palm.all_src(),
                defines=["MODE=0", "STEPS=%d" % st], unwind=12, timeout=600, **mk,
                about="any sequence of %d diagnostics and abort requests" % st),
          ]
    qs += [Query("printed_text_type%d_len%d%s%s" % (t, n, "_nl" if nl else "", "_obj" if obj else ""), HARNESS + "/palm/cti.c", palm.all_src(),
                 defines=["MODE=1", "ML=%d" % n, "TYPE=%d" % t, "NL=%d" % nl] + (["OBJ"] if obj else []),
                 unwind=12, object_bits=10, timeout=400, includes=[palm.PINC],
                 cbmc_extra=palm.MODELS + palm.FMT + palm.SPLIT, cbmc_flags=palm.SPLIT_FLAGS,
                 unwindset=palm.SPLIT_UNWIND, flags=REN,
                 about="header and text of one message of %d characters" % n)
           for t in range(4) for n in ((1, 2, 3) if ctx.thorough else (2,))
           for nl, obj in (((0, 0), (0, 1), (1, 0), (1, 1)) if ctx.thorough else ((t % 2, t // 2),) + (((0, 1 - t // 2),) if t == 1 else ()))]
    ctx.run_all(qs)
    ctx.bounds = ["sequences of %d diagnostic calls (any type, with or without location)" % st,
                  "printed text for formatted messages with %s arguments of 2 (quick) or 1 to 3 (thorough) characters, no line wrapping"]
    ctx.assumptions = ["vsnprintf and strtok are /verif's models in the encoding", "allocation does not fail"]
    return ctx.finish("model_checking", ["CTI", "CTIobj", "CTIgetErrors", "CTIgetWarnings", "CTIabortOnError",
                                         "CTIabortCompilation", "CTIabortOutOfMemory"],
                      "CBMC executes palm/src/ctinfo.c with exit and the output calls replaced by recorders")
