from ..core import Query, HARNESS
from .. import palm
REN = ["-D%s=vf_%s" % (f, f) for f in ("malloc", "realloc", "free", "exit", "calloc")]


def run(ctx):
    n = 6 if ctx.thorough else 4
    qs = [Query("wrappers_size_0_%d" % n, HARNESS + "/palm/mem.c", palm.all_src(), includes=[palm.PINC],
                defines=["N=%d" % n], flags=REN, unwind=n + 4, cbmc_extra=palm.MODELS, timeout=300, native=True,
                about="allocate, fill, copy, resize, free: symbolic sizes 0..%d, any allocation may fail" % n)]
    ctx.run_all(qs)
    ctx.bounds = ["block sizes 0..%d bytes, any pattern of allocation failures over the sequence malloc, copy, "
                  "realloc, free" % n]
    ctx.assumptions = ["malloc/realloc/free behave as the C standard says (stand-ins that may return NULL)"]
    return ctx.finish("model_checking", ["MEMmalloc", "MEMrealloc", "MEMfree", "MEMcopy", "CTIabortOutOfMemory",
                                         "CTIgetErrors"],
                      "CBMC executes palm/src/memory.c with allocators that fail symbolically")
