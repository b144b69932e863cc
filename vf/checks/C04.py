from ..core import Query, HARNESS
from .. import palm
FN = ["STRcpy", "STRncpy", "STRcat", "STRcatn", "STRsubStr", "STRsubstToken", "STRlower", "STRupper", "STRtoLower",
      "STRtoUpper", "STRtok", "STRnull", "STRitoa", "STRfmt"]


def run(ctx):
    qs = []
    for i, nm in enumerate(FN):
        cap = 5 if ctx.thorough else 4
        if nm in ("STRsubstToken", "STRtok"):
            cap = 4
        split = nm != "STRtok" and palm.SPLIT or []
        uw = 2 * cap + 2 if nm not in ("STRitoa", "STRfmt", "STRcatn") else 3 * cap + 4
        qs.append(Query("%s_len%d" % (nm, cap - 1), HARNESS + "/palm/str_build.c", palm.all_src(),
                        includes=[palm.PINC], defines=["FN=%d" % i, "CAP=%d" % cap], unwind=uw, unwindset=palm.SPLIT_UNWIND if split else (),
                        cbmc_flags=palm.SPLIT_FLAGS if split else (),
                        cbmc_extra=palm.MODELS + palm.FMT + split, timeout=1800 if ctx.thorough else 300,
                        about="%s on all argument strings of at most %d bytes" % (nm, cap - 1)))
    for a, b in ((20, 20), (20, 0), (0, 20)):
        for i, nm in enumerate(FN):
            if nm in ("STRcatn", "STRsubstToken", "STRtok", "STRitoa", "STRnull") or (b and nm not in ("STRcat", "STRfmt")):
                continue
            cap = max(a, b) + 3
            qs.append(Query("%s_long%d_%d" % (nm, a, b), HARNESS + "/palm/str_build.c", palm.all_src(), includes=[palm.PINC],
                            defines=["FN=%d" % i, "CAP=%d" % cap, "TAIL=3", "LONG=1", "PREA=%d" % a, "PREB=%d" % b, "SPLIT_MAX=48"], unwind=2 * cap + 8,
                            unwindset=["vf_malloc.0:50"], cbmc_flags=palm.SPLIT_FLAGS, cbmc_extra=palm.MODELS + palm.FMT + palm.SPLIT,
                            timeout=1800 if ctx.thorough else 300, about="%s on strings of %d and %d fixed characters followed by 2 letters in either case" % (nm, a, b)))
    ctx.run_all(qs)
    ctx.bounds = ["argument strings of at most 3 bytes (4 in the thorough tier), every byte 1..127; all int lengths "
                  "and non-negative starts for STRsubStr; STRitoa over [-1200, 1200]; STRfmt for one %s%s%d format"]
    ctx.assumptions = ["allocation does not fail", "C locale", "non-empty token for STRsubstToken",
                       "STRcatn of only empty/NULL strings may give NULL or an empty string",
                       "vsnprintf and strstr are /verif's models in the encoding"]
    return ctx.finish("model_checking", FN, "CBMC executes palm/src/str.c symbolically with bounds and pointer "
                      "checks; the produced text is compared byte by byte with a reference")
