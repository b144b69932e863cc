from ..core import Query, HARNESS
from .. import palm
FN = ["STReq", "STReqci", "STReqn", "STRprefix", "STRsuffix", "STRsub", "STRlen", "STRonNull"]


def run(ctx):
    cap = 6 if ctx.thorough else 4
    qs = [Query("%s_len%d" % (nm, cap - 1), HARNESS + "/palm/str_pred.c", palm.all_src(), includes=[palm.PINC],
                defines=["FN=%d" % i, "CAP=%d" % cap], unwind=cap + 5, cbmc_extra=palm.MODELS,
                timeout=1800 if ctx.thorough else 300,
                about="%s on every pair of strings (or NULL) of at most %d bytes" % (nm, cap - 1))
          for i, nm in enumerate(FN)]
    for a, b in ((20, 20), (20, 0), (0, 20)) if not ctx.thorough else ((20, 20), (20, 0), (0, 20), (70, 70), (19, 20)):
        qs += [Query("%s_long%d_%d" % (nm, a, b), HARNESS + "/palm/str_pred.c", palm.all_src(), includes=[palm.PINC],
                     defines=["FN=%d" % i, "CAP=%d" % (max(a, b) + 3), "TAIL=3", "PREA=%d" % a, "PREB=%d" % b], unwind=max(a, b) + 5, cbmc_extra=palm.MODELS,
                     timeout=1800 if ctx.thorough else 300,
                     about="%s on strings of %d and %d fixed characters followed by any 2" % (nm, a, b))
               for i, nm in enumerate(FN) if nm not in ("STRsub", "STRonNull")]
    ctx.run_all(qs)
    ctx.bounds = ["strings of at most %d bytes, every byte 1..127, NULL where the function takes it" % (cap - 1),
                  "strings of up to 22 (thorough 72) bytes of which the last 2 are symbolic"]
    ctx.assumptions = ["C locale", "CBMC's models of strcmp/strncmp/strlen/tolower and /verif's model of strstr",
                       "STRsuffix is given non-NULL strings"]
    return ctx.finish("model_checking", FN, "CBMC executes palm/src/str.c symbolically against naive reference "
                      "predicates over fully symbolic string contents")
