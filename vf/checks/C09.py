import random
from .. import gen, phases


def run(ctx):
    specs = phases.corpus()
    rnd = random.Random(ctx.seed + 100)
    for i in range(16 if ctx.thorough else 3):
        specs.append((phases.random_spec(rnd, "rnd%d" % i, 9 if ctx.thorough else 6), 0))
    qs = []
    for s, _ in specs:
        maxc = 2
        if phases.max_events(s, True, 2) > (60 if ctx.thorough else 21):
            continue
        g = gen.generate(ctx, s)
        if not g or not gen.compiles(ctx, g):
            continue
        ctx.programs.append(s.name)
        qs.append(phases.query(ctx, g, s.name, maxc=maxc, check="bad", timeout=1800 if ctx.thorough else 300,
                               about="ids in every handler; tree checking on or off; any check may fail"))
    ctx.run_all(qs)
    ctx.bounds = ["%d action hierarchies (listed under program_names; part drawn from VERIF_SEED)" % len(ctx.programs),
                  "at most 2 iterations per cycle"]
    ctx.assumptions = phases.ASSUME
    return ctx.finish("model_checking", phases.FUN, "as C08, with the id seen by every handler and the place and "
                      "outcome of every tree check compared with the declared positions")
