import random
from .. import gen, phases


def run(ctx):
    specs = phases.corpus()
    rnd = random.Random(ctx.seed)
    for i in range(24 if ctx.thorough else 6):
        s = phases.random_spec(rnd, "rnd%d" % i, 10 if ctx.thorough else 7)
        specs.append((s, 0))
    qs = []
    for s, _ in specs:
        maxc = 3
        if phases.max_events(s, False, 3) > (60 if ctx.thorough else 18):
            maxc = 2
        if phases.max_events(s, False, 2) > (60 if ctx.thorough else 18):
            continue
        g = gen.generate(ctx, s)
        if not g or not gen.compiles(ctx, g):
            continue
        ctx.programs.append(s.name)
        qs.append(phases.query(ctx, g, s.name, maxc=maxc, check=False, timeout=1800 if ctx.thorough else 300,
                               about="any gate outcomes, change reports and maximum of 1..%d iterations" % maxc))
        if s.name in ("cyclephase", "gates") or ctx.thorough:
            qs.append(phases.query(ctx, g, s.name + "_twice", maxc=2, check=False, twice=True, about="two runs in a row",
                                   timeout=1800 if ctx.thorough else 300))
    ctx.run_all(qs)
    ctx.bounds = ["%d action hierarchies (listed under program_names; part drawn from VERIF_SEED)" % len(ctx.programs),
                  "at most 3 iterations per cycle (2 where a hierarchy would exceed the event bound)"]
    ctx.assumptions = phases.ASSUME
    return ctx.finish("model_checking", phases.FUN, "the generated compiler is executed symbolically against a "
                      "reference interpreter of the declared hierarchy: gate results, change reports and the cycle maximum are symbolic")
