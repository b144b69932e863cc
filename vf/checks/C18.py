import random
from .. import ag, gen, trees


def run(ctx):
    rnd = random.Random(ctx.seed + 18)
    specs = ag.fixed()
    want = 60 if ctx.thorough else 14
    specs += [ag.random_spec(rnd, "ag%d" % i, 4 if ctx.thorough else 3) for i in range(want)]
    qs, refused = [], 0
    for s in specs:
        g = gen.generate(ctx, s, trees.USER_TYPES, expect_ok=not s.name.startswith("ag"))
        if g is None:
            continue
        if g.status == 1:
            refused += 1       # not every grammar can be scheduled
            continue
        if g.status != 0:
            gen.spec_violation(ctx, s, "cocogen crashes or does not finish on an attribute grammar", g.log)
            continue
        if not gen.compiles(ctx, g):
            continue
        ctx.programs.append(s.name)
        sks = ag.skeletons(rnd, s, 8 if ctx.thorough else 4, 10 if ctx.thorough else 7)
        if not sks:
            continue
        text = ag.h_eval(s, sks)
        depth = max(ag_depth(k) for k in sks)
        qs.append(trees.tquery(g, "eval", text, unwind=max(6, depth + 3, 2 + sum(len(n.eqs) for n in s.nodes)), flags=["-Dexit=vf_exit"],
                               about="; ".join(k.show() for k in sks)))
    if refused:
        ctx.notes.append("%d random grammars refused by the scheduler" % refused)
    ctx.run_all(qs)
    ctx.bounds = ["%d grammars (program_names; part drawn from VERIF_SEED), up to %d trees each of up to about %d nodes" % (
        len(ctx.programs), 8 if ctx.thorough else 4, 14 if ctx.thorough else 11)]
    ctx.assumptions = ["evaluation functions are fixed injective-looking linear mixes of their arguments", "allocation does not fail"]
    return ctx.finish("model_checking", ["CCNevaluateAttributes", "CCNvisit_<node>_<n>", "readonly attribute accessors"],
                      "on concrete trees with symbolic classic attributes every attribute's value and the number of calls of "
                      "each equation are compared with a reference evaluation of the declared equations")


def ag_depth(s):
    return 1 + max([ag_depth(k) for k in s.kids if k] + [0])
