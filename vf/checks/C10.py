import random
from .. import gen, phases, dsl
from ..phases import P, F, T, spec


def run(ctx):
    specs = [s for s, _ in phases.corpus()]
    qs = []
    to = 1800 if ctx.thorough else 300
    gs = {}
    names = ("flat", "gates", "deep", "cyclephase", "reuse", "cyclegate", "startcycle", "nestedcycle", "toplevel", "twocycles")
    for s in specs:
        if s.name not in names:
            continue
        g = gen.generate(ctx, s)
        if not g or not gen.compiles(ctx, g):
            continue
        gs[s.name] = g
        ctx.programs.append(s.name)
        if phases.max_events(s, False, 2) <= 30:
            qs.append(phases.query(ctx, g, s.name + "_errors", maxc=2, check=False, errors=True, timeout=to,
                                   about="any action may signal an action or phase error or a change"))
            qs.append(phases.query(ctx, g, s.name + "_id", maxc=2, check=False, brk="id", timeout=to,
                                   about="any breakpoint id"))
    short = [spec("names1", [P("a"), F("b", [P("c"), F("a1", [P("d"), "c"])]), F("cc", ["c"])]),
             spec("names2", [F("b", [F("c", [P("a")], gate="gatea"), F("d", ["a"])]), F("d1", ["a"]), "a"]),
             spec("names3", [F("b", [F("bb", [P("c"), F("b1", [P("d")])])], cycle=True), "c", F("ab", ["d"], gate="gatea"), "d"])]
    for s in short:
        g = gen.generate(ctx, s)
        if not g or not gen.compiles(ctx, g):
            continue
        ctx.programs.append(s.name)
        for ln, al in ((4, "abcdC."), (6, "abcd1.")) if ctx.thorough else ((5, "abcdD1."),):
            qs.append(phases.query(ctx, g, "%s_path%d" % (s.name, ln), maxc=2, check=False, brk=("path", ln, al), timeout=to,
                                   about="any breakpoint text of up to %d characters over '%s'" % (ln, al)))
        if ctx.thorough or s.name == "names1":
            qs.append(phases.query(ctx, g, "%s_path_errors" % s.name, maxc=1, check=False, errors=True, brk=("path", 3, "abcd."),
                                   timeout=to, about="breakpoints together with error signals"))
    for s in specs:
        if s.name == "deep":
            g = gs.get("deep")
            if g:
                for b in ("main.d1.d2.d3.p1", "d1.d2.p2", "D1.D2.d3", "d1", "main", "d2.t1", "d1.p2", "d3.p3", "d1.d2.d3.p1.x", "p3"):
                    qs.append(phases.query(ctx, g, "deep_" + b.replace(".", "_"), maxc=1, check=False, brk=("str", b), errors=True,
                                           timeout=to, about="breakpoint " + b))
    ctx.run_all(qs)
    ctx.bounds = ["%d action hierarchies" % len(ctx.programs), "at most 2 iterations per cycle",
                  "breakpoint texts: all up to 5 (quick) or 6 (thorough) characters over a small alphabet on hierarchies with short names; "
                  "every id up to one past the last"]
    ctx.assumptions = phases.ASSUME + ["a breakpoint does not name a phase skipped by its gate (whether that counts as executed is not specified)",
                                       "a breakpoint text does not start or end with a dot"]
    return ctx.finish("model_checking", phases.FUN, "as C08, with error signals and breakpoints (id and text) symbolic")
