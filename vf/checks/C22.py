import os
import random
from .. import front

GR = "frontend/attribute_scheduler/"


def edges(bits, n):
    return "((%sull >> ((i) * %d + (j))) & 1)" % (hex(bits), n)


def bits(n, pairs):
    return sum(1 << (i * n + j) for i, j in pairs)


def show(pairs):
    return " ".join("%d->%d" % p for p in sorted(pairs)) or "none"


def q_graph(ctx, rnd, nm, n, owner, sym=None, base=(), copy=False, more=None, share=False, **kw):
    """sym: the dependencies that may or may not be there (None: all); base: those that are"""
    order = list(range(n * n))
    rnd.shuffle(order)
    allp = [(i, j) for i in range(n) for j in range(n)]
    sym = allp if sym is None else sym
    d = ["N=%d" % n, "OWNER={%s}" % ",".join(map(str, owner)), "ORDER={%s}" % ",".join(map(str, order)), "HTCAP=%d" % (2 * n + 1), "HTREG", "SHARE=%d" % share,
         "FIXED(i,j)=" + edges(bits(n, sym), n), "BASE(i,j)=" + edges(bits(n, base), n)]
    d += ["COPY"] if copy else []
    d += ["MORE=%d" % (more[0] * n + more[1])] if more is not None else []
    return front.query(ctx, nm, "gr.c", [GR + "graph.c"], defines=d, unwind=n + 2, max_unwind=n * n + 1, ht="model",
                       about="%d attributes (of nodes %s), dependencies %s and any of %s added in a random order%s%s" %
                       (n, owner, show(base), "all" if len(sym) == n * n else show(sym), ", then copied" if copy else "",
                        ", then one more" if more is not None else ""), **kw)


def q_part(ctx, rnd, nm, n, owner, base, unwind=0):
    order = list(range(n))
    rnd.shuffle(order)
    base = [(order[i], order[j]) for i, j in base]
    d = ["PARTITION", "SHARE=0", "N=%d" % n, "OWNER={%s}" % ",".join(map(str, owner)), "ORDER={%s}" % ",".join(map(str, order)), "HTCAP=%d" % (n + 2), "HTREG",
         "BASE(i,j)=" + edges(bits(n, base), n), "FIXED(i,j)=0"]
    return front.query(ctx, nm, "gr.c", [GR + "graph.c", GR + "partition_nodes.c", GR + "queue.c", "frontend/symboltable.c"], defines=d, unwind=n + 2 if not unwind else unwind, max_unwind=n * n + 2, ht="model",
                       about="partitions of %d attributes, each inherited or synthesized, with the dependencies %s" % (n, show(base)))


def pairs(rnd, n, k, acyclic=False):
    p = [(i, j) for i in range(n) for j in range(n) if i != j and (i < j or not acyclic)]
    return rnd.sample(p, min(k, len(p)))


def run(ctx):
    rnd = random.Random(ctx.seed)
    qs = [q_graph(ctx, rnd, "closure3", 3, [0, 0, 1])]
    k = 3 if not ctx.thorough else 10
    for i in range(k):
        n = rnd.choice([3, 4])
        al = [(a, b) for a in range(n) for b in range(n)]
        base = pairs(rnd, n, 2, True)
        qs.append(q_graph(ctx, rnd, "copy%d" % i, n, [rnd.randrange(2) for _ in range(n)], pairs(rnd, n, 2), base, copy=True))
        base = pairs(rnd, n, 2, True)
        qs.append(q_graph(ctx, rnd, "more%d" % i, n, [rnd.randrange(2) for _ in range(n)], pairs(rnd, n, 2), base, more=rnd.choice(al)))
        n = 4
        qs.append(q_graph(ctx, rnd, "closure4_%d" % i, n, [0, 0, 1, 1], pairs(rnd, n, 4), pairs(rnd, n, 1), share=True))
        # a chain through all attributes in an order that closes late; with and without one dependency back
        o = [0, 1, 3, 2] if i == 0 else rnd.sample(range(4), 4)
        qs.append(q_graph(ctx, rnd, "chain4_%d" % i, n, [0, 0, 1, 1] if i == 0 else [rnd.randrange(3) for _ in range(4)],
                          list(zip(o, o[1:]))))
        back = rnd.choice([(b, a) for b in range(4) for a in range(b)])
        qs.append(q_graph(ctx, rnd, "circle4_%d" % i, n, [rnd.randrange(3) for _ in range(4)], [(o[back[0]], o[back[1]])], list(zip(o, o[1:]))))
        n = 3
        qs.append(q_part(ctx, rnd, "partition%d" % i, n, [0, 0, 0], pairs(rnd, n, i + 1, True), 8))
    for o, owner in (([0, 1, 4, 3, 2], range(5)), ([2, 4, 3, 1, 0], [0, 1, 0, 2, 1])):
        qs.append(q_graph(ctx, rnd, "chain5_%d" % o[0], 5, owner, list(zip(o, o[1:]))))
    if os.environ.get("VF_ONLY"):
        qs = [x for x in qs if any(x.name.startswith(y) for y in os.environ["VF_ONLY"].split(","))]
    ctx.run_all(qs)
    ctx.bounds = ["closure: all 512 sets of dependencies of 3 attributes, and one fixed and 4 symbolic dependencies among 4 attributes of two nodes (%d choices), added in a random order" % k,
                  "chains: any part of a chain of 4 attributes (%d chains and owners) and of 5 (2 chains); chains of 4 with or without a dependency back (%d)" % (k, k),
                  "copies and additions to a closed graph: 3-4 attributes, 2 fixed and 2 symbolic dependencies (%d choices each)" % k,
                  "partitions: 3 attributes of one node, each inherited or synthesized, with 1-3 fixed acyclic dependencies"]
    ctx.assumptions = ["allocation does not fail", "hash tables follow the contract of C01 and C02 (harness/front/htmodel.c) in CBMC, with pointer keys named by the harness; counterexamples are replayed with the real ones",
                       "in the copy given to CBMC MEMmalloc(size) in frontend/attribute_scheduler is malloc(size) (the contract of C05), so that CBMC can give the blocks their type",
                       "an edge is added once, as CPR reports duplicates (C21)"]
    return ctx.finish("model_checking", ["GRnew, GRadd_node, GRadd_edge, GRclose_transitivity, GRlookup_node, GRlookup_edge, GRcopy, GRdelete",
                                         "GRget_node_dependencies, GRget_inter_node_dependencies", "partition_nodes and its queue"],
                      "CBMC executes cocogen's dependency graph on every subset of the symbolic dependencies; reachability, cycle reports, dependency lists and new "
                      "dependencies are compared with a transitive closure (Warshall), partitions with the smallest numbers that respect dependencies and kinds")
