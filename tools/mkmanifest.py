#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below; every property without a check is not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "bounded model checking of the real C code (CBMC: symbolic execution to SAT), counterexamples replayed natively"
TG = "bounded model checking (CBMC) of the C code the current cocogen generates for a corpus of specifications"
TF = "bounded model checking (CBMC) of the front end of cocogen, linked with its own generated code, on symbolic specifications; counterexamples replayed natively"
N = {
    "C01": (T, "palm/src/hash_table.c symbolically executed: every bounded history of operations with symbolic keys, values and hash values; 64-bit default hash truncated to a small symbolic range; allocation does not fail"),
    "C02": (T, "palm/src/hash_table.c: whole-table operations and copies on tables built from symbolic entries, within the stated entry bound"),
    "C03": (T, "palm/src/str.c predicates against reference loops for all strings up to the stated length"),
    "C04": (T, "palm/src/str.c builders against reference results for all strings up to the stated length; libc models listed in the evidence"),
    "C05": (T, "palm/src/memory.c with allocation that may fail at any point"),
    "C06": (T, "palm/src/ctinfo.c with exit and output replaced by recorders; vsnprintf/strtok are models"),
    "C08": (TG, "copra/src/phase_driver.c with the tables generated for a corpus of action hierarchies, against a reference interpreter; gate results, change reports and the iteration maximum are symbolic"),
    "C09": (TG, "as C08, with tree checks: the id seen by every action and check, and which check fails, are compared with the declared positions"),
    "C11": (TG, "constructors, accessors (also through nodesets) and misuse reports of every node type of the corpus, symbolic values"),
    "C12": (TG, "CCNcopy on concrete tree shapes with symbolic attribute values, string contents, positions and links"),
    "C13": (TG, "CCNfree (also around CCNcopy) on concrete tree shapes with every allocation and release recorded; which strings are present and link targets symbolic"),
    "C07": (TG, "copra/src/dynamic_core.c with generated vtables; user functions choose symbolically what to traverse, return and start"),
    "C16": (TG, "generated vtables and child functions of a corpus of target sets; which user functions descend is symbolic"),
    "C19": (TG, "generated data initialisers and finalisers with fresh memory holding arbitrary bytes and symbolic stored values"),
    "C14": (TG, "the generated check traversal on concrete trees (every slot absent or filled with every node type); presence of attributes symbolic; CTI is a counter"),
    "C15": (TG, "the generated check traversal for every (symbolic) action id under random hierarchies and lifetimes"),
    "C17": (TG, "specifications with random declaration orders, references, names, functions, gates and target sets: the generated compiler against a reference interpreter of the specification, and every table entry and the hierarchy listing"),
    "C18": (TG, "attribute grammars (fixed and random) on concrete trees with symbolic classic attributes: values of all attributes and calls of every equation against a reference evaluation"),
    "C20": (TF, "set operations and the evaluation of nodeset expressions on random specifications, some names symbolic, against bit-set algebra"),
    "C21": (TF, "the semantic checks on specifications whose names, references, markers and types are symbolic, against rules written in the check"),
    "C22": (TF, "the dependency graph with symbolic dependencies (all of 3 attributes; part of 4) against transitive closure; partitions with symbolic kinds"),
    "C23": (TF, "symbol tables over symbolic names against a linear search"),
    "C10": (TG, "as C08, with action/phase errors signalled at any action and breakpoints given by any id or any short path text"),
}
NA = {
    "C24": "the accepted language lives in flex/bison generated table-driven automata reading a FILE: the DFA tables and the LALR stack loop over a symbolic text do not unroll within reach of CBMC beyond a few characters, which is far below any specification; the semantic actions are exercised (not decided) by every other generator check",
    "C25": "a relation between two whole runs of the generator over the real file system (directory walk, reads, writes): the code is file I/O through stdio and opendir, which this family cannot encode within reach",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in N and os.path.exists(V + "/vf/checks/%s.py" % i):
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": N[i][0], "level": "model_checking",
                       "level_note": N[i][1]})
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in [c["property"] for c in checks]]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q run.py vf", "checks": checks, "not_applicable": na,
     "notes": "Every check: python3 run.py <ID>. No hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
