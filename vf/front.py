"""The front end of cocogen (symbol table, semantic checks, node sets, dependency graph) linked with its own generated code."""
import glob
import hashlib
import os
import re
import shutil
from .core import REPO, HARNESS, Query
from . import palm

CC = REPO + "/cocogen"
F = CC + "/frontend/"
INC = [CC + "/ccngen", CC, REPO + "/copra", palm.PINC]
CORE = [REPO + "/copra/src/dynamic_core.c", CC + "/ccngen/ast.c", CC + "/ccngen/trav.c", CC + "/ccngen/trav_data.c",
        CC + "/ccngen/vtables.c", CC + "/ccngen/ccn_free.c", CC + "/ccngen/ccn_copy.c"]
PALM = ("ctinfo.c", "dbug.c", "filesystem.c", "watchpoint.c")


def split(ctx):
    """copies in which the unions of per-type data pointers are structs (see trees.split_data)"""
    d = ctx.scratch + "/front"
    if not os.path.isdir(d):
        for sub in ("cocogen", "copra"):
            for root, dirs, files in os.walk(REPO + "/" + sub):
                dirs[:] = [x for x in dirs if x not in ("tests", "_build", ".git")]
                for f in files:
                    if not f.endswith((".c", ".h")):
                        continue
                    p = os.path.join(root, f)
                    dst = d + p[len(REPO):]
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    t = open(p, errors="replace").read()
                    # CBMC does not fold a cast from a constant pointer to an enum
                    t = re.sub(r"\((enum \w+)\)\s*(HT\w+\()", r"(\1)(unsigned long)\2", t)
                    # CBMC types an object by the size expression of malloc; C05 decides MEMmalloc
                    if "attribute_scheduler" in root:
                        t = "#include <stdlib.h>\n" + re.sub(r"\bMEMmalloc\(\s*(sizeof\([\w ]+\))\s*\)", r"malloc(\1)", t)
                        t = re.sub(r"\bMEMmalloc\(\s*sizeof\((struct \w+)\)\s*\+\s*sizeof\((struct \w+)\)\s*\)", r"malloc(sizeof(struct { \1 a; \2 b; }))", t)
                    open(dst, "w").write(t.replace("union NODE_DATA", "struct NODE_DATA_OF").replace("union TRAV_DATA", "struct TRAV_DATA_OF"))
    return ((CC, d + "/cocogen"), (REPO + "/copra", d + "/copra"))


def vtables(ctx, srcs):
    """for CBMC: the generated dispatch tables without the functions of traversals that are not linked (they would be
    unresolved anyway); every entry left out raises TRAVerror"""
    d = split(ctx)
    text = "".join(open(f, errors="replace").read() for f in srcs if os.path.exists(f))
    t = open(CC + "/ccngen/vtables.c").read()
    here = {}

    def keep(m):
        f = m.group(1)
        if f not in here:
            here[f] = re.search(r"\b%s\s*\(" % f, text) is not None
        return "&" + (f if here[f] or f.startswith("TRAVdata") else "TRAVerror")
    lines = [re.sub(r"&(\w+)", keep, ln) if "_vtable[_NT_SIZE]" in ln else ln for ln in t.split("\n")]
    p = "%s/cocogen/ccngen/vtables_%s.c" % (d[0][1][:-len("/cocogen")], hashlib.sha1("\n".join(lines).encode()).hexdigest()[:12])
    open(p, "w").write("\n".join(lines))
    return p


def query(ctx, name, harness, files, core=CORE, defines=(), unwind=8, ht=False, **kw):
    src = list(core) + [CC + "/" + f for f in files] + palm.all_src(PALM if ht else PALM + ("hash_table.c",))
    kw.setdefault("object_bits", 11)
    kw.setdefault("timeout", 1800 if ctx.thorough else 300)
    cx = palm.MODELS + list(kw.pop("cbmc_extra", ()))
    if ht == "model":
        # CBMC: the table model; native replay: the real table
        kw["native_sources"] = src
        cx.append(vtables(ctx, [f for f in src if not f.endswith("/vtables.c")]))
        src = [f for f in src if not f.endswith("/ccngen/vtables.c")]
        src = [f for f in src if not f.endswith(("/hash_table.c", "/palm/src/str.c"))]
        cx += [HARNESS + "/front/htmodel.c", HARNESS + "/front/strmodel.c"]
    return Query(name, HARNESS + "/front/" + harness, src, includes=INC, defines=list(defines), unwind=unwind,
                 cbmc_map=split(ctx), cbmc_extra=cx, max_unwind=kw.pop("max_unwind", unwind),
                 replay_flags=["-no-pie", "-Wl,--unresolved-symbols=ignore-all"] + list(kw.pop("replay_flags", ())), **kw)


# ---------------------------------------------------------------------- specifications as C text
# Every name is a C expression: '"lit"' or a buffer filled with a symbolic name. Flags are C expressions too.
def q(s):
    return '"%s"' % s


class B:
    """emits statements that build cocogen's own AST of a specification"""

    def __init__(self):
        self.out, self.n, self.top = [], 0, {}

    def var(self, init):
        self.n += 1
        v = "v%d" % self.n
        self.out.append("node_st *%s = %s;" % (v, init))
        return v

    def set(self, macro, v, val):
        if val is not None:
            self.out.append("%s(%s) = %s;" % (macro, v, val))

    def id(self, e):
        return "NULL" if e is None else self.var("mkid(%s)" % e)

    def chain(self, macro, vs):
        for a, b in zip(vs, vs[1:]):
            self.set(macro, a, b)
        return vs[0] if vs else "NULL"

    def add(self, kind, v):
        self.top.setdefault(kind, []).append(v)
        return v

    def phase(self, name, uid=None, start="false", actions=(), cycle=None):
        v = self.var("ASTiphase(%s, %s)" % (self.id(name), start))
        if uid:
            self.set("IPHASE_IPREFIX", v, self.id(uid))
        self.set("IPHASE_IS_CYCLE", v, cycle)
        acts = []
        for a in actions:
            i = self.var("ASTiactions()")
            self.set("IACTIONS_REFERENCE", i, self.id(a))
            acts.append(i)
        if acts:
            self.set("IPHASE_IACTIONS", v, self.chain("IACTIONS_NEXT", acts))
        return self.add("phase", v)

    def trav(self, name, uid, nodes=None, data=()):
        v = self.var("ASTitraversal(%s)" % self.id(name))
        self.set("ITRAVERSAL_IPREFIX", v, self.id(uid))
        if nodes:
            self.set("ITRAVERSAL_INODES", v, self.expr(nodes))
        ds = []
        for ty, ref, nm in data:
            d = self.var("ASTitravdata(%s)" % self.id(nm))
            self.set("ITRAVDATA_TYPE", d, ty)
            if ref:
                self.set("ITRAVDATA_TYPE_REFERENCE", d, self.id(ref))
            ds.append(d)
        if ds:
            self.set("ITRAVERSAL_DATA", v, self.chain("ITRAVDATA_NEXT", ds))
        return self.add("trav", v)

    def pas(self, name, uid=None, func=None):
        v = self.var("ASTipass(%s, NULL)" % self.id(name))
        if uid:
            self.set("IPASS_IPREFIX", v, self.id(uid))
        if func:
            self.set("IPASS_TARGET_FUNC", v, self.id(func))
        return self.add("pass", v)

    def attr(self, name, ty="AT_int", ref=None, ctor=None, inh=None, syn=None, life=None):
        a = self.var("ASTattribute()")
        self.set("ATTRIBUTE_NAME", a, self.id(name))
        self.set("ATTRIBUTE_TYPE", a, ty)
        if ref:
            self.set("ATTRIBUTE_TYPE_REFERENCE", a, self.id(ref))
        self.set("ATTRIBUTE_IN_CONSTRUCTOR", a, ctor)
        self.set("ATTRIBUTE_IS_INHERITED", a, inh)
        self.set("ATTRIBUTE_IS_SYNTHESIZED", a, syn)
        if life:
            self.set("ATTRIBUTE_LIFETIMES", a, "(%s) ? ASTilifetime() : NULL" % life)
        return a

    def ref(self, child, attr):
        r = self.var("ASTattribute_reference()")
        if child:
            self.set("ATTRIBUTE_REFERENCE_INODE", r, self.id(child) if not child.startswith("?") else child[1:])
        self.set("ATTRIBUTE_REFERENCE_IATTRIBUTE", r, self.id(attr))
        return r

    def node(self, name, root="false", children=(), attrs=(), eqs=()):
        v = self.var("ASTinode(%s, NULL)" % self.id(name))
        self.set("INODE_IS_ROOT", v, root)
        cs = []
        for ty, nm in children:
            c = self.var("ASTchild(%s)" % self.id(nm))
            self.set("CHILD_TYPE_REFERENCE", c, self.id(ty))
            cs.append(c)
        if cs:
            self.set("INODE_ICHILDREN", v, self.chain("CHILD_NEXT", cs))
        at = [self.attr(**a) for a in attrs]
        if at:
            self.set("INODE_IATTRIBUTES", v, self.chain("ATTRIBUTE_NEXT", at))
        es = []
        for (c, a), args in eqs:
            e = self.var("ASTequation()")
            self.set("EQUATION_RULE", e, self.ref(c, a))
            ds = []
            for ca, aa in args:
                d = self.var("ASTequation_dependency()")
                self.set("EQUATION_DEPENDENCY_IATTRIBUTE", d, self.ref(ca, aa))
                ds.append(d)
            if ds:
                self.set("EQUATION_IARGS", e, self.chain("EQUATION_DEPENDENCY_NEXT", ds))
            es.append(e)
        if es:
            self.set("INODE_IEQUATIONS", v, self.chain("EQUATION_NEXT", es))
        return self.add("node", v)

    def expr(self, e):
        if e[0] == "lit":
            # the parser inserts names one by one
            v = self.var("NULL")
            for nm in e[1]:
                self.out.append("%s = SETIDinsert(%s, %s);" % (v, v, self.id(nm)))
            return v
        if e[0] == "ref":
            v = self.var("ASTsetreference()")
            self.set("SETREFERENCE_REFERENCE", v, self.id(e[1]))
            return v
        a, b = self.expr(e[1]), self.expr(e[2])
        ty = {"|": "SO_iunion", "&": "SO_intersect", "-": "SO_difference"}.get(e[0], e[0])
        return self.var("ASTsetoperation(%s, %s, %s)" % (a, b, ty))

    def nodeset(self, name, expr=None, attrs=()):
        v = self.var("ASTinodeset()")
        self.set("INODESET_NAME", v, self.id(name))
        if expr:
            self.set("INODESET_EXPR", v, self.expr(expr))
        at = [self.attr(**a) for a in attrs]
        if at:
            self.set("INODESET_IATTRIBUTES", v, self.chain("ATTRIBUTE_NEXT", at))
        return self.add("nodeset", v)

    def enum(self, name, prefix, vals):
        vs = [self.id(x) for x in vals]
        first = self.chain("ID_NEXT", vs)
        return self.add("enum", self.var("ASTienum(%s, %s, %s, NULL)" % (first, self.id(name), self.id(prefix))))

    def ast(self):
        self.out.append("ast = ASTast();")
        for kind, macro, nxt in (("phase", "AST_IPHASES", "IPHASE_NEXT"), ("trav", "AST_ITRAVERSALS", "ITRAVERSAL_NEXT"),
                                 ("pass", "AST_IPASSES", "IPASS_NEXT"), ("node", "AST_INODES", "INODE_NEXT"),
                                 ("nodeset", "AST_INODESETS", "INODESET_NEXT"), ("enum", "AST_ENUMS", "IENUM_NEXT")):
            vs = self.top.get(kind)
            if vs:
                self.set(macro, "ast", self.chain(nxt, vs))
        self.out.append("AST_NUM_TRAVERSALS(ast) = %d;" % len(self.top.get("trav", ())))
        self.out.append("AST_NUM_NODES(ast) = %d;" % len(self.top.get("node", ())))
        return self


def text(decls, b, stages, bad, extra="", inc=(), after=""):
    """a harness: draw the symbolic parts, build, run the stages until one reports, compare with the oracle"""
    run = []
    for s in stages:
        run.append("    if (!errors) { TRAVstart(ast, TRAV_%s); vf_assert(!errors || signalled || aborted, \"an error stops the compiler\"); }" % s)
    return ('#include "front.h"\n#include "sets/set.h"\n#include "frontend/symboltable.h"\n' + "".join('#include "%s"\n' % i for i in inc) + extra +
            "\nvoid harness(void)\n{\n    node_st *ast;\n" + "".join("    %s\n" % d for d in decls) +
            "".join("    %s\n" % s for s in b.out) +
            "    bool bad = %s;\n" % bad +
            "\n".join(run) +
            "\n    vf_assert((errors > 0) == bad, \"an error is reported exactly for ill-formed specifications\");\n" + after +
            "    vf_reach();\n}\n")


def spec_query(ctx, name, txt, files, **kw):
    d = ctx.scratch + "/fh"
    os.makedirs(d, exist_ok=True)
    p = d + "/" + name + ".c"
    open(p, "w").write(txt)
    kw.setdefault("ht", "model")
    qq = query(ctx, name, "st.c", files, **kw)
    qq.harness = p
    qq.includes = qq.includes + [HARNESS + "/front"]
    return qq


STAGE = {"BST": ["frontend/buildsymboltable.c", "frontend/symboltable.c"],
         "CEX": ["frontend/check_existance.c"],
         "NCT": ["frontend/nodesets/nodeset_child_table.c"],
         "USE": ["frontend/unwrap_setexpr.c"],
         "PRA": ["frontend/nodesets/propagate_attributes.c"],
         "CHA": ["frontend/check_attributes.c"],
         "CPR": ["frontend/check_product_rules.c"],
         "CLT": ["frontend/lifetimes/check_lifetimes.c"],
         "AITA": ["frontend/lifetimes/assign_id_to_actions.c"],
         "MITL": ["frontend/lifetimes/map_id_to_lifetimes.c"]}
SETS = ["sets/set.c", "sets/literal_insert.c", "sets/literal_union.c", "sets/literal_intersect.c", "sets/literal_difference.c",
        "sets/literal_lookup.c"]


def files(*stages):
    out = []
    for s in ("BST",) + stages:
        out += [f for f in STAGE[s] if f not in out]
    return out + SETS
