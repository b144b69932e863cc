"""Specifications as Python data: rendered to CoCoNut DSL text for the real cocogen, and read back by the
oracles of the checks. The oracle knows the specification only from this structure, never from what
cocogen generated."""

PRIMS = {"bool": "bool", "string": "char *", "int": "int", "float": "float", "double": "double",
         "uint8": "uint8_t", "uint16": "uint16_t", "uint32": "uint32_t", "uint64": "uint64_t",
         "int8": "int8_t", "int16": "int16_t", "int32": "int32_t", "int64": "int64_t"}


class Enum:
    def __init__(self, name, prefix, values, info=None):
        self.name, self.prefix, self.values, self.info = name, prefix, list(values), info

    def render(self):
        inf = ' info = "%s",' % self.info if self.info else ""
        return "enum %s {%s prefix = %s, values { %s } }" % (self.name, inf, self.prefix, ", ".join(self.values))


# set expressions: ("lit", [names]) | ("ref", name) | ("|"/"&"/"-", a, b)
def lit(*n):
    return ("lit", list(n))


def ref(n):
    return ("ref", n)


def op(o, a, b):
    return (o, a, b)


def render_set(e, top=True):
    if e[0] == "lit":
        return "{" + ", ".join(e[1]) + "}"
    if e[0] == "ref":
        return e[1]
    s = "%s %s %s" % (render_set(e[1], False), e[0], render_set(e[2], False))
    return "(" + s + ")"


class Nodeset:
    def __init__(self, name, expr, attrs=(), info=None):
        self.name, self.expr, self.attrs, self.info = name, expr, list(attrs), info

    def render(self):
        if not self.attrs and not self.info:
            return "nodeset %s = %s" % (self.name, render_set(self.expr))
        inf = 'info = "%s", ' % self.info if self.info else ""
        at = ", attributes { %s }" % ", ".join(a.render() for a in self.attrs) if self.attrs else ""
        return "nodeset %s { %snodes = %s%s }" % (self.name, inf, render_set(self.expr), at)


class Life:
    """kind: disallowed/allowed/mandatory/optional; begin/end: None or (path string, inclusive)"""

    def __init__(self, kind, begin=None, end=None, ranged=True):
        self.kind, self.begin, self.end = kind, begin, end
        self.ranged = ranged and (begin is not None or end is not None)

    def render(self):
        if not self.ranged:
            return self.kind
        b = "(" if self.begin is None else ("[" if self.begin[1] else "(") + self.begin[0]
        e = ")" if self.end is None else self.end[0] + ("]" if self.end[1] else ")")
        return "%s %s -> %s" % (self.kind, b, e)


class Child:
    def __init__(self, name, type, ctor=False, life=()):
        self.name, self.type, self.ctor, self.life = name, type, ctor, list(life)

    def render(self):
        o = (["constructor"] if self.ctor else []) + [x.render() for x in self.life]
        return "%s %s" % (self.type, self.name) + (" { %s }" % ", ".join(o) if o else "")


class Attr:
    """type: a primitive, or the name of an enum or node (link), or ("user", T)"""

    def __init__(self, name, type, ctor=False, ag=None, life=()):
        self.name, self.type, self.ctor, self.ag, self.life = name, type, ctor, ag, list(life)

    def render(self):
        o = (["constructor"] if self.ctor else []) + ([self.ag] if self.ag else []) + [x.render() for x in self.life]
        t = "user %s" % self.type[1] if isinstance(self.type, tuple) else self.type
        return "%s %s" % (t, self.name) + (" { %s }" % ", ".join(o) if o else "")


class Eq:
    """target: (who, attr) with who "this" or a child name; args: list of (who, attr)"""

    def __init__(self, target, args=()):
        self.target, self.args = target, list(args)

    def render(self):
        if not self.args:
            return "%s.%s = { }" % self.target
        return "%s.%s = { args = { %s } }" % (self.target + (", ".join("%s.%s" % a for a in self.args),))


class Node:
    def __init__(self, name, children=(), attrs=(), eqs=(), life=(), root=False):
        self.name, self.children, self.attrs, self.eqs = name, list(children), list(attrs), list(eqs)
        self.life, self.root = list(life), root

    def render(self):
        p = []
        if self.children:
            p.append("children { %s }" % ", ".join(c.render() for c in self.children))
        if self.attrs:
            p.append("attributes { %s }" % ", ".join(a.render() for a in self.attrs))
        if self.eqs:
            p.append("equations { %s }" % ", ".join(e.render() for e in self.eqs))
        if self.life:
            p.append("lifetime { %s }" % ", ".join(x.render() for x in self.life))
        return "%snode %s { %s }" % ("root " if self.root else "", self.name, ", ".join(p))


class Trav:
    def __init__(self, name, uid, nodes=None, data=(), info=None):
        self.name, self.uid, self.nodes, self.data, self.info = name, uid, nodes, list(data), info

    def render(self):
        p = (['info = "%s"' % self.info] if self.info and (self.nodes or self.data) else []) + ["uid = " + self.uid]
        if self.nodes:
            p.append("nodes = " + render_set(self.nodes))
        if self.data:
            p.append("travdata { %s }" % ", ".join(
                "%s %s" % ("user " + t[1] if isinstance(t, tuple) else t, n) for t, n in self.data))
        return "traversal %s { %s }" % (self.name, ", ".join(p))


class Pass:
    def __init__(self, name, uid=None, func=None, short=False, info=None):
        self.name, self.uid, self.func, self.short, self.info = name, uid, func, short, info

    def cfunc(self):
        return self.func or ((self.uid.upper() if self.uid else "") + self.name)

    def render(self):
        if self.short and self.func:
            return "pass %s = %s" % (self.name, self.func)
        p = (['info = "%s"' % self.info] if self.info and (self.uid or self.func) else [])
        p += (["uid = " + self.uid] if self.uid else []) + (["func = " + self.func] if self.func else [])
        return "pass %s" % self.name + (" { %s }" % ", ".join(p) if p else "")


class Phase:
    def __init__(self, name, actions, uid=None, gate=None, cycle=False, start=False, info=None):
        self.name, self.actions, self.uid, self.gate = name, list(actions), uid, gate
        self.cycle, self.start, self.info = cycle, start, info

    def render(self):
        p = (['info = "%s"' % self.info] if self.info else []) + (["uid = " + self.uid] if self.uid else []) \
            + (["gate = " + self.gate] if self.gate else [])
        p.append("actions { %s }" % " ".join(
            (a if isinstance(a, str) else a.render()) + ";" for a in self.actions))
        return "%s%s %s { %s }" % ("start " if self.start else "", "cycle" if self.cycle else "phase", self.name,
                                   ", ".join(p))


class Act:
    """one position in the action hierarchy of the running compiler"""

    def __init__(self, obj, id, parent):
        self.obj, self.id, self.parent, self.kids = obj, id, parent, []

    @property
    def last(self):
        return self.kids[-1].last if self.kids else self.id

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


class Spec:
    def __init__(self, name, items, roots=None):
        """items: top-level declarations in order (objects used inline in a phase are found through it)"""
        self.name, self.items = name, list(items)

    def render(self):
        return ";\n".join(i.render() for i in self.items) + ";\n"

    def of(self, cls):
        out = []

        def add(i):
            if isinstance(i, cls):
                out.append(i)
            if isinstance(i, Phase):
                for a in i.actions:
                    if not isinstance(a, str):
                        add(a)
        for i in self.items:
            add(i)
        return out

    @property
    def nodes(self):
        return self.of(Node)

    @property
    def root(self):
        return [n for n in self.nodes if n.root][0]

    def node(self, name):
        for n in self.nodes:
            if n.name.lower() == name.lower():
                return n
        return None

    def nodeset(self, name):
        for n in self.of(Nodeset):
            if n.name.lower() == name.lower():
                return n
        return None

    def enum(self, name):
        for n in self.of(Enum):
            if n.name.lower() == name.lower():
                return n
        return None

    def evalset(self, e):
        """the set of node names (lower case) an expression denotes"""
        if e[0] == "lit":
            s = set()
            for n in e[1]:
                s |= self.members(n)
            return s
        if e[0] == "ref":
            return self.members(e[1])
        a, b = self.evalset(e[1]), self.evalset(e[2])
        return a | b if e[0] == "|" else a & b if e[0] == "&" else a - b

    def members(self, name):
        if self.node(name):
            return {name.lower()}
        return self.evalset(self.nodeset(name).expr)

    def allowed(self, child):
        """node names allowed for a child slot, in declaration order"""
        m = self.members(child.type)
        return [n.name.lower() for n in self.nodes if n.name.lower() in m]

    def attrs_of(self, node):
        """all attributes of a node: its own, and those of the nodesets it belongs to"""
        out = list(node.attrs)
        for s in self.of(Nodeset):
            if s.attrs and node.name.lower() in self.evalset(s.expr):
                out += s.attrs
        return out

    def ctor_params(self, node):
        return [c for c in node.children if c.ctor] + [a for a in node.attrs if a.ctor]

    def akind(self, t):
        if isinstance(t, tuple):
            return "user"
        if t in PRIMS:
            return "string" if t == "string" else "float" if t in ("float", "double") else "bool" if t == "bool" else "int"
        return "enum" if self.enum(t) else "link"

    def ctype(self, t):
        if isinstance(t, tuple):
            return t[1]
        if t in PRIMS:
            return PRIMS[t]
        return "enum " + self.enum(t).name if self.enum(t) else "node_st *"

    # ------------------------------------------------------------------ actions
    def action(self, name):
        for a in self.of((Pass, Trav, Phase)):
            if a.name.lower() == name.lower():
                return a
        return None

    def hierarchy(self):
        start = [p for p in self.of(Phase) if p.start][0]
        n = [0]

        def build(obj, parent):
            n[0] += 1
            a = Act(obj, n[0], parent)
            if isinstance(obj, Phase):
                for x in obj.actions:
                    o = self.action(x) if isinstance(x, str) else x
                    a.kids.append(build(o, a))
            return a
        return build(start, None)
