"""Shared vocabulary of the mesh healing rules (P20, P21): tables, node lists, abstract runs of the HealMesh methods."""
from .tok import T, Tok, NONE, const, is_const, cval, subtoks
from .rl import bodies, canon, cont_ops

MOD = "bgem.gmsh.heal_mesh"
HM = MOD + ".HealMesh"
API = ("add_element", "remove_element", "add_node", "remove_node", "merge_node", "move_node", "_make_element", "active",
       "is_duplicate_el", "common_elements", "reset_modified", "heal_mesh", "write", "read_mesh")
COPY = ("builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted", "builtins.frozenset", "numpy.array", "numpy.asarray",
        "numpy.unique", "copy.copy", "copy.deepcopy", "builtins.int")


def policy(g):
    c = getattr(g, "cls", None) or g
    if c.qual == HM:
        return "opaque" if g.name in API or g.name.startswith("_check") else None
    return "opaque"


def policy_for(f):
    """The method under analysis itself is never opaque (recursion)."""
    return policy


def q(name):
    return HM + "." + name


def called(t, name):
    return isinstance(t, Tok) and t.op in ("call", "pcall") and t.args and t.args[0] == q(name)


def strip(t):
    """The value without conversions that keep its items."""
    while isinstance(t, Tok):
        if t.op == "copyof":
            t = t.args[1]
        elif t.op in ("call", "pcall") and t.args[0] in COPY and len(t.args) > 1:
            t = t.args[1]
        elif t.op == "pcall" and t.args[0] in (".copy", ".tolist", ".astype") and len(t.args) > 1:
            t = t.args[1]
        elif t.op == "star":
            t = t.args[0]
        else:
            break
    return t


def table(t):
    """'elements' / 'nodes' / 'node_els' / 'modified_elements' for a token naming that table."""
    t = canon(t)
    if not isinstance(t, Tok):
        return None
    if t.op == "attr":
        if t.args[1] in ("node_els", "modified_elements"):
            return t.args[1]
        if t.args[1] in ("elements", "nodes"):
            b = t.args[0]
            if b.op == "attr" and b.args[1] == "mesh" or b.op == "param" and b.args[0] != "self":
                return t.args[1]
    return None


def nodes_of(v):
    """Node list of an element tuple value."""
    v = canon(v)
    if v.op == "tuple" and len(v.args) == 3:
        return norm(v.args[2])
    return T("item", v, const(2))


def norm(t):
    """Canonical node list: element objects are replaced by the element tuple they were made of."""
    t = strip(canon(t))
    if isinstance(t, Tok) and t.op == "attr" and t.args[1] == "node_ids" and called(t.args[0], "_make_element"):
        a = t.args[0].args
        if len(a) > 3 and isinstance(a[3], Tok) and a[3] is not NONE:
            return nodes_of(strip(a[3]))
        if len(a) > 2:
            return ("elem", strip(canon(a[2])))
    if isinstance(t, Tok) and t.op == "item" and is_const(t.args[1]) and cval(t.args[1]) in (2, -1):
        b = strip(canon(t.args[0]))
        if b.op == "item" and table(b.args[0]) == "elements":
            return ("elem", strip(b.args[1]))
        if b.op == "val" and table(b.args[0]) == "elements":
            return ("elem", T("key", *b.args))
        return T("item", b, const(2))
    return t


def id_of(t):
    """Canonical element id: the id field of an element made for an id is that id."""
    t = strip(canon(t))
    if isinstance(t, Tok) and t.op == "attr" and t.args[1] == "eid" and called(t.args[0], "_make_element") and len(t.args[0].args) > 2:
        return strip(t.args[0].args[2])
    return t


def methods(ctx):
    """Methods analysed on their own: the named operations, and everything not only used as an inlined part of others."""
    from .rl import callers_of
    cls = ctx.prog.cls(HM)
    out = []
    for m in cls.methods.values():
        inner = [f for f, n in callers_of(ctx, m.qual) if f.cls is not None and f.cls.qual == HM and f.qual != m.qual]
        if policy(m) == "opaque" or not inner:
            out.append(m)
    return out


def run(ctx, m):
    return list(ctx.run(m, keep_conds=True, policy=policy))


def lists(events, outer=()):
    """All event lists of an outcome with the chain of lists around them (loop bodies that raise are left out)."""
    here = outer + (events,)
    yield here
    for e in events:
        if e.kind == "loop":
            for b, flow in bodies(e):
                if flow != "raise":
                    yield from lists(b, here)


def ops(e):
    """Container operations on the healing tables: (op, table, key, value)."""
    out = []
    for op, c, k, v in cont_ops(e):
        t = table(c)
        if t:
            out.append((op, t, k, v))
    return out


def node_entry(c):
    """Node whose entry of the node table the container is."""
    c = canon(c)
    if c.op == "item" and table(c.args[0]) == "node_els":
        return c.args[1]
    if c.op in ("pcall", "call") and c.args[0] in (".setdefault", ".get", ".pop") and len(c.args) > 2 and table(c.args[1]) == "node_els":
        return c.args[2]
    if c.op == "val" and table(c.args[0]) == "node_els":
        return T("key", *c.args)
    return None


def entry_ops(e):
    """Changes of node table entries: (op, node, element id)."""
    out = []
    for op, c, k, v in cont_ops(e):
        n = node_entry(c)
        if n is not None:
            out.append((op, n, k))
    return out


def elem_coll(n):
    """Collection whose current element the token is."""
    n = canon(n)
    while isinstance(n, Tok) and n.op in ("copyof",):
        n = n.args[1]
    if isinstance(n, Tok) and n.op in ("call", "pcall") and n.args[0] == "builtins.int" and len(n.args) > 1:
        n = canon(n.args[1])
    return n.args[0] if isinstance(n, Tok) and n.op == "elem" else None
