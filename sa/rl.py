"""Helpers shared by the rules: canonical tokens, flattened traces, container operations."""
import ast
from .tok import T, Tok, NONE, const, is_const, cval, show, subtoks
from .loader import AnalysisError

ID_MAPS = {"points": "bgem.polygons.point.Point", "segments": "bgem.polygons.segment.Segment",
           "polygons": "bgem.polygons.polygon.Polygon", "wires": "bgem.polygons.polygon.Wire"}


_ccache = {}


def canon(t):
    """Token without version marks and with id lookups (X.points[p.id]) replaced by the object itself."""
    if not isinstance(t, Tok):
        return t
    r = _ccache.get(t)
    if r is not None:
        return r
    o = t.op
    if o == "attr":
        r = T("attr", canon(t.args[0]), t.args[1])
    elif o == "item":
        b, k = canon(t.args[0]), canon(t.args[1])
        r = T("item", b, k)
        if b.op == "attr" and b.args[1] in ID_MAPS and k.op == "attr" and k.args[1] == "id":
            r = k.args[0]
    elif o == "copyof" and t.args[0] in ("builtins.list", "builtins.tuple"):
        r = canon(t.args[1])
    elif o == "pcall":
        r = T("pcall", t.args[0], *[canon(a) for a in t.args[1:] if not (isinstance(a, Tok) and a.op in ("ver", "v0"))])
    elif not any(isinstance(a, Tok) for a in t.args):
        r = t
    else:
        r = T(o, *[canon(a) for a in t.args])
    _ccache[t] = r
    return r


def same(a, b):
    return a is b or canon(a) is canon(b)


def looked_up(t):
    """('points', p) when the token is a lookup of p by its id in one of the id maps."""
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] in ID_MAPS:
        k = t.args[1]
        if k.op == "attr" and k.args[1] == "id":
            return t.args[0].args[1], k.args[0]
    return None


def root(t):
    """Innermost base of an access path (lookups are followed to the looked up object)."""
    while True:
        lk = looked_up(t)
        if lk:
            t = lk[1]
        elif t.op in ("attr", "item", "elem", "key", "val"):
            t = t.args[0]
        elif t.op == "copyof":
            t = t.args[1]
        else:
            return t


def flat(events, loops=(), opt=False):
    """All events with the tuple of enclosing loop events: yields (event, loops)."""
    for e in events:
        if e.kind == "loop":
            yield e, loops
            for body, flow in e.extra:
                yield from flat(body, loops + (e,))
        else:
            yield e, loops


def bodies(e):
    """Paths of one loop event: list of (events, flow)."""
    return e.extra if e.extra and not isinstance(e.extra, str) else []


def cont_ops(e):
    """Container operations of an event: list of (op, container, key/item, value)
    op: 'set' (mapping/list item), 'del' (key), 'add' (item), 'rem' (item), 'clear'."""
    k, n = e.kind, e.name
    if k == "setitem":
        return [("set", e.recv, e.args[0], e.args[1])]
    if k == "delitem":
        return [("del", e.recv, e.args[0], None)]
    if k == "aug" and e.extra == "name" and n in ("+", "|", "-") and e.args and e.args[0].op in ("list", "tuple", "setlit"):
        its = e.args[0].args if e.args[0].op == "tuple" else e.args[0].args[1:]
        return [("rem" if n == "-" else "add", e.recv, x, None) for x in its]
    if k == "write" and e.extra in ("+", "|", "-") and e.args and e.args[0].op == "op" and len(e.args[0].args) == 3 and \
            isinstance(e.args[0].args[2], Tok) and e.args[0].args[2].op in ("list", "tuple", "setlit"):
        x = e.args[0].args[2]
        its = x.args if x.op == "tuple" else x.args[1:]
        return [("rem" if e.extra == "-" else "add", T("attr", e.recv, n), y, None) for y in its]
    if k == "mut":
        a = e.args
        if n == "appendleft":
            return [("addleft", e.recv, a[0], None)]
        if n in ("append", "add"):
            return [("add", e.recv, a[0], None)]
        if n in ("remove", "discard"):
            return [("rem", e.recv, a[0], None)]
        if n == "pop":
            return [("del", e.recv, a[0] if a else None, None)]
        if n == "clear":
            return [("clear", e.recv, None, None)]
        if n in ("extend", "update", "difference_update"):
            out = []
            if a and a[0].op in ("list", "setlit", "tuple"):
                items = a[0].args[1:] if a[0].op != "tuple" else a[0].args
                for x in items:
                    out.append(("add" if n != "difference_update" else "rem", e.recv, x, None))
            elif a and a[0].op == "dict":
                for kv in a[0].args:
                    if isinstance(kv, Tok) and kv.op == "kv":
                        out.append(("set", e.recv, kv.args[0], kv.args[1]))
            else:
                out.append(("addall" if n != "difference_update" else "remall", e.recv, a[0] if a else None, None))
            return out
        if n == "insert":
            return [("add", e.recv, a[1] if len(a) > 1 else None, None)]
        if n == "setdefault":
            return [("set", e.recv, a[0], a[1] if len(a) > 1 else NONE)]
        return [(n, e.recv, a[0] if a else None, None)]
    return []


def where(e):
    return e.loc() if e is not None else ""


def fname(f):
    """Qualified name without the package prefix."""
    q = f if isinstance(f, str) else f.qual
    return q[len("bgem."):] if q.startswith("bgem.") else q


def callers_of(ctx, qual):
    """Call sites (func, node) whose callee set contains the function."""
    import ast
    T_ = ctx.types
    out = []
    if not hasattr(ctx, "_callers"):
        ctx._callers = {}
        own = {}
        for f in ctx.prog.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    own.setdefault(n, f)
        # nested functions: the innermost function owns the node
        for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.qual.count(".")):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    own[n] = f
        for n, f in own.items():
            for q in T_.callees.get(n, ()):
                ctx._callers.setdefault(q if isinstance(q, str) else q.qual, []).append((f, n))
    return ctx._callers.get(qual, out)


def in_assert(ctx, node):
    """Is the syntax node part of an assert statement?"""
    ids = ctx.prog.__dict__.get("_assert_ids")
    if ids is None:
        ids = set()
        for f in ctx.prog.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assert):
                    ids.update(id(x) for x in ast.walk(n))
        ctx.prog._assert_ids = ids
    return id(node) in ids
