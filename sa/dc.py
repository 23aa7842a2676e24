"""Shared by the rules about the decomposition: traces restricted to the helpers that touch given fields."""
import ast
from .rl import canon, flat, bodies, callers_of, fname, cont_ops, where
from .tok import T, Tok, const, is_const, cval, subtoks, show
from .loader import AnalysisError

POLY = "bgem.polygons."
SEG, PT, WIRE, PGN = POLY + "segment.Segment", POLY + "point.Point", POLY + "polygon.Wire", POLY + "polygon.Polygon"
DEC = POLY + "decomp.Decomposition"
IDA, IDR = POLY + "idmap.IdMap.append", POLY + "idmap.IdMap.remove"
PKG = tuple(POLY + m for m in ("point.", "segment.", "polygon.", "decomp.", "polygons.", "merge.", "idmap."))


def field_policy(ctx, fields, inline=(), opaque=(), force=()):
    """Inline the functions of the polygon package that may write one of the fields, keep the others opaque."""
    W, R = ctx.effects
    fields = set(fields) | {"#" + x for x in fields}

    def pol(f):
        q = f.qual
        if q in (IDA, IDR):
            return "opaque"
        if q in force:
            return "inline"
        for s in opaque:
            if q == s or q.endswith("." + s):
                return "opaque"
        for s in inline:
            if q == s or q.endswith("." + s):
                return "inline"
        if q in ctx.prog.classes or q not in W:
            return None
        if f.name == "__init__" and f.cls is not None:
            return "inline"
        return "inline" if W[q] & fields else "opaque"
    return pol


def own_nodes(f):
    """Nodes of the function without those of nested functions."""
    todo = list(f.node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


MUTS = {"append", "add", "remove", "discard", "pop", "clear", "extend", "update", "insert", "setdefault", "popitem"}


def direct_writers(ctx, fields, idmaps=(), classes=(), pkg=PKG):
    """Functions whose own code stores into / mutates one of the fields, (un)registers in one of the id maps or
    creates an object of one of the classes."""
    out = {}
    for f in ctx.prog.funcs.values():
        if not f.qual.startswith(pkg):
            continue
        alias = {}
        for n in own_nodes(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        alias[t.id] = n.value.attr

        def base(x):
            if isinstance(x, ast.Attribute):
                return x.attr
            if isinstance(x, ast.Name):
                return alias.get(x.id)
            if isinstance(x, ast.Subscript):
                return base(x.value)
            return None
        hit = False
        for n in own_nodes(f):
            if isinstance(n, (ast.Attribute,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in fields:
                hit = True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and base(n.value) in fields:
                hit = True
            if isinstance(n, ast.AugAssign) and base(n.target) in fields:
                hit = True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = base(n.func.value)
                if n.func.attr in MUTS and b in fields:
                    hit = True
                if b in idmaps and any((q if isinstance(q, str) else q.qual) in (IDA, IDR) for q in ctx.types.callees.get(n, ())):
                    hit = True
            if isinstance(n, ast.Call) and classes:
                for a in ctx.types.atoms(n.func):
                    if a[0] == "C" and a[1] in classes:
                        hit = True
        if hit:
            out[f.qual] = f
    return out


def settle(ctx, f, examine, seen=None, up=()):
    """examine(f) -> list of (rule, construct, what|None, loc). Problems of a private helper are left to its callers."""
    seen = seen if seen is not None else set()
    if f.qual in seen:
        return
    seen.add(f.qual)
    if hasattr(examine, "force"):
        examine.force.clear()
        examine.force.update(up)
    res = examine(f)
    bad = [r for r in res if r[2] is not None]
    if bad and len(up) < 5 and f.qual not in getattr(examine, "final", ()) and (f.name.startswith("_") and not f.name.startswith("__") or f.cls is None or
                                f.cls.qual in (SEG, PT, WIRE, PGN)) and not f.deco_is(ctx.prog, "bgem.undo.undoable"):
        cs = {g.qual: g for g, n in callers_of(ctx, f.qual) if g.qual not in up and g is not f}
        if cs:
            for g in sorted(cs):
                settle(ctx, cs[g], examine, seen, up + (f.qual,))
            return
    for rule, c, what, loc in res:
        if what is None:
            ctx.ok(rule, c)
        else:
            ctx.bad(rule, c, what, loc)


def idmap_ops(e):
    """('reg'|'unreg', map name, object) of an event."""
    if e.kind == "call" and e.name in (IDA, IDR) and e.recv is not None:
        c = canon(e.recv)
        if c.op == "attr":
            args = [a for k, a in e.kw.items() if k not in ("self",)] if e.kw else list(e.args[1:])
            obj = args[0] if args else (e.args[1] if len(e.args) > 1 else None)
            return ("reg" if e.name == IDA else "unreg", c.args[1], obj)
    return None


ORDERED = ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "copy.copy")


def seq_items(t):
    """Elements of a list / tuple token (also of its copy)."""
    while t.op == "copyof" and str(t.args[0]) in ORDERED:
        t = t.args[1]
    if t.op in ("list", "tuple"):
        return [x for x in t.args if isinstance(x, Tok) and x.op != "site"]
    return None


def vtx(seg, i):
    return T("item", T("attr", canon(seg), "vtxs"), const(i))


def pair_of_new(e):
    """Endpoints of a Segment made by a 'new' event."""
    a = e.kw.get("vtxs") if e.kw else None
    if a is None and e.args:
        a = e.args[0]
    if a is None:
        return None
    it = seq_items(a)
    if it is not None and len(it) == 2:
        return [canon(it[0]), canon(it[1])]
    while a.op == "copyof":
        a = a.args[1]
    return [T("item", canon(a), const(0)), T("item", canon(a), const(1))]


def iteration(e):
    """(iterated collection, is it a copy, conditions of a filtering comprehension) of a 'for' loop event, else None."""
    if e.kind != "loop" or e.name == "comp" or e.recv is None:
        return None
    t, copied, conds = e.recv, False, []
    while True:
        if t.op == "copyof" and isinstance(t.args[1], Tok):
            t, copied = t.args[1], True
        elif t.op == "comp" and t.args[2] is not None and t.args[3] is not None and t.args[1] is t.args[3]:
            if t.args[0] != "gen":
                copied = True
            if t.args[4] is not None:
                conds.append((canon(t.args[4]), True))
            t = t.args[2]
        else:
            return canon(t), copied, conds
