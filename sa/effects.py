"""Transitive sets of field names a function may write ('f', '#f' for container content) or read."""
import ast
from .loader import walk_scope
from .flow import MUTATORS


def compute_effects(prog, types):
    direct_w, direct_r, calls = {}, {}, {}
    for f in list(prog.funcs.values()):
        w, r, c = set(), set(), set()
        alias = {}
        nodes = [n for st in f.node.body for n in ast.walk(st)]
        for n in nodes:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and isinstance(n.value, ast.Attribute):
                alias.setdefault(n.targets[0].id, set()).add(n.value.attr)

        def cont(e):
            """field names whose content is denoted by the expression"""
            if isinstance(e, ast.Attribute):
                return {e.attr}
            if isinstance(e, ast.Name):
                return alias.get(e.id, set())
            if isinstance(e, ast.Subscript):
                return cont(e.value)
            return set()

        def target(t):
            if isinstance(t, ast.Attribute):
                w.add(t.attr)
            elif isinstance(t, ast.Subscript):
                for n in cont(t.value):
                    w.add("#" + n)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    target(x)
            elif isinstance(t, ast.Starred):
                target(t.value)
        for n in nodes:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t)
            elif isinstance(n, ast.AugAssign):
                target(n.target)
                if isinstance(n.target, ast.Attribute):
                    w.add("#" + n.target.attr)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                target(n.target)
            elif isinstance(n, ast.For):
                target(n.target)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    target(t)
            elif isinstance(n, ast.Global):
                for g in n.names:
                    w.add(g)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                r.add(n.attr)
                r.add("#" + n.attr)
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    own = [a for a in types.atoms(n.func) if a[0] == "B"]
                    if not own:
                        for x in cont(n.func.value):
                            w.add("#" + x)
                        # container subclass instance (self of IdMap)
                for q in types.callees.get(n, ()):
                    c.add(q)
                for a in types.atoms(n.func):
                    if a[0] == "C":
                        m = prog.find_method(prog.classes[a[1]], "__init__")
                        if m is not None:
                            c.add(m.qual)
            if isinstance(n, (ast.Attribute,)):
                for q in types.callees.get(n, ()):
                    c.add(q)
            if isinstance(n, ast.With):
                for it in n.items:
                    for q in types.callees.get(it.context_expr, ()):
                        c.add(q)
        # container subclass: self[...] = changes the content of every field holding such a container
        if f.cls is not None and types.is_container_cls(f.cls):
            me = f.pos_params()[0] if f.pos_params() else None
            mut = any((isinstance(n, (ast.Assign, ast.Delete)) and any(
                isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == me
                for t in n.targets)) for n in nodes)
            if mut:
                for key, at in types.var.items():
                    if key[0] == "fld" and any(a[0] == "I" and a[1] == f.cls.qual for a in at):
                        w.add("#" + key[2])
        direct_w[f.qual], direct_r[f.qual], calls[f.qual] = w, r, c
        # fields initialised by constructors of fresh objects do not count as effect on existing state
    for f in prog.funcs.values():
        if f.name == "__init__" and f.cls is not None:
            me = f.pos_params()[0] if f.pos_params() else None
            only_self = set()
            for st in f.node.body:
                for n in walk_scope(st):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                            and n.value.id == me:
                        only_self.add(n.attr)
            others = {n.attr for st in f.node.body for n in ast.walk(st) if isinstance(n, ast.Attribute)
                      and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == me)}
            direct_w[f.qual] -= (only_self - others)
            direct_w[f.qual] = {x for x in direct_w[f.qual] if not (x.startswith("#") and x[1:] in only_self)}
    out_w, out_r = {}, {}
    for d, out in ((direct_w, out_w), (direct_r, out_r)):
        cur = {q: set(v) for q, v in d.items()}
        changed = True
        while changed:
            changed = False
            for q in cur:
                for c in calls[q]:
                    if c in cur and not cur[c] <= cur[q]:
                        cur[q] |= cur[c]
                        changed = True
        for q in cur:
            out[q] = frozenset(cur[q])
    return out_w, out_r
