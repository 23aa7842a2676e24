"""Normalisation of the syntax trees before the analysis: undoes how code is written, keeps what it does.

The rules are anchored at the functions of the code base as it was when the rules were written (anchors.json lists them
with a fingerprint). Code that was moved into a function which is not in that list is put back where it is called, a
known function found under another name gets its name back, and a few loop and condition forms are reduced to one form.
Each step is an equivalence of the program; when its side conditions can not be shown, the step is not taken.
"""
import ast
import builtins
import copy
import difflib
import json
import os
from collections import Counter

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPE = FUNC + (ast.Lambda, ast.ClassDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
ANCHORS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "anchors.json")
PURE = {"len", "range", "abs", "min", "max", "isinstance", "type", "float", "int", "bool", "tuple", "list", "set", "dict", "enumerate", "zip", "reversed", "sorted", "any", "all", "sum", "str"}


# ---------------------------------------------------------------- helpers
def fingerprint(node):
    c = Counter()
    for n in ast.walk(node):
        if isinstance(n, (ast.stmt, ast.expr)) and not isinstance(n, (ast.Name, ast.Constant)):
            c["#" + type(n).__name__] += 1
        if isinstance(n, ast.Attribute):
            c["." + n.attr] += 1
        elif isinstance(n, ast.Constant):
            if not isinstance(n.value, str):
                c["=" + repr(n.value)] += 1
        elif isinstance(n, (ast.BinOp, ast.UnaryOp)):
            c[type(n.op).__name__] += 1
        elif isinstance(n, ast.Compare):
            for o in n.ops:
                c[type(o).__name__] += 1
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            c[n.func.id + "()"] += 1
        elif isinstance(n, (ast.For, ast.If, ast.While, ast.Return, ast.Assert)):
            c[type(n).__name__] += 1
    return c


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args]


def functions(tree, modname):
    """(qual, node, class node or None, parent body list, enclosing function or None)"""
    out = []

    def rec(body, prefix, cls, fn):
        for st in body:
            if isinstance(st, FUNC):
                q = prefix + "." + st.name + ("#setter" if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in st.decorator_list) else "")
                out.append((q, st, cls if fn is None else None, body, fn))
                rec(st.body, q, cls, st)
            elif isinstance(st, ast.ClassDef):
                rec(st.body, prefix + "." + st.name, st, None)
            else:
                for fld in ("body", "orelse", "finalbody"):
                    if getattr(st, fld, None):
                        rec(getattr(st, fld), prefix, cls, fn)
                for h in getattr(st, "handlers", []):
                    rec(h.body, prefix, cls, fn)
    rec(tree.body, modname, None, None)
    return out


def attr_profile(trees):
    """attribute name -> {function qual: occurrences}; attributes stored on self only"""
    prof, stored = {}, set()
    for m, t in trees.items():
        for q, node, _, _, fn in functions(t, m):
            if fn is not None:
                continue
            k = 0
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute):
                    c = prof.setdefault(n.attr, Counter())
                    c[q] += 1
                    c["@%s:%d" % (q, k)] += 1
                    k += 1
                    if isinstance(n.ctx, ast.Store):
                        stored.add(n.attr)
    return prof, stored


def part(c, order):
    return Counter({k: v for k, v in c.items() if k.startswith("@") == order})


def make_anchors(trees):
    fs = {}
    for m, t in trees.items():
        for q, node, _, _, _ in functions(t, m):
            fs[q] = [params(node), dict(sorted(fingerprint(node).items()))]
    prof, stored = attr_profile(trees)
    return {"functions": fs, "attributes": {a: dict(sorted(prof[a].items())) for a in sorted(stored)}, "names": sorted(prof)}


def load_anchors():
    with open(ANCHORS) as f:
        return json.load(f)


def similar(a, b):
    a, b = Counter(a), Counter(b)
    u = sum((a | b).values())
    return sum((a & b).values()) / u if u else 0.0


def loc(new, old):
    for n in ast.walk(new):
        if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.excepthandler)):
            ast.copy_location(n, old)
    return new


def bound_names(node):
    """every identifier bound or mentioned anywhere below"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, FUNC + (ast.ClassDef,)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def scope_nodes(f):
    """nodes of a function without those of nested functions and classes"""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, SCOPE):
            continue
        todo.extend(ast.iter_child_nodes(n))


def local_names(f):
    out = set(params(f)) | {x.arg for x in f.args.kwonlyargs}
    for n in scope_nodes(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, FUNC + (ast.ClassDef,)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


class Subst(ast.NodeTransformer):
    """identifiers -> other identifiers (names) or expressions (loads only)"""

    def __init__(self, names, exprs):
        self.names, self.exprs = names, exprs

    def visit_Name(self, n):
        if n.id in self.exprs and isinstance(n.ctx, ast.Load):
            e = copy.deepcopy(self.exprs[n.id])
            return e
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_arg(self, n):
        n.arg = self.names.get(n.arg, n.arg)
        return n

    def visit_ExceptHandler(self, n):
        if n.name:
            n.name = self.names.get(n.name, n.name)
        self.generic_visit(n)
        return n

    def visit_FunctionDef(self, n):
        n.name = self.names.get(n.name, n.name)
        self.generic_visit(n)
        return n


def has(node, kinds, stop=SCOPE):
    """a node of these kinds in the same function"""
    todo = list(node) if isinstance(node, list) else [node]
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, stop):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def own_breaks(loop, kinds=(ast.Break,)):
    """break statements of this very loop"""
    todo = list(loop.body)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, SCOPE):
            continue
        if isinstance(n, (ast.For, ast.While)):
            todo.extend(n.orelse)
            continue
        todo.extend(c for c in ast.iter_child_nodes(n) if isinstance(c, (ast.stmt, ast.excepthandler)))
    return False


class CanNot(Exception):
    pass


def ends(stmts):
    """control never falls off the end of these statements"""
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    return False


def convert(stmts, sink):
    """statements with returns -> statements that store the value and fall off the end"""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Return):
            out += sink(s.value)
            return out
        if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return out + [s]
        if not has(s, ast.Return):
            out.append(s)
            continue
        rest = stmts[i + 1:]
        if isinstance(s, ast.If):
            falls = (not ends(s.body)) + (not ends(s.orelse))
            if falls == 2 and len(rest) > 12:
                raise CanNot
            b = convert(s.body + (rest if not ends(s.body) else []), sink)
            o = convert(s.orelse + ([copy.deepcopy(x) for x in rest] if falls == 2 else rest if not ends(s.orelse) else []), sink)
            s.body, s.orelse = b or [ast.copy_location(ast.Pass(), s)], o
            return out + [s]
        if isinstance(s, (ast.For, ast.While)):
            if s.orelse or own_breaks(s):
                raise CanNot
            s.body = in_loop(s.body, sink)
            s.orelse = convert(rest, sink)
            return out + [s]
        if isinstance(s, ast.Try) and not rest and not s.finalbody:
            if s.orelse:
                if has(s.body, ast.Return):
                    raise CanNot
                s.orelse = convert(s.orelse, sink)
            else:
                s.body = convert(s.body, sink)
            for h in s.handlers:
                h.body = convert(h.body, sink)
            return out + [s]
        if isinstance(s, ast.With) and (not rest or ends(s.body)):
            s.body = convert(s.body, sink)
            return out + [s]
        raise CanNot
    return out + sink(None)


def in_loop(stmts, sink):
    """returns inside a loop body -> store the value and break"""
    out = []
    for s in stmts:
        if isinstance(s, ast.Return):
            b = ast.copy_location(ast.Break(), s)
            return out + sink(s.value) + [b]
        if has(s, ast.Return):
            if isinstance(s, ast.If):
                s.body = in_loop(s.body, sink)
                s.orelse = in_loop(s.orelse, sink)
            else:
                raise CanNot
        out.append(s)
    return out


def simple(e):
    """evaluation has no effect and depends on names only"""
    return all(isinstance(n, (ast.Name, ast.Constant, ast.expr_context, ast.UnaryOp, ast.unaryop, ast.Tuple)) for n in ast.walk(e))


def effect_free(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE:
                continue
            r = f
            while isinstance(r, ast.Attribute):
                r = r.value
            if isinstance(r, ast.Name) and r.id in ("np", "numpy", "math", "la"):
                continue
            return False
    return True


# ---------------------------------------------------------------- functions that were extracted
class Site:
    pass


def module_globals(tree):
    out = {}
    for st in tree.body:
        if isinstance(st, FUNC + (ast.ClassDef,)):
            out[st.name] = ("here", st.name)
        elif isinstance(st, ast.Import):
            for a in st.names:
                out[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                out[a.asname or a.name] = ("from", st.level, st.module, a.name)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        out[n.id] = ("here", n.id)
    return out


class Inliner:
    def __init__(self, trees, known):
        self.trees, self.known = trees, known
        self.log = []
        self.n = 0

    def run(self):
        dead = set()
        for _ in range(8):
            if not self.step(dead):
                break
        return self.log

    # -- what can be put back
    def step(self, dead):
        self.classes = {}
        for m, t in self.trees.items():
            for n in ast.walk(t):
                if isinstance(n, ast.ClassDef):
                    self.classes.setdefault(n.name, []).append(n)
        infos = []
        for m, t in self.trees.items():
            for q, node, cls, body, fn in functions(t, m):
                infos.append((q, node, cls, body, fn, m))
        news = [i for i in infos if i[0] not in self.known and id(i[1]) not in dead]
        # callees first
        names = {i[1].name for i in news}
        news.sort(key=lambda i: sum(1 for n in ast.walk(i[1]) if isinstance(n, ast.Call) and
                                    (getattr(n.func, "id", None) in names or getattr(n.func, "attr", None) in names)))
        again = False
        for q, node, cls, body, fn, m in news:
            if self.put_back(q, node, cls, body, fn, m, infos):
                again = True
            else:
                dead.add(id(node))
        return again

    def kind(self, node, cls):
        d = [ast.unparse(x) for x in node.decorator_list]
        if not d:
            return "method" if cls is not None else "function"
        if d == ["staticmethod"] or d == ["classmethod"]:
            return d[0] if cls is not None else None
        if d == ["property"] and cls is not None:
            return "property"
        return None

    def put_back(self, q, node, cls, body, fn, m, infos):
        kind = self.kind(node, cls)
        if kind is None or isinstance(node, ast.AsyncFunctionDef) or node.args.vararg or node.args.kwarg or node.args.kwonlyargs or node.args.posonlyargs:
            return False
        if has(node.body, (ast.Global, ast.Nonlocal, ast.YieldFrom, ast.Await)):
            return False
        if any(isinstance(n, ast.Name) and n.id in ("locals", "super", "__class__") for n in ast.walk(node)):
            return False
        if any(isinstance(n, ast.Name) and n.id == node.name or isinstance(n, ast.Attribute) and n.attr == node.name for n in ast.walk(node)):
            return False        # recursive
        name = node.name
        if name.startswith("__") and name.endswith("__"):
            return False
        refs = []               # (module, parents)
        if fn is not None:      # nested function
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id == name and n is not node:
                    refs.append((m, n))
            if any(isinstance(r.ctx, ast.Store) for _, r in refs):
                return False
        elif cls is None:
            for m2, t in self.trees.items():
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and n.id == name and (m2 == m or module_globals(t).get(name, ("here",))[0] == "from"):
                        refs.append((m2, n))
                    elif isinstance(n, ast.Attribute) and n.attr == name:
                        refs.append((m2, n))
                    elif isinstance(n, ast.ImportFrom) and any(a.name == name for a in n.names) and any(a.asname for a in n.names):
                        return False
            if any(isinstance(r.ctx, ast.Store) for _, r in refs):
                return False
            if sum(1 for i in infos if i[1].name == name) > 1:
                return False
        else:
            owners = [c for cs in self.classes.values() for c in cs if any(isinstance(s, FUNC) and s.name == name for s in c.body)]
            related = self.family(cls)
            if any(c is not cls and c in related for c in owners):
                return False    # overridden
            for m2, t in self.trees.items():
                for c, n in self.attr_refs(t, name):
                    if isinstance(n.ctx, ast.Store):
                        return False
                    r = n.value
                    if isinstance(r, ast.Name) and r.id in ("self", "cls") and c is not None:
                        if c in related or c is cls:
                            refs.append((m2, n))
                    elif isinstance(r, ast.Name) and r.id in self.classes:
                        if cls in self.classes[r.id] or any(x in related for x in self.classes[r.id]):
                            refs.append((m2, n))
                    elif len(owners) == 1:
                        refs.append((m2, n))
                    else:
                        return False
        if not refs:
            return False
        done = 0
        for m2, r in refs:
            try:
                if self.at(m2, r, node, cls, kind, m, fn):
                    done += 1
            except CanNot:
                pass
        if done == len(refs):
            body.remove(node)
            if not body:
                body.append(ast.copy_location(ast.Pass(), node))
            if cls is None and fn is None:
                for t in self.trees.values():
                    for n in ast.walk(t):
                        if isinstance(n, ast.ImportFrom) and any(a.name == name for a in n.names):
                            n.names = [a for a in n.names if a.name != name] or [ast.alias("*")] if False else [a for a in n.names if a.name != name]
                    self.drop_empty_imports(t)
            self.log.append(q)
            return True
        if done:
            self.log.append(q)
        return False

    @staticmethod
    def drop_empty_imports(t):
        for n in ast.walk(t):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list) and any(isinstance(s, ast.ImportFrom) and not s.names for s in b):
                    b[:] = [s for s in b if not (isinstance(s, ast.ImportFrom) and not s.names)] or [ast.copy_location(ast.Pass(), b[0])]

    def attr_refs(self, tree, name):
        out = []

        def rec(n, c):
            if isinstance(n, ast.ClassDef):
                c = n
            if isinstance(n, ast.Attribute) and n.attr == name:
                out.append((c, n))
            for x in ast.iter_child_nodes(n):
                rec(x, c)
        rec(tree, None)
        return out

    def family(self, cls):
        """classes related by inheritance (by name)"""
        out, todo = [], [cls]
        allc = [c for cs in self.classes.values() for c in cs]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.append(c)
            for b in c.bases:
                nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                todo.extend(self.classes.get(nm, []))
            for d in allc:
                if any((isinstance(b, ast.Name) and b.id == c.name) or (isinstance(b, ast.Attribute) and b.attr == c.name) for b in d.bases):
                    if d is not c:
                        todo.append(d)
        return out

    # -- one call
    def at(self, m, ref, node, cls, kind, hm, nested_in):
        path = self.path(self.trees[m], ref)
        if path is None:
            return False
        # enclosing function
        caller = next((p for p in reversed(path) if isinstance(p, FUNC)), None)
        if caller is None or caller is node:
            return False
        if kind == "property":
            call, args, kws = ref, [], []
        else:
            call = path[-2]
            if not (isinstance(call, ast.Call) and call.func is ref):
                return False
            args, kws = call.args, call.keywords
            if any(isinstance(a, ast.Starred) for a in args) or any(k.arg is None for k in kws):
                return False
        ps = params(node)
        env = {}
        argv = list(args)
        if kind in ("method", "property"):
            rec = ref.value
            if isinstance(rec, ast.Name) and rec.id in self.classes and kind == "method" and rec.id not in local_names(caller):
                pass        # Class.method(obj, ...)
            else:
                argv = [rec] + argv
        elif kind == "classmethod":
            rec = ref.value
            if isinstance(rec, ast.Name) and (rec.id in self.classes or rec.id == "cls"):
                argv = [rec] + argv
            elif isinstance(rec, ast.Name) and rec.id == "self":
                argv = [ast.copy_location(ast.Name(cls.name, ast.Load()), rec)] + argv
            else:
                return False
        if len(argv) > len(ps):
            return False
        for p, a in zip(ps, argv):
            env[p] = a
        for k in kws:
            if k.arg in env or k.arg not in ps:
                return False
            env[k.arg] = k.value
        ds = node.args.defaults
        for p, d in zip(ps[len(ps) - len(ds):], ds):
            if p not in env:
                if not isinstance(d, ast.Constant):
                    return False
                env[p] = copy.copy(d)
        if set(env) != set(ps):
            return False
        # free names of the helper have to mean the same at the call
        hl = local_names(node)
        for c in ast.walk(node):
            if isinstance(c, COMP):
                for g in c.generators:
                    hl |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            elif isinstance(c, ast.Lambda):
                hl |= {x.arg for x in c.args.args}
            elif isinstance(c, FUNC) and c is not node:
                hl |= local_names(c)
        free = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and n.id not in hl}
        if nested_in is None:
            cl = local_names(caller)
            outer = [p for p in path if isinstance(p, FUNC)]
            for f in outer:
                cl = cl | local_names(f)
            if free & cl:
                return False
            if m != hm:
                mine, its = module_globals(self.trees[m]), module_globals(self.trees[hm])
                for x in sorted(free):
                    if x not in its:
                        continue
                    if x in mine and mine[x] != ("here", x) and mine[x] == its[x]:
                        continue
                    if x in mine:
                        return False
                    if its[x][0] == "here":
                        imp = ast.ImportFrom(module=hm, names=[ast.alias(x)], level=0)
                    elif its[x][0] == "import":
                        imp = ast.Import(names=[ast.alias(its[x][1], x if its[x][1] != x else None)])
                    else:
                        return False
                    self.trees[m].body.insert(0, loc(imp, self.trees[m].body[0]))
        elif caller is not nested_in and free & (local_names(caller) - {node.name}) & hl:
            return False
        # body
        bodyc = [copy.deepcopy(s) for s in node.body]
        if bodyc and isinstance(bodyc[0], ast.Expr) and isinstance(bodyc[0].value, ast.Constant) and isinstance(bodyc[0].value.value, str):
            bodyc = bodyc[1:]
        stored = {n.id for s in bodyc for n in ast.walk(s) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        used = Counter(n.id for s in bodyc for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load))
        taken = bound_names(caller)
        if nested_in is not None and caller is nested_in:
            taken = set()
            for st in caller.body:
                if st is not node:
                    taken |= bound_names(st)
            taken |= set(params(caller))
        names, exprs, pre = {}, {}, []
        self.n += 1
        clobbered = set()
        i, holder, fld, idx = self.statement(path)
        stmt = path[i]
        if has(bodyc, ast.Yield) and isinstance(stmt, ast.For):
            clobbered = {n.id for n in ast.walk(stmt) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        for p in ps:
            a = env[p]
            direct = p not in stored and not (isinstance(a, ast.Name) and a.id in clobbered) and (isinstance(a, (ast.Name, ast.Constant)) or used[p] == 0 and effect_free(a))
            if direct:
                exprs[p] = a
        for x in sorted(hl):
            if x in exprs:
                continue
            if x in taken:
                names[x] = "%s__%d" % (x, self.n)
        # an expression helper goes anywhere
        gen = has(bodyc, ast.Yield)
        if not gen and len(bodyc) == 1 and isinstance(bodyc[0], ast.Return) and bodyc[0].value is not None:
            e = dict(exprs)
            good = True
            for p in ps:
                if p not in e:
                    inner = any(isinstance(x, COMP + (ast.Lambda,)) and any(isinstance(y, ast.Name) and y.id == p for y in ast.walk(x)) for x in ast.walk(bodyc[0]))
                    if used[p] == 1 and not inner or effect_free(env[p]) and not has(env[p], ast.Call):
                        e[p] = env[p]
                    else:
                        good = False
            if good:
                val = Subst(names, e).visit(bodyc[0]).value
                self.replace(path[-2] if call is not ref else path[-2], call, val, path)
                return True
        if caller is not next((p for p in reversed(path[:i + 1]) if isinstance(p, FUNC)), None):
            return False        # in a lambda
        for p in ps:
            if p not in exprs:
                t = ast.Name(names.get(p, p), ast.Store())
                pre.append(loc(ast.Assign(targets=[t], value=env[p]), stmt))
        new = [Subst(names, exprs).visit(s) for s in bodyc]
        if gen:
            if not (isinstance(stmt, ast.For) and stmt.iter is call and not stmt.orelse):
                return False
            new = self.generator(new, stmt)
            holder_list = getattr(holder, fld)
            holder_list[idx:idx + 1] = pre + new
            return True
        if isinstance(stmt, ast.Return) and stmt.value is call:
            if not ends(new):
                new = new + [loc(ast.Return(value=ast.Constant(None)), stmt)]
            getattr(holder, fld)[idx:idx + 1] = pre + new
            return True

        def sink_of(make):
            def sink(v):
                if v is None:
                    v = ast.copy_location(ast.Constant(None), stmt)
                s = make(v)
                return [loc(x, stmt) for x in s]
            return sink
        if isinstance(stmt, ast.Expr) and stmt.value is call:
            last = convert(new, sink_of(lambda v: [ast.Expr(value=v)] if not effect_free(v) else []))
            getattr(holder, fld)[idx:idx + 1] = (pre + last) or [ast.copy_location(ast.Pass(), stmt)]
            return True
        if isinstance(stmt, ast.Assign) and stmt.value is call:
            last = convert(new, sink_of(lambda v: [ast.Assign(targets=[copy.deepcopy(t) for t in stmt.targets], value=v)]))
            getattr(holder, fld)[idx:idx + 1] = pre + last
            return True
        # evaluated first in its statement
        if not self.first(stmt, call):
            return False
        tmp = "value__%d" % self.n
        last = convert(new, sink_of(lambda v: [ast.Assign(targets=[ast.Name(tmp, ast.Store())], value=v)]))
        self.replace(path[-2], call, ast.copy_location(ast.Name(tmp, ast.Load()), call), path)
        getattr(holder, fld)[idx:idx] = pre + last
        return True

    def generator(self, new, loop):
        if own_breaks(loop, (ast.Break, ast.Continue)):
            raise CanNot
        if has(new, ast.Return):
            raise CanNot

        class Y(ast.NodeTransformer):
            def visit_Expr(self, s):
                if isinstance(s.value, ast.Yield):
                    v = s.value.value or ast.Constant(None)
                    return [loc(ast.Assign(targets=[copy.deepcopy(loop.target)], value=v), loop)] + [copy.deepcopy(b) for b in loop.body]
                return s
        out = []
        for s in new:
            r = Y().visit(s)
            out += r if isinstance(r, list) else [r]
        if has(out, ast.Yield):
            raise CanNot
        return out

    def first(self, stmt, call):
        """the call is evaluated unconditionally and nothing with an effect is evaluated before it"""
        if isinstance(stmt, ast.If) or isinstance(stmt, ast.Assert):
            root = stmt.test
        elif isinstance(stmt, ast.For):
            root = stmt.iter
        elif isinstance(stmt, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign)):
            root = stmt.value
            if isinstance(stmt, ast.AugAssign) and not isinstance(stmt.target, ast.Name):
                if not effect_free(stmt.target):
                    return False
        elif isinstance(stmt, ast.Raise):
            root = stmt.exc
        elif isinstance(stmt, ast.With):
            root = stmt.items[0].context_expr
        else:
            return False
        state = {"found": False, "ok": True}

        def rec(n):
            if state["found"] or not state["ok"]:
                return
            if n is call:
                state["found"] = True
                return
            inside = any(x is call for x in ast.walk(n))
            if not inside:
                if not effect_free(n):
                    state["ok"] = False
                return
            if isinstance(n, COMP):
                if any(x is call for x in ast.walk(n.generators[0].iter)):
                    rec(n.generators[0].iter)
                else:
                    state["ok"] = False
                return
            if isinstance(n, SCOPE):
                state["ok"] = False
                return
            if isinstance(n, ast.BoolOp):
                if any(x is call for x in ast.walk(n.values[0])):
                    rec(n.values[0])
                else:
                    state["ok"] = False
                return
            if isinstance(n, ast.IfExp):
                if any(x is call for x in ast.walk(n.test)):
                    rec(n.test)
                else:
                    state["ok"] = False
                return
            if isinstance(n, ast.Compare) and len(n.comparators) > 1 and not any(x is call for x in ast.walk(n.left)) \
                    and not any(x is call for x in ast.walk(n.comparators[0])):
                state["ok"] = False
                return
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.expr, ast.keyword)):
                    rec(c)
        if root is None:
            return False
        rec(root)
        return state["found"] and state["ok"]

    def path(self, root, target):
        out = []

        def rec(n):
            out.append(n)
            if n is target:
                return True
            for c in ast.iter_child_nodes(n):
                if rec(c):
                    return True
            out.pop()
            return False
        return out if rec(root) else None

    def statement(self, path):
        """index in path of the innermost statement, its holder, field and index"""
        for i in range(len(path) - 1, 0, -1):
            if isinstance(path[i], ast.stmt):
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(path[i - 1], fld, None)
                    if isinstance(b, list):
                        for k, s in enumerate(b):
                            if s is path[i]:
                                return i, path[i - 1], fld, k
        raise CanNot

    @staticmethod
    def replace(parent, old, new, path):
        for p in reversed(path):
            for fld, v in ast.iter_fields(p):
                if v is old:
                    setattr(p, fld, new)
                    return
                if isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is old:
                            v[k] = new
                            return
        raise CanNot


# ---------------------------------------------------------------- names that were changed
def rename_back(trees, anchors):
    log = []
    known = anchors["functions"]
    have = {}
    for m, t in trees.items():
        for q, node, cls, body, fn in functions(t, m):
            have[q] = (node, m, cls, fn)
    missing = [q for q in known if q not in have]
    new = [q for q in have if q not in known]
    pairs = []
    byname = {}
    for n in new:
        byname.setdefault(n.rsplit(".", 1)[1], []).append(n)

    def expanded(n):
        """with the code that was moved out of the function"""
        c, todo, seen = Counter(), [n], set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            c += fingerprint(have[k][0])
            for x in ast.walk(have[k][0]):
                if isinstance(x, ast.Call):
                    nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                    if len(byname.get(nm, ())) == 1:
                        todo += byname[nm]
        return c
    for q in missing:
        scope = q.rsplit(".", 1)[0]
        ps, fp = known[q]
        for n in new:
            if n.rsplit(".", 1)[0] != scope or "#" in n or "#" in q or len(params(have[n][0])) != len(ps):
                continue
            s = max(similar(fp, fingerprint(have[n][0])), similar(fp, expanded(n)))
            if s >= 0.6:
                pairs.append((s + difflib.SequenceMatcher(None, q, n).ratio() / 10, q, n))
    taken, found = set(), {}
    for _, q, n in sorted(pairs, reverse=True):
        if q not in taken and n not in found:
            taken.add(q)
            found[n] = q
    last = lambda x: x.rsplit(".", 1)[1]
    for nw in sorted({last(n) for n in found}):
        group = [n for n in have if last(n) == nw]
        olds = {last(found[n]) if n in found else None for n in group}
        if len(olds) != 1 or None in olds:
            continue        # the name has several meanings
        old = olds.pop()
        if any(last(k) == nw for k in known) or nw in anchors["names"]:
            continue
        plain = any(have[n][2] is None for n in group)
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, FUNC) and x.name == nw:
                    x.name = old
                elif isinstance(x, ast.Attribute) and x.attr == nw:
                    x.attr = old
                elif plain and isinstance(x, ast.Name) and x.id == nw:
                    x.id = old
                elif plain and isinstance(x, ast.alias) and x.name == nw:
                    x.name = old
        log += ["%s -> %s" % (nw, found[n]) for n in group]
    return log


def rename_attributes(trees, anchors):
    log = []
    prof, stored = attr_profile(trees)
    gone = [a for a in anchors["attributes"] if a not in prof]
    new = [a for a in stored if a not in anchors["names"]]
    pairs = []
    for a in gone:
        want = anchors["attributes"][a]
        for n in new:
            s = similar(part(want, False), part(prof[n], False))
            if s >= 0.7:
                pairs.append((round(s, 2) + similar(part(want, True), part(prof[n], True)) + difflib.SequenceMatcher(None, a, n).ratio() / 10, a, n))
    for _, a, n in sorted(pairs, reverse=True):
        if a not in gone or n not in new:
            continue
        gone.remove(a)
        new.remove(n)
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and x.attr == n:
                    x.attr = a
        log.append("%s -> %s" % (n, a))
    return log


def rename_params(trees, anchors):
    """positional parameters of private functions"""
    log = []
    known = anchors["functions"]
    kw = {}
    for t in trees.values():
        for x in ast.walk(t):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                for k in x.keywords:
                    kw.setdefault(nm, set()).add(k.arg)
    for m, t in trees.items():
        for q, node, cls, body, fn in functions(t, m):
            if q not in known:
                continue
            ps, want = params(node), known[q][0]
            if len(ps) != len(want) or ps == want or set(ps) == set(want):
                continue
            private = node.name.startswith("_") and not node.name.startswith("__") or fn is not None or "#setter" in q
            if not private:
                continue
            names = {}
            inside = bound_names(node)
            for p, w in zip(ps, want):
                if p != w and w not in inside and w not in names.values() and p not in kw.get(node.name, ()) and w not in kw.get(node.name, ()):
                    names[p] = w
            if names:
                nn = node.name
                Subst(names, {}).visit(node)
                node.name = nn
                log.append("%s %s" % (q, names))
    return log


# ---------------------------------------------------------------- forms
class Forms(ast.NodeTransformer):
    """Explaining variables of conditions, append loops and counting while loops"""

    def __init__(self, scopes=True):
        self.count = 0
        self.scopes = scopes        # also forms that change the scopes of names

    def visit_FunctionDef(self, f):
        old = getattr(self, "f", None)
        self.f = f
        self.generic_visit(f)
        self.f = old
        return f

    def generic_visit(self, n):
        super().generic_visit(n)
        if getattr(self, "f", None) is not None:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    self.block(b)
        return n

    def visit_For(self, n):
        # for i, x in enumerate(c) without a use of i  ->  for x in c
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and not it.keywords \
                and self.scopes and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and getattr(self, "f", None) is not None:
            if self.uses(n.target.elts[0].id)[0] == 0:
                n.iter, n.target = it.args[0], n.target.elts[1]
                self.count += 1
        return n

    def uses(self, name):
        ld = st = 0
        for n in ast.walk(self.f):
            if isinstance(n, ast.Name) and n.id == name:
                if isinstance(n.ctx, ast.Load):
                    ld += 1
                else:
                    st += 1
            elif isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names or isinstance(n, ast.arg) and n.arg == name:
                st += 10000
        return ld, st

    def block(self, b):
        i = 0
        while i < len(b):
            if self.cond(b, i) or self.scopes and (self.listcomp(b, i) or self.count_loop(b, i)):
                self.count += 1
                i = max(0, i - 2)
                continue
            i += 1

    def adjacent(self, name):
        """every use of the name is the only one in a condition directly after an assignment to it"""
        loads = [n for n in ast.walk(self.f) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
        if self.uses(name)[1] >= 10000:
            return False
        good = set()
        for n in ast.walk(self.f):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list):
                    for x, y in zip(b, b[1:]):
                        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name \
                                and isinstance(y, (ast.If, ast.Assert)):
                            inner = [z for z in ast.walk(y.test) if isinstance(z, ast.Name) and z.id == name]
                            if len(inner) == 1:
                                good.add(id(inner[0]))
        return all(id(n) in good for n in loads)

    # t = test; if t:  ->  if test:
    def cond(self, b, i):
        if i + 1 >= len(b):
            return False
        s, u = b[i], b[i + 1]
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(u, (ast.If, ast.Assert))):
            return False
        if not isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call, ast.Attribute, ast.Name, ast.BinOp, ast.Subscript)):
            return False
        name = s.targets[0].id
        pos = []
        t = u.test

        def first(n):
            """positions evaluated first"""
            pos.append(n)
            if isinstance(n, ast.UnaryOp):
                first(n.operand)
            elif isinstance(n, ast.BoolOp):
                first(n.values[0])
                if effect_free(s.value):
                    for v in n.values[1:]:
                        first(v)
            elif isinstance(n, ast.Compare):
                first(n.left)
                if simple(n.left):
                    first(n.comparators[0])
        first(t)
        hit = [n for n in pos if isinstance(n, ast.Name) and n.id == name]
        if len(hit) != 1 or not self.adjacent(name):
            return False
        if not isinstance(s.value, (ast.Compare, ast.BoolOp)) and not (isinstance(s.value, ast.UnaryOp) and isinstance(s.value.op, ast.Not)) \
                and not (isinstance(t, ast.Name) or isinstance(t, ast.UnaryOp) and isinstance(t.operand, ast.Name)):
            return False
        if t is hit[0]:
            u.test = s.value
        else:
            for n in ast.walk(t):
                for fld, v in ast.iter_fields(n):
                    if v is hit[0]:
                        setattr(n, fld, s.value)
                    elif isinstance(v, list):
                        for k, x in enumerate(v):
                            if x is hit[0]:
                                v[k] = s.value
        del b[i]
        return True

    # x = []; for a in c: [if d:] x.append(e)
    def listcomp(self, b, i):
        if i + 1 >= len(b):
            return False
        s, u = b[i], b[i + 1]
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts):
            return False
        name = s.targets[0].id
        gens = []
        cur = u
        while True:
            if isinstance(cur, ast.For):
                if cur.orelse or len(cur.body) != 1 or cur.type_comment:
                    return False
                gens.append(ast.comprehension(target=cur.target, iter=cur.iter, ifs=[], is_async=0))
                cur = cur.body[0]
            elif isinstance(cur, ast.If) and gens:
                if cur.orelse or len(cur.body) != 1:
                    return False
                gens[-1].ifs.append(cur.test)
                cur = cur.body[0]
            else:
                break
        if not gens or len(gens) > 1 or not (isinstance(cur, ast.Expr) and isinstance(cur.value, ast.Call) and isinstance(cur.value.func, ast.Attribute)
                            and cur.value.func.attr == "append" and isinstance(cur.value.func.value, ast.Name) and cur.value.func.value.id == name
                            and len(cur.value.args) == 1 and not cur.value.keywords):
            return False
        elt = cur.value.args[0]
        for g in gens:
            for e in [g.iter] + g.ifs + [elt]:
                if any(isinstance(n, ast.Name) and n.id == name or isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr)) for n in ast.walk(e)):
                    return False
            if not isinstance(g.target, (ast.Name, ast.Tuple)):
                return False
            # loop variables are not used elsewhere
            inside = {id(n) for n in ast.walk(u)}
            tn = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for n in ast.walk(self.f):
                if isinstance(n, ast.Name) and n.id in tn and isinstance(n.ctx, ast.Load) and id(n) not in inside and not self.rebound(n):
                    return False
        new = ast.ListComp(elt=elt, generators=gens)
        b[i] = loc(ast.Assign(targets=s.targets, value=new), u)
        ast.copy_location(b[i].value, u)
        del b[i + 1]
        return True

    def rebound(self, n):
        """the name is the variable of a comprehension or loop around the use"""
        for c in ast.walk(self.f):
            if isinstance(c, COMP) and any(x is n for x in ast.walk(c)):
                if any(isinstance(x, ast.Name) and x.id == n.id for g in c.generators for x in ast.walk(g.target)):
                    return True
            if isinstance(c, ast.For) and any(x is n for s in c.body for x in ast.walk(s)):
                if any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(c.target)):
                    return True
        return False

    # i = a; while i < n: ...; i += 1
    def count_loop(self, b, i):
        if i + 1 >= len(b):
            return False
        s, u = b[i], b[i + 1]
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(u, ast.While) and not u.orelse):
            return False
        name = s.targets[0].id
        t = u.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and t.left.id == name):
            return False
        if len(u.body) < 2 or own_breaks(u, (ast.Continue,)):
            return False
        last = u.body[-1]
        one = lambda e: isinstance(e, ast.Constant) and e.value == 1
        inc = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == name and one(last.value) or \
            isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == name and \
            isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == name and one(last.value.right)
        if not inc or not effect_free(s.value) or not effect_free(t.comparators[0]):
            return False
        body = u.body[:-1]
        bound = t.comparators[0]
        bn = {n.id for n in ast.walk(bound) if isinstance(n, ast.Name)} | {name}
        attrs = {n.attr for n in ast.walk(bound) if isinstance(n, ast.Attribute)}
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and n.id in bn and not isinstance(n.ctx, ast.Load):
                    return False
                if isinstance(n, ast.Attribute) and n.attr in attrs and not isinstance(n.ctx, ast.Load):
                    return False
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "pop", "insert", "remove", "extend", "clear", "add", "discard"):
                    r = n.func.value
                    if isinstance(r, ast.Name) and r.id in bn or isinstance(r, ast.Attribute) and r.attr in attrs:
                        return False
                if isinstance(n, ast.Delete):
                    return False
        # not read after the loop
        inside = {id(n) for n in ast.walk(u)}
        for n in ast.walk(self.f):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in inside and not self.rebound(n):
                return False
        zero = isinstance(s.value, ast.Constant) and s.value.value == 0
        it = ast.Call(func=ast.Name("range", ast.Load()), args=[bound] if zero else [s.value, bound], keywords=[])
        new = ast.For(target=ast.Name(name, ast.Store()), iter=it, body=body, orelse=[], type_comment=None)
        ast.copy_location(new, u)
        b[i] = loc(new, u)
        del b[i + 1]
        return True


def normalise(trees, anchors=None, forms=True):
    """trees: module name -> ast.Module (changed in place). Returns (log, modules whose code was moved)."""
    anchors = anchors or load_anchors()
    before = {m: ast.dump(t) for m, t in trees.items()}
    log = []
    for _ in range(3):
        got = ["renamed function " + x for x in rename_back(trees, anchors)] + ["renamed attribute " + x for x in rename_attributes(trees, anchors)]
        log += got
        if not got:
            break
    log += ["put back " + x for x in Inliner(trees, set(anchors["functions"])).run()]
    log += ["renamed attribute " + x for x in rename_attributes(trees, anchors)]
    log += ["renamed parameters " + x for x in rename_params(trees, anchors)]
    moved = {m for m, t in trees.items() if ast.dump(t) != before[m]}
    for t in trees.values():
        Forms(forms).visit(t)
    for t in trees.values():
        ast.fix_missing_locations(t)
    return log, moved
