"""Program model: modules, classes, functions and name resolution of /repo/src/bgem."""
import ast
import builtins
import os

from . import norm

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "bgem"


class AnalysisError(Exception):
    """The analysis can not be carried out (missing anchor, unparsable file)."""


class Func:
    def __init__(self, qual, node, mod, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.mod = mod
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        self.is_lambda = isinstance(node, ast.Lambda)
        self.kind = "func"
        self.decos = []
        if not self.is_lambda:
            for d in node.decorator_list:
                self.decos.append(ast.unparse(d))
        if cls is not None and parent is None:
            self.kind = "method"
            if "staticmethod" in self.decos:
                self.kind = "static"
            elif "classmethod" in self.decos:
                self.kind = "class"
            elif "property" in self.decos or any(d.endswith("cached_property") for d in self.decos):
                self.kind = "property"
            elif any(d.endswith(".setter") for d in self.decos):
                self.kind = "setter"
        body = node.body if not self.is_lambda else [node.body]
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for b in body for n in walk_scope(b))
        self.nested = {}

    def deco_is(self, prog, target):
        """True if one of decorators resolves to the given qualified name."""
        if self.is_lambda:
            return False
        for d in self.node.decorator_list:
            ent = prog.resolve_expr(self.mod, d)
            if ent is not None and ent[0] == "func" and ent[1].qual == target:
                return True
            if ent is not None and ent[0] == "ext" and ent[1] == target:
                return True
        return False

    @property
    def args(self):
        return self.node.args

    def pos_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        out += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def defaults(self):
        """param name -> default expression"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return "%s:%s" % (self.mod.relpath, getattr(n, "lineno", 0))

    def __repr__(self):
        return "Func(%s)" % self.qual


class Cls:
    def __init__(self, qual, node, mod):
        self.qual = qual
        self.node = node
        self.mod = mod
        self.name = node.name
        self.bases = []      # entities
        self.methods = {}    # name -> Func (getter for properties)
        self.setters = {}
        self.class_attrs = {}   # name -> expr

    def __repr__(self):
        return "Cls(%s)" % self.qual


class Mod:
    def __init__(self, name, path, tree, source):
        self.name = name
        self.path = path
        self.relpath = os.path.relpath(path, REPO)
        self.tree = tree
        self.source = source
        self.ns = {}     # name -> entity
        self.consts = {}     # name -> list of value exprs assigned at module level


def walk_scope(node):
    """Walk without entering nested function/lambda/class scopes (the node itself is yielded)."""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Program:
    def __init__(self, repo=None, forms=True):
        self.forms = forms
        self.repo = repo or REPO
        self.src = os.path.join(self.repo, "src")
        self.mods = {}
        self.funcs = {}
        self.classes = {}
        self.node_func = {}
        self._load()
        self._link()
        self._mro_cache = {}

    # ------------------------------------------------------------------ loading
    def _load(self):
        root = os.path.join(self.src, PKG)
        if not os.path.isdir(root):
            raise AnalysisError("package directory %s not found" % root)
        for dirpath, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.src)[:-3].replace(os.sep, ".")
                name = rel[:-len(".__init__")] if rel.endswith(".__init__") else rel
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError("can not parse %s: %s" % (path, e))
                m = Mod(name, path, tree, src)
                m.is_pkg = fn == "__init__.py"
                self.mods[name] = m
        self.normalised, moved = norm.normalise({m.name: m.tree for m in self.mods.values()}, forms=self.forms)
        for m in self.mods.values():
            if m.name in moved and not self.forms:
                m.source = ast.unparse(m.tree)
                m.tree = ast.parse(m.source, m.path)
        for m in self.mods.values():
            self._collect(m, m.tree.body, m.name, None, None)

    def _collect(self, mod, body, prefix, cls, func):
        for st in body:
            self._collect_stmt(mod, st, prefix, cls, func)

    def _collect_stmt(self, mod, st, prefix, cls, func):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            qual = prefix + "." + st.name
            f = Func(qual, st, mod, cls, func)
            if f.kind == "setter" and cls is not None:
                qual = qual + "#setter"
                f.qual = qual
                cls.setters[st.name] = f
            elif cls is not None and func is None:
                cls.methods[st.name] = f
            elif func is not None:
                func.nested[st.name] = f
            self.funcs[qual] = f
            self.node_func[st] = f
            self._collect_lambdas(mod, st, qual, f)
            self._collect(mod, st.body, qual, cls, f)
            if cls is None and func is None:
                mod.ns[st.name] = ("func", f)
        elif isinstance(st, ast.ClassDef):
            qual = prefix + "." + st.name
            c = Cls(qual, st, mod)
            self.classes[qual] = c
            if func is None and cls is None:
                mod.ns[st.name] = ("class", c)
            elif cls is not None:
                cls.class_attrs[st.name] = st
            for s in st.body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                c.class_attrs[n.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.class_attrs[s.target.id] = s.value
            self._collect(mod, st.body, qual, c, None)
        elif isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            for name in ("body", "orelse", "finalbody"):
                self._collect(mod, getattr(st, name, []), prefix, cls, func)
            for h in getattr(st, "handlers", []):
                self._collect(mod, h.body, prefix, cls, func)
        elif func is None and cls is None:
            pass

    def _collect_lambdas(self, mod, fnode, qual, func):
        k = 0
        for st in fnode.body:
            for n in walk_scope(st):
                if isinstance(n, ast.Lambda):
                    lf = Func("%s.<lambda%d>" % (qual, k), n, mod, func.cls, func)
                    k += 1
                    self.node_func[n] = lf
                    # lambdas are not registered in self.funcs by name

    # ------------------------------------------------------------------ linking
    def _abs_module(self, mod, level, name):
        if level == 0:
            return name or ""
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        base = ".".join(parts)
        return base + ("." + name if name else "")

    def import_bindings(self, mod, st):
        """Local name -> entity for one import statement."""
        out = {}
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out[a.asname] = self._mod_entity(a.name)
                else:
                    out[a.name.split(".")[0]] = self._mod_entity(a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = self._abs_module(mod, st.level, st.module)
            for a in st.names:
                if a.name == "*":
                    continue
                full = base + "." + a.name
                if full in self.mods:
                    out[a.asname or a.name] = ("mod", self.mods[full])
                elif base in self.mods:
                    out[a.asname or a.name] = ("from", self.mods[base], a.name)
                else:
                    out[a.asname or a.name] = ("ext", full)
        return out

    def _mod_entity(self, name):
        if name in self.mods:
            return ("mod", self.mods[name])
        return ("ext", name)

    def _link(self):
        for m in self.mods.values():
            for st in self._module_stmts(m.tree.body):
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    for k, e in self.import_bindings(m, st).items():
                        m.ns.setdefault(k, e)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.consts.setdefault(t.id, []).append(st.value)
                            if t.id not in m.ns or m.ns[t.id][0] == "const":
                                m.ns[t.id] = ("const", m, t.id)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for n in ast.walk(t):
                                if isinstance(n, ast.Name):
                                    m.ns[n.id] = ("const", m, n.id)
                                    m.consts.setdefault(n.id, []).append(None)
                elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
                    if isinstance(st.target, ast.Name):
                        m.ns.setdefault(st.target.id, ("const", m, st.target.id))
                        m.consts.setdefault(st.target.id, []).append(st.value)
                elif isinstance(st, (ast.For, ast.With)):
                    t = getattr(st, "target", None)
                    for n in ast.walk(t) if t is not None else ():
                        if isinstance(n, ast.Name):
                            m.ns.setdefault(n.id, ("const", m, n.id))
                            m.consts.setdefault(n.id, []).append(None)
        for c in self.classes.values():
            for b in c.node.bases:
                e = self.resolve_expr(c.mod, b)
                c.bases.append(e)

    def _module_stmts(self, body):
        for st in body:
            yield st
            if isinstance(st, (ast.If, ast.Try, ast.For, ast.With, ast.While)):
                for name in ("body", "orelse", "finalbody"):
                    yield from self._module_stmts(getattr(st, name, []))
                for h in getattr(st, "handlers", []):
                    yield from self._module_stmts(h.body)

    def lookup(self, mod, name):
        """Resolve a global name of the module to an entity or None."""
        e = mod.ns.get(name)
        seen = set()
        while e is not None and e[0] == "from":
            if (e[1].name, e[2]) in seen:
                return None
            seen.add((e[1].name, e[2]))
            m2 = e[1]
            e2 = m2.ns.get(e[2])
            if e2 is None:
                sub = m2.name + "." + e[2]
                if sub in self.mods:
                    return ("mod", self.mods[sub])
                return None
            e = e2
        if e is None and hasattr(builtins, name):
            return ("ext", "builtins." + name)
        return e

    def resolve_expr(self, mod, expr):
        """Resolve Name/Attribute chains of module level entities."""
        if isinstance(expr, ast.Name):
            return self.lookup(mod, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(mod, expr.value)
            return self.entity_attr(b, expr.attr)
        if isinstance(expr, ast.Call):
            return self.resolve_expr(mod, expr.func)
        return None

    def entity_attr(self, ent, name):
        if ent is None:
            return None
        if ent[0] == "mod":
            e = self.lookup_in(ent[1], name)
            return e
        if ent[0] == "ext":
            return ("ext", ent[1] + "." + name)
        if ent[0] == "class":
            f = self.find_method(ent[1], name)
            if f is not None:
                return ("func", f)
        return None

    def lookup_in(self, mod, name):
        if name in mod.ns:
            return self.lookup(mod, name)
        sub = mod.name + "." + name
        if sub in self.mods:
            return ("mod", self.mods[sub])
        return None

    # ------------------------------------------------------------------ classes
    def mro(self, cls):
        """Linearised list of own classes (C3 approximated by DFS) and external base names."""
        if cls.qual in self._mro_cache:
            return self._mro_cache[cls.qual]
        out, ext = [cls], []
        for b in cls.bases:
            if b is None:
                ext.append("?")
            elif b[0] == "class":
                o2, e2 = self.mro(b[1])
                for c in o2:
                    if c in out:
                        out.remove(c)
                    out.append(c)
                ext += e2
            elif b[0] == "ext":
                ext.append(b[1])
            else:
                ext.append("?")
        self._mro_cache[cls.qual] = (out, ext)
        return out, ext

    def find_method(self, cls, name):
        for c in self.mro(cls)[0]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, cls, name):
        for c in self.mro(cls)[0]:
            if name in c.setters:
                return c.setters[name]
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls)[0]:
            if name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    def ext_bases(self, cls):
        return self.mro(cls)[1]

    def subclasses(self, cls):
        return [c for c in self.classes.values() if cls in self.mro(c)[0]]

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            raise AnalysisError("anchor function %s not found" % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisError("anchor class %s not found" % qual)
        return c

    def method(self, clsqual, name):
        c = self.cls(clsqual)
        f = self.find_method(c, name)
        if f is None:
            raise AnalysisError("anchor method %s.%s not found" % (clsqual, name))
        return f

    def mod(self, name):
        m = self.mods.get(name)
        if m is None:
            raise AnalysisError("anchor module %s not found" % name)
        return m

    # ------------------------------------------------------------------ constants
    def const_value(self, mod, name, depth=0):
        """Value of a module constant; (True, value) or (False, None)."""
        exprs = mod.consts.get(name)
        if not exprs or len(exprs) != 1 or exprs[0] is None:
            return False, None
        # global statement may rebind it
        if name in self.rebound_globals(mod):
            return False, None
        return self.const_expr(mod, exprs[0], depth + 1)

    def rebound_globals(self, mod):
        if not hasattr(mod, "_rebound"):
            mod._rebound = {n for node in ast.walk(mod.tree) if isinstance(node, ast.Global) for n in node.names}
        return mod._rebound

    def const_expr(self, mod, e, depth=0):
        if depth > 10:
            return False, None
        if isinstance(e, ast.Constant):
            return True, e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            ok, v = self.const_expr(mod, e.operand, depth + 1)
            if ok and isinstance(v, (int, float)):
                return True, -v
        if isinstance(e, (ast.Tuple,)):
            vals = [self.const_expr(mod, x, depth + 1) for x in e.elts]
            if all(o for o, v in vals):
                return True, tuple(v for o, v in vals)
        if isinstance(e, (ast.Name, ast.Attribute)):
            ent = self.resolve_expr(mod, e)
            if ent is not None and ent[0] == "const":
                return self.const_value(ent[1], ent[2], depth + 1)
        return False, None
