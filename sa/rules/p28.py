"""P28: no code path refers to an undefined name or attribute, calls match signatures."""
import ast
import builtins
import glob
import importlib
import symtable
import string

FORMS = False
LEVEL = "other"
TECHNIQUE = "scope resolution, definite-assignment dataflow and type-inference based attribute and signature resolution over the whole package"
EXPLANATION = ("Every name load of every module, class and function is resolved in its scopes; a forward dataflow analysis of every "
               "function decides which locals are bound where they are read; every attribute load on an object of an own class, an "
               "own module, a class, numpy, gmsh or the standard library is looked up in the definition of what type inference finds "
               "there; every call of an own function, own constructor or gmsh function is bound to the signature of each possible "
               "callee; unpackings are compared with the length of the tuples that reach them.")
STDLIB = {"enum", "time", "os", "itertools", "collections", "copy", "struct", "csv", "logging", "contextlib", "math", "sys", "re", "json", "operator",
          "functools", "typing", "warnings", "string"}
OBJ = set(dir(object)) | {"__dict__", "__name__", "__module__", "__class__", "__slots__", "__weakref__", "__annotations__", "__attrs_attrs__"}
BUILTIN_BASE = {"builtins.dict": dict, "builtins.list": list, "builtins.set": set, "builtins.tuple": tuple, "builtins.int": int, "builtins.str": str,
                "builtins.Exception": Exception, "builtins.BaseException": BaseException, "builtins.ValueError": ValueError, "builtins.object": object,
                "builtins.RuntimeError": RuntimeError, "builtins.KeyError": KeyError, "builtins.TypeError": TypeError, "builtins.float": float}


# ------------------------------------------------------------------ names
def module_globals(ctx, m, seen=()):
    """Names bound at module level (None if a star import of an unknown module hides them)."""
    out = set()
    st = symtable.symtable(m.source, m.path, "exec")
    for s in st.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            out.add(s.get_name())

    def sub(t):
        for c in t.get_children():
            if c.get_type() in ("function", "class"):
                for s in c.get_symbols():
                    if s.is_declared_global() and s.is_assigned():
                        out.add(s.get_name())
            sub(c)
    sub(st)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            q = ctx.prog._abs_module(m, n.level, n.module)
            if q in ctx.prog.mods and q not in seen:
                g = module_globals(ctx, ctx.prog.mods[q], seen + (m.name,))
                if g is None:
                    return None
                out |= g
            else:
                return None
    return out


def names(ctx, dead):
    ctx.rule("name", "every name read is bound in its scopes, in the module or in the builtins")
    known = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__annotations__",
                                  "__class__", "__debug__", "__module__", "__qualname__"}
    for mn, m in sorted(ctx.prog.mods.items()):
        g = module_globals(ctx, m)
        if g is None:
            ctx.notes.append("names of %s not decided (star import)" % mn)
            continue
        top = symtable.symtable(m.source, m.path, "exec")
        index = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and n not in dead:
                index.setdefault(n.id, []).append(n)

        spans = {}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                spans[(n.name, n.lineno)] = (n.lineno, n.end_lineno)
                for d in n.decorator_list:
                    spans.setdefault((n.name, d.lineno), (n.lineno, n.end_lineno))

        def inside(t, n):
            if t.get_type() == "module":
                return True
            sp = spans.get((t.get_name(), t.get_lineno()))
            return sp is None or sp[0] <= n.lineno <= sp[1]

        def visit(t, path):
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced():
                    continue
                at_top = t.get_type() == "module"
                free = s.is_global() or (at_top and not s.is_local()) or (at_top and s.is_local() and not s.is_assigned() and not s.is_imported()
                                                                          and not s.is_namespace())
                if not free or nm in g or nm in known:
                    continue
                cons = ".".join(path) + "/" + nm
                ls = [n.lineno for n in index.get(nm, ()) if inside(t, n)]
                if not ls:
                    continue
                # the reference inside this scope
                ctx.bad("name", cons, "the name %s is not defined" % nm, "%s:%s" % (m.path, ls[0] if ls else t.get_lineno()))
            ctx.ok("name", ".".join(path))
            for c in t.get_children():
                visit(c, path + [c.get_name()])
        visit(top, [mn])
        ctx.saw("module", mn)


# ------------------------------------------------------------------ imports
def imports(ctx):
    ctx.rule("import", "every import of an own module or name, and of a standard library name, exists")
    for mn, m in sorted(ctx.prog.mods.items()):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                q = ctx.prog._abs_module(m, n.level, n.module)
                own = q in ctx.prog.mods
                for a in n.names:
                    cons = "%s/from %s import %s" % (mn, q, a.name)
                    if a.name == "*":
                        continue
                    if own:
                        g = module_globals(ctx, ctx.prog.mods[q])
                        ctx.check(g is None or a.name in g or q + "." + a.name in ctx.prog.mods, "import", cons, "%s has no name %s" % (q, a.name),
                                  "%s:%s" % (m.path, n.lineno))
                    elif q and q.split(".")[0] == "bgem":
                        ctx.check(any(x.startswith(q + ".") for x in ctx.prog.mods), "import", cons, "there is no module %s" % q, "%s:%s" % (m.path, n.lineno))
                    elif q in STDLIB:
                        ctx.check(hasattr(importlib.import_module(q), a.name), "import", cons, "%s has no name %s" % (q, a.name), "%s:%s" % (m.path, n.lineno))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] == "bgem":
                        ctx.check(a.name in ctx.prog.mods or any(x.startswith(a.name + ".") for x in ctx.prog.mods), "import", "%s/import %s" % (mn, a.name),
                                  "there is no module %s" % a.name, "%s:%s" % (m.path, n.lineno))


# ------------------------------------------------------------------ definite assignment
class Flow:
    """Definite assignment in one function body. States are (definite, possible) sets or None (unreachable)."""

    def __init__(self, ctx, f, params, locs, report):
        self.ctx, self.f, self.locs, self.report = ctx, f, locs, report
        self.tests = []          # enclosing tests of the statement being analysed
        self.partial = {}        # name -> names of the tests under which it was bound
        self.loops = []
        self.maybe_all = set()
        self.dead = set()
        self.last = set()
        self.start = (frozenset(params), frozenset(params))

    def go(self, body):
        self.block(body, self.start)

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return (a[0] & b[0], a[1] | b[1])

    def block(self, body, st):
        for i, s in enumerate(body):
            if st is None:
                self.dead.update(body[i:])
                return None
            st = self.stmt(s, st)
        return st

    def bind(self, names, st):
        n = frozenset(x for x in names if x in self.locs)
        if self.tests:
            for x in n:
                self.partial.setdefault(x, []).append([t for t in self.tests])
        return (st[0] | n, st[1] | n)

    def expr(self, e, st):
        """Reads of an expression; walrus targets bind. Returns the state."""
        if e is None or st is None:
            return st
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, (ast.Load, ast.Del)) and e.id in self.locs:
                self.use(e, st)
            return st
        if isinstance(e, ast.NamedExpr):
            st = self.expr(e.value, st)
            return self.bind([e.target.id], st)
        if isinstance(e, ast.Lambda):
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            own = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            st = self.expr(e.generators[0].iter, st)
            inner = (st[0] | own, st[1] | own)
            save = self.locs
            self.locs = self.locs - own
            for i, g in enumerate(e.generators):
                if i:
                    self.expr(g.iter, inner)
                for c in g.ifs:
                    self.expr(c, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.tests.append(ast.Constant(True))
                self.expr(x, inner)
                self.tests.pop()
            self.locs = save
            return st
        if isinstance(e, (ast.IfExp, ast.BoolOp)):
            parts = [e.test, e.body, e.orelse] if isinstance(e, ast.IfExp) else list(e.values)
            st = self.expr(parts[0], st)
            s0 = st
            for p in parts[1:]:
                self.tests.append(parts[0])
                self.expr(p, s0)
                self.tests.pop()
            return st
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                st = self.expr(c, st)
            elif isinstance(c, ast.keyword):
                st = self.expr(c.value, st)
        return st

    def use(self, n, st):
        if n.id in st[0]:
            return
        certain = n.id not in st[1]
        if not certain and self.correlated(n):
            return
        self.report(n, certain)

    def correlated(self, n):
        """The read sits under a test related to the tests under which the name is bound."""
        mine = {x.id if isinstance(x, ast.Name) else ast.unparse(x) for t in self.tests for x in ast.walk(t) if isinstance(x, (ast.Name, ast.Attribute))}
        if mine or any(not isinstance(t, ast.Constant) for t in self.tests):
            return True
        # bound in two branches, the second taken on a variable that the first branch also sets
        binds = self.partial.get(n.id, [])
        for a in binds:
            for b in binds:
                extra = [t for t in b if t not in a]
                flags = {x.id for t in extra for x in ast.walk(t) if isinstance(x, ast.Name)}
                if extra and any(t in c for v in flags for c in self.partial.get(v, []) for t in a):
                    return True
        return False

    def exhaustive(self, s):
        """The last `if` of an if/elif chain that compares one value with every member of an enumeration (or True and False)."""
        subj, seen, cls = None, set(), None
        while True:
            t = s.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is))):
                return None
            for a, b in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
                for x in self.ctx.types.atoms(b):
                    if x[0] == "I" and isinstance(b, ast.Attribute) and any("Enum" in y for y in self.ctx.prog.mro(self.ctx.prog.classes[x[1]])[1]):
                        k = ast.dump(a)
                        if subj in (None, k) and cls in (None, x[1]):
                            subj, cls = k, x[1]
                            seen.add(b.attr)
            if cls is None:
                return None
            if not s.orelse:
                members = {y.id for c in self.ctx.prog.classes[cls].node.body if isinstance(c, ast.Assign) for y in c.targets if isinstance(y, ast.Name)}
                return s if members and members <= seen else None
            if len(s.orelse) != 1 or not isinstance(s.orelse[0], ast.If):
                return None
            s = s.orelse[0]

    def targets(self, t, st):
        if isinstance(t, ast.Name):
            return self.bind([t.id], st)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.targets(x, st)
            return st
        if isinstance(t, ast.Starred):
            return self.targets(t.value, st)
        return self.expr_children(t, st)

    def expr_children(self, t, st):
        for c in ast.iter_child_nodes(t):
            if isinstance(c, ast.expr):
                st = self.expr(c, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                st = self.expr(d, st)
            return self.bind([s.name], st)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind([(a.asname or a.name.split(".")[0]) for a in s.names], st)
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.targets(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                st = self.expr(s.value, st)
                st = self.targets(s.target, st)
            return st
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locs:
                    self.use(s.target, st)
                return self.bind([s.target.id], st)
            return self.expr_children(s.target, st)
        if isinstance(s, ast.Expr):
            return self.expr(s.value, st)
        if isinstance(s, ast.Return):
            self.expr(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, st)
            self.expr(s.cause, st)
            return None
        if isinstance(s, ast.Assert):
            st = self.expr(s.test, st)
            self.expr(s.msg, st)
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return None
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.locs:
                        self.use(t, st)
                    st = (st[0] - {t.id}, st[1] - {t.id})
                else:
                    st = self.expr_children(t, st)
            return st
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            if isinstance(s.test, ast.Constant):
                return self.block(s.body if s.test.value else s.orelse, st)
            self.tests.append(s.test)
            a = self.block(s.body, st)
            if not s.orelse and s in self.last:
                b = None            # the chain of tests covers all members of an enumeration
            else:
                chain = self.exhaustive(s)
                if chain:
                    self.last.add(chain)
                b = self.block(s.orelse, st)
            self.tests.pop()
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            endless = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            inbody = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if isinstance(s, ast.While):
                st = self.expr(s.test, st)
                entry = st
            else:
                st = self.expr(s.iter, st)
                entry = self.targets(s.target, st)
            entry = (entry[0], entry[1] | (inbody & self.locs))
            self.loops.append([None, None])
            out = self.block(s.body, entry)
            brk, cont = self.loops.pop()
            out = self.join(out, cont)
            if endless:
                out = None
            elif out is None:
                out = st            # the body never completes: only the empty loop gets here
            else:
                out = (out[0], out[1] | st[1])
            if s.orelse:
                out = self.block(s.orelse, out)
            elif out is not None and brk is not None:
                # a search loop left by break: that the search succeeds is not decided here
                return (out[0] | (brk[0] & inbody), out[1] | brk[1])
            return self.join(out, brk)
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0] = self.join(self.loops[-1][0], st)
            return None
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1] = self.join(self.loops[-1][1], st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.targets(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            stored = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} & self.locs
            a = self.block(s.body, st)
            h0 = (st[0], st[1] | stored)
            if s.orelse:
                a = self.block(s.orelse, a) if a is not None else None
            outs = a
            for h in s.handlers:
                hs = h0
                self.expr(h.type, hs)
                if h.name:
                    hs = self.bind([h.name], hs)
                b = self.block(h.body, hs)
                if b is not None and h.name:
                    b = (b[0] - {h.name}, b[1] - {h.name})
                outs = self.join(outs, b)
            if s.finalbody:
                if outs is None:
                    self.block(s.finalbody, h0)
                    return None
                return self.block(s.finalbody, outs)
            return outs
        if isinstance(s, ast.Match):
            st = self.expr(s.subject, st)
            out = None
            full = False
            for c in s.cases:
                b = self.bind([n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name], st)
                out = self.join(out, self.block(c.body, b))
                full = full or (isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None)
            return out if full else self.join(out, st)
        return st


def function_table(ctx):
    """Func -> symtable of the same function."""
    out = {}
    for m in ctx.prog.mods.values():
        tab = {}

        def rec(t):
            for c in t.get_children():
                if c.get_type() == "function":
                    tab.setdefault((c.get_name(), c.get_lineno()), c)
                rec(c)
        rec(symtable.symtable(m.source, m.path, "exec"))
        out[m.name] = tab
    return out


def unbound(ctx):
    ctx.rule("unbound", "every local variable is bound on every path that reads it")
    tabs = function_table(ctx)
    dead = set()
    for q, f in sorted(ctx.prog.funcs.items()):
        if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        t = tabs[f.mod.name].get((f.node.name, f.node.lineno))
        if t is None:
            for d in f.node.decorator_list:
                t = t or tabs[f.mod.name].get((f.node.name, d.lineno))
        if t is None:
            continue
        ps = set(f.all_params())
        locs = {s.get_name() for s in t.get_symbols() if s.is_local()} | ps
        hits = []
        fl = Flow(ctx, f, ps, locs, lambda n, c: hits.append((n, c)))
        fl.go(f.node.body)
        for s in fl.dead:
            dead.update(ast.walk(s))
        ctx.saw("function", q)
        seen = set()
        for n, certain in hits:
            if n.id in seen:
                continue
            seen.add(n.id)
            ctx.bad("unbound", "%s/%s" % (q, n.id), "the local %s is %s when it is read" % (n.id, "never bound" if certain else "not bound on some path"),
                    f.loc(n))
        if not hits:
            ctx.ok("unbound", q)
    return dead


# ------------------------------------------------------------------ definitions of external names
class Ext:
    """Definitions of numpy and gmsh read from their sources, of the standard library from the running interpreter."""

    def __init__(self):
        self.gm = self.tree("gmsh.py")
        self.gnames = {}
        if self.gm is not None:
            self.index("gmsh", self.gm.body)
        np = self.tree("numpy/__init__.pyi")
        self.np = None
        if np is not None:
            s = set()
            for n in ast.walk(np):
                if isinstance(n, ast.alias):
                    s.add(n.asname or n.name)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, (ast.AnnAssign, ast.Assign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name):
                            s.add(t.id)
            self.np = s | {"core", "lib", "linalg", "random", "fft", "ma", "polynomial", "testing"}
        la = self.tree("numpy/linalg/__init__.pyi")
        self.la = None
        if la is not None:
            self.la = {n.asname or n.name for n in ast.walk(la) if isinstance(n, ast.alias)} | {"LinAlgError"}

    @staticmethod
    def tree(rel):
        for d in sorted(glob.glob("/opt/venv/lib/python3*/site-packages") + glob.glob("/usr/lib/python3/dist-packages")):
            try:
                with open(d + "/" + rel, encoding="utf8") as f:
                    return ast.parse(f.read())
            except (OSError, SyntaxError):
                continue
        return None

    def index(self, prefix, body):
        for n in body:
            if isinstance(n, ast.ClassDef):
                self.gnames[prefix + "." + n.name] = n
                self.index(prefix + "." + n.name, n.body)
            elif isinstance(n, ast.FunctionDef):
                self.gnames[prefix + "." + n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        v = n.value
                        if isinstance(v, ast.Name) and prefix + "." + v.id in self.gnames:
                            self.gnames[prefix + "." + t.id] = self.gnames[prefix + "." + v.id]
                        else:
                            self.gnames.setdefault(prefix + "." + t.id, n)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.gnames[prefix + "." + (a.asname or a.name.split(".")[0])] = n
            elif isinstance(n, (ast.If, ast.Try)):
                self.index(prefix, n.body + n.orelse)

    def missing(self, base, name):
        """True if the external object certainly has no such attribute."""
        if base == "gmsh" or base.startswith("gmsh."):
            if not self.gnames:
                return False
            b = self.gnames.get(base)
            if base == "gmsh" or isinstance(b, ast.ClassDef):
                return base + "." + name not in self.gnames and not (name.startswith("__"))
            return False
        if base == "numpy":
            return self.np is not None and name not in self.np and not name.startswith("__")
        if base == "numpy.linalg":
            return self.la is not None and name not in self.la and not name.startswith("__")
        if base in STDLIB:
            m = importlib.import_module(base)
            return not hasattr(m, name)
        return False

    def signature(self, name):
        n = self.gnames.get(name)
        return n if isinstance(n, ast.FunctionDef) else None


# ------------------------------------------------------------------ attributes
def stored_attrs(ctx):
    """(class, attribute) stored anywhere on an instance of the class; attributes stored on receivers of unknown type."""
    own, loose = {}, set()
    T = ctx.types
    for m in ctx.prog.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                cs = {a[1] for a in T.atoms(n.value) if a[0] in ("I", "C")}
                if not cs:
                    loose.add(n.attr)
                for c in cs:
                    own.setdefault(c, set()).add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    loose.add(n.args[1].value)
    # the first parameter of methods whose type was not inferred
    for f in ctx.prog.funcs.values():
        if f.cls is not None and isinstance(f.node, ast.FunctionDef) and f.pos_params() and not f.deco_is(ctx.prog, "builtins.staticmethod"):
            s = f.pos_params()[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == s:
                    own.setdefault(f.cls.qual, set()).add(n.attr)
    return own, loose


class Attrs:
    def __init__(self, ctx):
        self.ctx, self.T, self.prog = ctx, ctx.types, ctx.prog
        self.own, self.loose = stored_attrs(ctx)
        self.ext = Ext()
        self.fam = {}

    def family(self, c):
        if c.qual not in self.fam:
            fam = list(self.prog.mro(c)[0])
            for s in self.prog.subclasses(c):
                for k in self.prog.mro(s)[0]:
                    if k not in fam:
                        fam.append(k)
            self.fam[c.qual] = fam
        return self.fam[c.qual]

    def class_names(self, c, instance):
        """Names an instance (or the class) may have; None if not enumerable."""
        out = set(OBJ)
        for k in self.family(c) if instance else self.prog.mro(c)[0]:
            for b in k.node.body:
                self.body_names(b, out)
            if instance or True:
                out |= self.own.get(k.qual, set())
        ext = self.prog.mro(c)[1]
        for x in ext:
            if x in BUILTIN_BASE:
                out |= set(dir(BUILTIN_BASE[x]))
            elif x.split(".")[-1] in ("Enum", "IntEnum", "IntFlag", "Flag"):
                out |= {"name", "value", "_name_", "_value_", "__members__"} | set(dir(int))
            elif x in ("builtins.object", "object", "abc.ABC"):
                pass
            else:
                return None
        for k in self.prog.mro(c)[0]:
            if any(n in ("__getattr__", "__getattribute__", "__setattr__") for n in k.methods) or self.dynamic(k):
                return None
        if not instance:
            out |= set(dir(type))
            for d in c.node.decorator_list:
                return None if not instance and False else out
        return out

    def dynamic(self, k):
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                return True
        return any(isinstance(d, ast.Name) or isinstance(d, ast.Call) for d in k.node.decorator_list) and not any(
            "attr" in ast.unparse(d) or "dataclass" in ast.unparse(d) for d in k.node.decorator_list)

    def body_names(self, b, out):
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            out.add(b.name)
        elif isinstance(b, ast.Assign):
            for t in b.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        out.add(x.id)
        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
            out.add(b.target.id)
        elif isinstance(b, (ast.If, ast.Try)):
            for x in b.body + b.orelse:
                self.body_names(x, out)
        elif isinstance(b, (ast.Import, ast.ImportFrom)):
            for a in b.names:
                out.add(a.asname or a.name)

    def lacks(self, a, name):
        """True: certainly missing; False: present; None: unknown."""
        k = a[0]
        if k == "I":
            c = self.prog.classes[a[1]]
            s = self.class_names(c, True)
            if s is None:
                return None
            return name not in s and not (name in self.loose)
        if k == "C":
            c = self.prog.classes[a[1]]
            s = self.class_names(c, False)
            return None if s is None else name not in s
        if k == "SUP":
            c = self.prog.classes[a[1]]
            rest = self.prog.mro(c)[0][1:]
            out = set(OBJ)
            for r in rest:
                out |= set(r.methods) | set(r.class_attrs)
            for x in self.prog.mro(c)[1]:
                if x in BUILTIN_BASE:
                    out |= set(dir(BUILTIN_BASE[x]))
                else:
                    return None
            return name not in out
        if k == "M":
            g = module_globals(self.ctx, self.prog.mods[a[1]])
            return None if g is None else (name not in g and a[1] + "." + name not in self.prog.mods and not name.startswith("__"))
        if k == "X":
            return self.ext.missing(a[1], name) or None
        if k == "dc":
            return name not in dir(dict) if not (isinstance(a[1], tuple)) else (name not in dir(dict) + ["default_factory"])
        if k == "ls":
            return None
        if k == "st":
            return name not in dir(set)
        if k == "str":
            return name not in dir(str)
        if k == "tp":
            return name not in dir(tuple) + ["_fields", "_asdict", "_replace"]
        if k in ("F", "LAM"):
            return name not in dir(lambda: 0)
        return None


def parents_of(ctx):
    par = {}
    for m in ctx.prog.mods.values():
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                par[c] = n
    return par


def scope_name(ctx, par, fmap, m, n):
    x = par.get(n)
    while x is not None and x not in fmap:
        x = par.get(x)
    return fmap[x].qual if x in fmap else m.name


def guarded(par, n):
    """The access is protected by hasattr / try-except AttributeError."""
    x = n
    while x is not None:
        p = par.get(x)
        if isinstance(p, ast.Try) and x in p.body and any(h.type is None or "AttributeError" in ast.unparse(h.type) or "Exception" in ast.unparse(h.type)
                                                          for h in p.handlers):
            return True
        if isinstance(p, (ast.If, ast.IfExp)) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "callable")
                                                      for c in ast.walk(p.test)):
            return True
        if isinstance(p, ast.BoolOp) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "hasattr"
                                             for c in ast.walk(p)):
            return True
        x = p
    return False


def attributes(ctx, A, par, fmap, dead):
    ctx.rule("attribute", "every attribute read of an object whose definition is known is defined there")
    for mn, m in sorted(ctx.prog.mods.items()):
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, (ast.Load, ast.Del)) or n in dead:
                continue
            at = {a for a in ctx.types.atoms(n.value) if a not in (("None",),) and a[0] not in ("num", "?")}
            at = {a for a in at if a[0] not in ("nm",)} or at
            if not at:
                # self in a method never called
                continue
            v = [A.lacks(a, n.attr) for a in sorted(at, key=str)]
            sc = scope_name(ctx, par, fmap, m, n)
            cons = "%s/%s" % (sc, n.attr)
            if v and all(x is True for x in v) and not guarded(par, n):
                ctx.bad("attribute", cons, "%s has no attribute %s" % (kinds(ctx, at), n.attr), "%s:%s" % (m.path, n.lineno))
            elif any(x is False for x in v):
                ctx.ok("attribute", cons)


def kinds(ctx, at):
    out = set()
    for a in at:
        out.add({"I": "an instance of ", "C": "the class ", "M": "the module ", "X": ""}.get(a[0], "") +
                (ctx.prog.classes[a[1]].name if a[0] in ("I", "C") else str(a[1]) if a[0] in ("M", "X") else
                 {"dc": "a dictionary", "st": "a set", "str": "a text", "tp": "a tuple", "SUP": "the base class", "F": "a function", "LAM": "a function"}.get(a[0], a[0])))
    return ", ".join(sorted(out))


# ------------------------------------------------------------------ signatures
def bind(args, call, skip):
    """'' if the call can be bound to the signature, otherwise what is wrong; None when it cannot be decided."""
    pos = [x.arg for x in args.posonlyargs + args.args][skip:]
    ponly = {x.arg for x in args.posonlyargs}
    nd = len(args.defaults)
    need = set(pos[:len(pos) - nd] if nd <= len(pos) else [])
    kwn = {x.arg for x in args.kwonlyargs}
    need |= {x.arg for x, d in zip(args.kwonlyargs, args.kw_defaults) if d is None}
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    if npos > len(pos) and args.vararg is None:
        return "%d positional arguments for %d parameters" % (npos, len(pos))
    got = set(pos[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in pos and k.arg not in kwn or k.arg in ponly:
            if args.kwarg is None:
                return "no parameter %s" % k.arg
        elif k.arg in got and not star:
            return "parameter %s given twice" % k.arg
        got.add(k.arg)
    if not star and not dstar:
        miss = [x for x in pos + sorted(kwn) if x in need and x not in got]
        if miss:
            return "parameter %s is missing" % ", ".join(miss)
    return ""


def plain(f):
    """Decorators that keep the signature."""
    return all(ast.unparse(d) in ("staticmethod", "classmethod", "property") or ast.unparse(d).endswith(".setter") or "contextmanager" in ast.unparse(d)
               or "undoable" in ast.unparse(d) or "abstractmethod" in ast.unparse(d) or "lru_cache" in ast.unparse(d) for d in f.node.decorator_list)


def fields_sig(ctx, c):
    """Signature of an attrs / dataclass class as arguments object."""
    ds = [ast.unparse(d) for d in c.node.decorator_list]
    if not any("attr" in d or "dataclass" in d or d.startswith("define") for d in ds):
        return None
    ps, df = [], []
    for k in reversed(ctx.prog.mro(c)[0]):
        for b in k.node.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and "ClassVar" not in ast.unparse(b.annotation):
                if b.value is not None and "init=False" in ast.unparse(b.value).replace(" ", ""):
                    continue
                ps.append(b.target.id.lstrip("_"))
                has = b.value is not None and (not (isinstance(b.value, ast.Call) and ast.unparse(b.value.func).split(".")[-1] in ("ib", "field", "attrib"))
                                               or any(kw.arg in ("default", "factory", "default_factory") for kw in b.value.keywords))
                df.append(has)
    a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None)
    k = len(df)
    while k and df[k - 1]:
        k -= 1
    a.defaults = [ast.Constant(None)] * (len(df) - k)
    return a


def signatures(ctx, A, par, fmap, dead):
    ctx.rule("signature", "every call of an own function, constructor or gmsh function can be bound to its signature")
    ctx.rule("callable", "what is called is callable")
    prog, T = ctx.prog, ctx.types
    for mn, m in sorted(prog.mods.items()):
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call) or n in dead:
                continue
            verdicts, who = [], []
            odd = False
            for a in sorted(T.atoms(n.func), key=str):
                if a[0] in ("F", "B"):
                    f = prog.funcs[a[1]]
                    if not isinstance(f.node, ast.FunctionDef) or not plain(f):
                        odd = True
                        continue
                    skip = 0
                    if a[0] == "B":
                        skip = 0 if f.kind == "static" else 1
                    verdicts.append(bind(f.node.args, n, skip))
                    who.append(f.qual)
                elif a[0] == "LAM":
                    verdicts.append(bind(a[1].node.args, n, 0))
                    who.append("lambda")
                elif a[0] == "C":
                    c = prog.classes[a[1]]
                    init = prog.find_method(c, "__init__")
                    if init is not None:
                        verdicts.append(bind(init.node.args, n, 1))
                        who.append(init.qual)
                        continue
                    fs = fields_sig(ctx, c)
                    ext = [x for x in prog.mro(c)[1] if x.split(".")[-1] not in ("object", "ABC")]
                    if fs is not None:
                        verdicts.append(bind(fs, n, 0))
                        who.append(c.qual)
                    elif not ext and prog.find_method(c, "__new__") is None and not prog.mro(c)[0][0].node.keywords:
                        verdicts.append("the constructor takes no arguments" if n.args or n.keywords else "")
                        who.append(c.qual)
                    else:
                        odd = True
                elif a[0] == "I":
                    c = prog.classes[a[1]]
                    call = prog.find_method(c, "__call__")
                    if call is not None:
                        verdicts.append(bind(call.node.args, n, 1))
                        who.append(call.qual)
                    else:
                        verdicts.append("not callable")
                        who.append(c.qual)
                elif a[0] == "X":
                    g = A.ext.signature(a[1])
                    if g is not None:
                        verdicts.append(bind(g.args, n, 0))
                        who.append(a[1])
                    else:
                        odd = True
                elif a[0] in ("num", "None"):
                    continue
                else:
                    odd = True
            if not verdicts:
                continue
            sc = scope_name(ctx, par, fmap, m, n)
            cons = "%s/%s" % (sc, who[0].split("bgem.")[-1])
            ctx.saw("call", "%s:%s" % (sc, who[0]))
            if not odd and all(v for v in verdicts):
                rule = "callable" if verdicts[0] == "not callable" else "signature"
                ctx.bad(rule, cons, "%s: %s" % (who[0], verdicts[0]), "%s:%s" % (m.path, n.lineno))
            else:
                ctx.ok("signature", cons)


def unpacking(ctx, par, fmap, dead):
    ctx.rule("unpack", "a tuple is unpacked into as many names as it has elements")
    T = ctx.types
    for mn, m in sorted(ctx.prog.mods.items()):
        for n in ast.walk(m.tree):
            pairs = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    pairs.append((t, T.atoms(n.value)))
            elif isinstance(n, (ast.For, ast.comprehension)):
                pairs.append((n.target, T.elem(T.atoms(n.iter))))
            for t, at in pairs:
                if n in dead or not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in t.elts):
                    continue
                at = {a for a in at if a != ("None",)}
                if not at or any(a[0] != "tp" for a in at):
                    continue
                lens = set()
                for a in at:
                    ar = T.get(("arity", a[1]))
                    lens |= {x[1] for x in ar} if ar else {None}
                sc = scope_name(ctx, par, fmap, m, t)
                cons = "%s/%s" % (sc, ast.unparse(t))
                if None in lens or not lens:
                    continue
                ctx.check(len(t.elts) in lens, "unpack", cons, "a tuple of %s elements is unpacked into %d names" % (sorted(lens), len(t.elts)),
                          "%s:%s" % (m.path, t.lineno))


def formats(ctx, par, fmap, dead):
    ctx.rule("format", "format templates get the values they refer to")
    for mn, m in sorted(ctx.prog.mods.items()):
        for n in ast.walk(m.tree):
            if n in dead:
                continue
            sc = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) \
                    and isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                sc = scope_name(ctx, par, fmap, m, n)
                cons = "%s/%s" % (sc, n.func.value.value[:30].replace("\n", " "))
                try:
                    auto, need, kws = 0, 0, set()
                    todo = list(string.Formatter().parse(n.func.value.value))
                    while todo:
                        _, fld, spec, _ = todo.pop(0)
                        if fld is None:
                            continue
                        head = fld.split(".")[0].split("[")[0]
                        if head == "":
                            auto += 1
                        elif head.isdigit():
                            need = max(need, int(head) + 1)
                        else:
                            kws.add(head)
                        if spec:
                            todo = list(string.Formatter().parse(spec)) + todo
                    need = max(need, auto)
                except ValueError as e:
                    ctx.bad("format", cons, "the template is malformed (%s)" % e, "%s:%s" % (m.path, n.lineno))
                    continue
                miss = kws - {k.arg for k in n.keywords}
                ctx.check(need <= len(n.args) and not miss, "format", cons, "the template refers to %d values, %d are given%s" %
                          (need, len(n.args), "; missing " + ", ".join(sorted(miss)) if miss else ""), "%s:%s" % (m.path, n.lineno))


def raises(ctx, par, fmap, dead):
    ctx.rule("raise", "what is raised or caught is an exception")
    T = ctx.types
    for mn, m in sorted(ctx.prog.mods.items()):
        for n in ast.walk(m.tree):
            es = []
            if isinstance(n, ast.Raise) and n.exc is not None:
                es = [n.exc]
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                es = n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
            for e in es:
                sc = scope_name(ctx, par, fmap, m, n)
                cons = "%s/%s" % (sc, ast.unparse(e)[:30])
                bad = ""
                if isinstance(e, (ast.Constant, ast.JoinedStr)):
                    bad = "a text"
                t = e.func if isinstance(e, ast.Call) else e
                if isinstance(t, ast.Name) and t.id == "NotImplemented":
                    bad = "NotImplemented"
                for a in T.atoms(t):
                    if a[0] == "C":
                        ext = ctx.prog.mro(ctx.prog.classes[a[1]])[1]
                        if not any("Exception" in x or "Error" in x or "Warning" in x or x.split(".")[-1] in ("KeyboardInterrupt", "StopIteration")
                                   for x in ext):
                            if all(x in BUILTIN_BASE or x.split(".")[-1] == "object" for x in ext):
                                bad = "the class %s" % a[1]
                ctx.check(not bad, "raise", cons, "%s is not an exception" % bad, "%s:%s" % (m.path, n.lineno))


def run(ctx):
    dead = unbound(ctx)
    names(ctx, dead)
    imports(ctx)
    A = Attrs(ctx)
    par = parents_of(ctx)
    fmap = {f.node: f for f in ctx.prog.funcs.values()}
    attributes(ctx, A, par, fmap, dead)
    signatures(ctx, A, par, fmap, dead)
    unpacking(ctx, par, fmap, dead)
    formats(ctx, par, fmap, dead)
    raises(ctx, par, fmap, dead)
    if A.ext.np is None:
        ctx.notes.append("numpy stubs not found: numpy attributes not decided")
    if not A.ext.gnames:
        ctx.notes.append("gmsh.py not found: gmsh calls not decided")
    ctx.expect("function", 400)
    ctx.expect("call", 500)
