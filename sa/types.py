"""Whole program flow-insensitive type (points-to) inference.

Abstract values are sets of atoms:
 ('I', cls, site)  instance of own class (site only for subclasses of containers)
 ('C', cls) class object, ('F', qual) function, ('LAM', Func) lambda, ('B', qual, selfatom) bound method
 ('M', mod) module, ('X', name) external name, ('XI', name) external instance
 ('ls'|'st'|'dc'|'tp', site) builtin containers, ('np',), ('num',), ('str',), ('None',)
 ('G', qual, ctx) generator
"""
import ast
from .loader import walk_scope

NUM = ("num",)
STR = ("str",)
NONE = ("None",)
NP = ("np",)
UNK = ("?",)

LIST_METH = {"append", "extend", "insert", "remove", "pop", "clear", "index", "count", "sort", "reverse", "copy",
             "popleft", "appendleft"}
STREAM_METH = {"write", "writelines", "read", "readline", "readlines", "close", "flush"}
DICT_METH = {"get", "setdefault", "items", "keys", "values", "pop", "popitem", "update", "clear", "copy", "fromkeys"}
SET_METH = {"add", "discard", "remove", "pop", "clear", "union", "intersection", "difference", "update", "copy",
            "symmetric_difference", "issubset", "issuperset", "isdisjoint", "intersection_update",
            "difference_update", "symmetric_difference_update"}
CONT = ("ls", "st", "dc", "tp")


GENERIC = {"write", "writelines", "readline", "readlines", "flush", "shape", "T", "reshape", "append", "copy", "write", "read", "format", "items", "keys", "values", "dot", "id",
           "pop", "add", "remove", "size", "ndim", "name", "close", "flush", "dtype", "astype", "tolist", "index", "join",
           "split", "strip", "min", "max", "sum", "connected", "type", "dim"}

P = "bgem.polygons."
FIELD_SEEDS = [
    ("bgem.gmsh.heal_mesh.Element", "shape", "bgem.gmsh.heal_mesh." + c)
    for c in ("Tetrahedron", "Triangle", "Line", "Point")
] + [
    ("bgem.bspline.curve_point.CurvePoint", "surf", "bgem.bspline.bspline.Surface"),
    ("bgem.bspline.isec_curve_surf.IsecCurveSurf", "surf", "bgem.bspline.bspline.Surface"),
]

SEEDS = [
    ("bgem.bspline.brep_writer.curve_from_bs", "curve", "one", "bgem.bspline.bspline.Curve"),
    ("bgem.bspline.isec_curve_surf.IsecCurveSurf.get_intersections", "curv", "one", "bgem.bspline.bspline.Curve"),
    ("bgem.bspline.bspline_plot.Plotting.plot_curve_2d", "curve", "one", "bgem.bspline.bspline.Curve"),
    ("bgem.bspline.bspline_plot.Plotting.plot_surface_3d", "surface", "one", "bgem.bspline.bspline.Surface"),
    ("bgem.bspline.bspline_plot.Plotting.plot_grid_surface_3d", "surface", "one", "bgem.bspline.bspline.GridSurface"),
    ("bgem.bspline.isec_surf_surf.IsecSurfSurf.get_intersections", "surf1", "one", "bgem.bspline.bspline.Surface"),
    ("bgem.gmsh.field.restrict", "object_sets", "list", "bgem.gmsh.gmsh.ObjectSet"),
    ("bgem.bspline.isec_surf_surf.IsecSurfSurf._get_start_point", "point", "one", "bgem.bspline.isec_point.IsecPoint"),
    ("bgem.bspline.isec_surf_surf.IsecSurfSurf._free_point", "point", "one", "bgem.bspline.isec_point.IsecPoint"),
    (P + "polygons.PolygonDecomposition.delete_point", "point", "one", P + "point.Point"),
    (P + "polygons.PolygonDecomposition.delete_segment", "segment", "one", P + "segment.Segment"),
    (P + "polygons.PolygonDecomposition.move_points", "points", "list", P + "point.Point"),
    (P + "polygons.PolygonDecomposition.check_displacment", "points", "list", P + "point.Point"),
    (P + "polygons.PolygonDecomposition.set_attr", "obj", "one", P + "point.Point"),
    (P + "polygons.PolygonDecomposition.set_attr", "obj", "one", P + "segment.Segment"),
    (P + "polygons.PolygonDecomposition.set_attr", "obj", "one", P + "polygon.Polygon"),
    (P + "merge.intersect_decompositions", "decomps", "list", P + "polygons.PolygonDecomposition"),
    (P + "merge.intersect_single", "decomp", "one", P + "polygons.PolygonDecomposition"),
    (P + "merge.intersect_single", "other", "one", P + "polygons.PolygonDecomposition"),
    (P + "merge.deep_copy", "self", "one", P + "polygons.PolygonDecomposition"),
    (P + "plot_polygons.plot_polygon_decomposition", "decomp", "one", P + "polygons.PolygonDecomposition"),
]


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.var = {}
        self.deps = {}
        self.expr = {}       # ast node -> set of atoms (union over contexts)
        self.nodes = {}
        self.work = []
        self.inwork = set()
        self.cur = None
        self.by_attr = None
        self.site_nodes = {}
        self.callees = {}   # call node -> set of func quals
        self.solve()
        self.duck = {}
        self.explicit_seeds()
        for _ in range(5):
            if not self.duck_round():
                break

    # ------------------------------------------------------------ variables
    def get(self, key):
        if self.cur is not None:
            self.deps.setdefault(key, set()).add(self.cur)
        return self.var.get(key, frozenset())

    def add(self, key, atoms):
        if not atoms:
            return
        old = self.var.get(key, frozenset())
        new = old | frozenset(atoms)
        if len(new) > 40:
            return
        if new != old:
            self.var[key] = new
            for d in self.deps.get(key, ()):
                self.push(d)

    def push(self, item):
        if item not in self.inwork:
            self.inwork.add(item)
            self.work.append(item)

    # ------------------------------------------------------------ duck typing of untyped inputs
    def explicit_seeds(self):
        for owner, name, cls in FIELD_SEEDS:
            if owner in self.prog.classes and cls in self.prog.classes:
                self.add(("fld", owner, name), [("I", cls, 0)])
        for qual, name, kind, cls in SEEDS:
            f = self.prog.funcs.get(qual)
            if f is None or cls not in self.prog.classes:
                continue
            inst = [("I", cls, 0)]
            key = ("v", (qual, None), name)
            if kind == "one":
                self.add(key, inst)
            else:
                site = ("seed", qual, name)
                self.add(key, [("ls", site)])
                self.add(("el", site), inst)
        self.drain()

    def class_members(self):
        if not hasattr(self, "_members"):
            self._members = {}
            for c in self.prog.classes.values():
                own = set(c.methods) | set(c.setters) | set(c.class_attrs)
                self._members[c.qual] = own
            for k in self.var:
                if k[0] == "fld":
                    self._members.setdefault(k[1], set()).add(k[2])
        out = {}
        for c in self.prog.classes.values():
            m = set()
            for k in self.prog.mro(c)[0]:
                m |= self._members.get(k.qual, set())
            out[c.qual] = m
        return out

    def duck_round(self):
        if hasattr(self, "_members"):
            del self._members
        members = self.class_members()
        want = {}
        for f in self.prog.funcs.values():
            if f.is_lambda:
                continue
            params = set(f.all_params())
            for st in f.node.body:
                for n in walk_scope(st):
                    if not isinstance(n, ast.Attribute) or self.atoms(n.value):
                        continue
                    b = n.value
                    if isinstance(b, ast.Name) and b.id in params:
                        key = ("v", (f.qual, None), b.id)
                        if not self.var.get(key):
                            want.setdefault(key, set()).add(n.attr)
                    elif isinstance(b, ast.Attribute):
                        for c in self.inst_classes(b.value):
                            key = ("fld", c, b.attr)
                            if not self.var.get(key):
                                want.setdefault(key, set()).add(n.attr)
        changed = False
        for key, attrs in sorted(want.items(), key=repr):
            if not attrs - GENERIC:
                continue
            cands = [c for c, m in members.items() if attrs <= m]
            top = [c for c in cands
                   if not any(k.qual in cands for k in self.prog.mro(self.prog.classes[c])[0] if k.qual != c)]
            if 1 <= len(top) <= 3 and len(cands) <= 10:
                self.duck[key] = sorted(cands)
                self.add(key, [("I", c, 0) for c in cands])
                changed = True
        self.drain()
        return changed

    # ------------------------------------------------------------ driver
    def drain(self):
        n = 0
        while self.work:
            item = self.work.pop(0)
            self.inwork.discard(item)
            n += 1
            if n > 60000:
                break
            self.cur = item
            if item[0] == "mod":
                self.run_module(self.prog.mods[item[1]])
            else:
                self.run_func(item[1], item[2])
        self.cur = None

    def solve(self):
        for m in self.prog.mods.values():
            self.push(("mod", m.name))
        for f in self.prog.funcs.values():
            if self.ctx_class(f) is None:
                self.push(("fn", f.qual, None))
        n = 0
        while self.work:
            item = self.work.pop(0)
            self.inwork.discard(item)
            n += 1
            if n > 60000:
                break
            self.cur = item
            if item[0] == "mod":
                self.run_module(self.prog.mods[item[1]])
            else:
                self.run_func(item[1], item[2])
        self.cur = None
        self.steps = n

    def ctx_class(self, f):
        """Class whose methods are analysed per allocation site (container subclasses)."""
        if f.cls is not None and self.is_container_cls(f.cls) and f.kind in ("method", "property"):
            return f.cls
        return None

    def is_container_cls(self, cls):
        return any(b in ("builtins.dict", "builtins.list", "builtins.set", "collections.OrderedDict",
                         "collections.UserDict")
                   for b in self.prog.ext_bases(cls))

    def run_module(self, m):
        fr = Frame(self, None, None, m)
        fr.block(m.tree.body)
        for c in self.prog.classes.values():
            if c.mod is m:
                for st in c.node.body:
                    if isinstance(st, ast.Assign):
                        v = fr.ev(st.value)
                        for t in st.targets:
                            if isinstance(t, ast.Name):
                                self.add(("fld", c.qual, t.id), v)
                    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                        a = self.annotation(m, st.annotation)
                        more = [("I", s.qual, 0) for x in a if x[0] == "I"
                                for s in self.prog.subclasses(self.prog.classes[x[1]])]
                        self.add(("fld", c.qual, st.target.id), list(a) + more)

    def run_func(self, qual, ctx):
        f = self.prog.funcs[qual] if isinstance(qual, str) else qual
        fr = Frame(self, f, ctx, f.mod)
        if f.cls is not None and f.parent is None and f.kind in ("method", "property", "setter"):
            ps = f.pos_params()
            if ps:
                self.add(fr.vkey(ps[0]), [("I", f.cls.qual, ctx if ctx is not None else 0)])
        if f.cls is not None and f.kind == "class":
            self.add(fr.vkey(f.pos_params()[0]), [("C", f.cls.qual)])
        for p, d in f.defaults().items():
            self.add(fr.vkey(p), Frame(self, f.parent, None, f.mod).ev(d))
        a = f.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                self.add(fr.vkey(x.arg), self.annotation(f.mod, x.annotation))
        if a.vararg:
            self.add(fr.vkey(a.vararg.arg), [("tp", id(a.vararg))])
            self.site_nodes[id(a.vararg)] = a.vararg
        if a.kwarg:
            self.add(fr.vkey(a.kwarg.arg), [("dc", id(a.kwarg))])
            self.site_nodes[id(a.kwarg)] = a.kwarg
        if f.is_lambda:
            self.add(("ret", fr.fkey), fr.ev(f.node.body))
        else:
            fr.block(f.node.body)
        if f.is_gen:
            pass

    def annotation(self, mod, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return []
        if isinstance(ann, (ast.Name, ast.Attribute)):
            e = self.prog.resolve_expr(mod, ann)
            if e is None:
                return []
            if e[0] == "class":
                return [("I", e[1].qual, 0)]
            if e[0] == "ext":
                n = e[1]
                if n in ("builtins.int", "builtins.float", "builtins.bool"):
                    return [NUM]
                if n == "builtins.str":
                    return [STR]
                if n in ("numpy.array", "numpy.ndarray"):
                    return [NP]
                if n in ("builtins.list", "typing.List"):
                    return [("ls", id(ann))]
                if n in ("builtins.dict", "typing.Dict"):
                    return [("dc", id(ann))]
            return []
        if isinstance(ann, ast.Subscript):
            e = self.prog.resolve_expr(mod, ann.value)
            n = e[1] if e is not None and e[0] == "ext" else ""
            tail = n.split(".")[-1]
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if tail in ("List", "list", "Sequence", "Iterable", "Set", "set"):
                self.add(("el", id(ann)), self.annotation(mod, args[0]))
                return [("st" if tail.lower() == "set" else "ls", id(ann))]
            if tail in ("Dict", "dict") and len(args) == 2:
                self.add(("key", id(ann)), self.annotation(mod, args[0]))
                self.add(("el", id(ann)), self.annotation(mod, args[1]))
                return [("dc", id(ann))]
            if tail in ("Tuple", "tuple"):
                for i, x in enumerate(args):
                    self.add(("ix", id(ann), i), self.annotation(mod, x))
                    self.add(("el", id(ann)), self.annotation(mod, x))
                return [("tp", id(ann))]
            if tail == "Optional":
                return list(self.annotation(mod, args[0])) + [NONE]
            if tail == "Union":
                out = []
                for x in args:
                    out += self.annotation(mod, x)
                return out
        return []

    # ------------------------------------------------------------ class fields
    def field(self, clsqual, name):
        """All atoms a field may hold."""
        out = set()
        c = self.prog.classes[clsqual]
        fam = list(self.prog.mro(c)[0])
        for s in self.prog.subclasses(c):
            for k in self.prog.mro(s)[0]:
                if k not in fam:
                    fam.append(k)
        for k in fam:
            out |= self.get(("fld", k.qual, name))
        return out

    def has_attr(self, clsqual, name):
        """Is there any definition of the attribute in the class hierarchy (methods, class attrs, fields)."""
        c = self.prog.classes[clsqual]
        for k in self.prog.mro(c)[0]:
            if name in k.methods or name in k.setters or name in k.class_attrs or ("fld", k.qual, name) in self.var \
                    or (k.qual, name) in self.field_sites():
                return True
        return False

    def field_sites(self):
        """(cls qual, attr) -> assignment nodes; attributes written on typed receivers anywhere."""
        return getattr(self, "_fsites", {})

    def candidates_by_attr(self, name):
        """Own classes having the attribute/method of given name (duck typing fallback)."""
        if self.by_attr is None:
            self.by_attr = {}
            for c in self.prog.classes.values():
                for n in c.methods:
                    self.by_attr.setdefault(n, set()).add(c.qual)
            for k in list(self.var):
                if k[0] == "fld":
                    self.by_attr.setdefault(k[2], set()).add(k[1])
        return self.by_attr.get(name, set())

    def param_atoms(self, f, name):
        """Values that reach a parameter from the calls in the package, annotations and defaults."""
        if not hasattr(self, "_pidx"):
            self._pidx = {}
            for k, v in self.var.items():
                if k[0] == "v" and isinstance(k[1], tuple) and isinstance(k[1][0], str):
                    self._pidx.setdefault((k[1][0], k[2]), set()).update(v)
        return frozenset(self._pidx.get((f.qual, name), ()))

    def atoms(self, node):
        return self.expr.get(node, frozenset())

    def inst_classes(self, node):
        return {a[1] for a in self.atoms(node) if a[0] == "I"}

    # element helpers ----------------------------------------------------
    def elem(self, atoms):
        out = set()
        for a in atoms:
            if a[0] in ("ls", "st", "tp"):
                out |= self.get(("el", a[1]))
            elif a[0] == "dc":
                out |= self.get(("key", a[1]))
            elif a[0] == "I":
                c = self.prog.classes[a[1]]
                if self.is_container_cls(c):
                    out |= self.get(("key" if "builtins.dict" in self.prog.ext_bases(c) else "el", ("cs", a[2])))
            elif a[0] == "G":
                out |= self.get(("yld", (a[1], a[2])))
            elif a == NP:
                out |= {NP, NUM}
            elif a == STR:
                out.add(STR)
            elif a == ("file",):
                out.add(STR)
        return out

    def value_elem(self, atoms):
        out = set()
        for a in atoms:
            if a[0] == "dc":
                out |= self.get(("el", a[1]))
            elif a[0] == "I":
                c = self.prog.classes[a[1]]
                if self.is_container_cls(c):
                    out |= self.get(("el", ("cs", a[2])))
        return out

    def item(self, atoms, idx_node):
        out = set()
        for a in atoms:
            if a[0] == "tp":
                v = None
                if isinstance(idx_node, ast.Constant) and isinstance(idx_node.value, int):
                    v = idx_node.value
                if v is not None and ("ix", a[1], v) in self.var:
                    out |= self.get(("ix", a[1], v))
                else:
                    out |= self.get(("el", a[1]))
            elif a[0] in ("ls",):
                out |= self.get(("el", a[1]))
            elif a[0] == "dc":
                out |= self.get(("el", a[1]))
            elif a[0] == "I":
                c = self.prog.classes[a[1]]
                if self.is_container_cls(c):
                    out |= self.get(("el", ("cs", a[2])))
                else:
                    gi = self.prog.find_method(c, "__getitem__")
                    if gi is not None:
                        out |= self.get(("ret", (gi.qual, None)))
            elif a == NP:
                out |= {NP, NUM}
            elif a == STR:
                out.add(STR)
        return out


class Frame:
    """Abstract evaluation of one function body (flow-insensitive)."""

    def __init__(self, T, func, ctx, mod):
        self.T = T
        self.prog = T.prog
        self.func = func
        self.ctx = ctx
        self.mod = mod
        self.fkey = ((func.qual if not func.is_lambda else func), ctx) if func is not None else ("<module>", mod.name)
        self.scope = {}
        if func is not None:
            if not hasattr(func, "_locals"):
                func._locals = local_names(func)
            self.locals = func._locals
        else:
            self.locals = set()
        self.imports = {}
        if func is not None and not func.is_lambda:
            if not hasattr(func, "_imports"):
                im = {}
                for st in func.node.body:
                    for n in walk_scope(st):
                        if isinstance(n, (ast.Import, ast.ImportFrom)):
                            im.update(T.prog.import_bindings(mod, n))
                func._imports = im
            self.imports = func._imports

    def vkey(self, name):
        return ("v", self.fkey, name)

    # ---------------------------------------------------------------- names
    def name_key(self, name):
        """Key of the variable or None for global entities."""
        if self.func is None:
            return ("glob", self.mod.name, name)
        f, ctx = self.func, self.ctx
        if name in f._locals:
            return ("v", self.fkey, name)
        p = f.parent
        while p is not None:
            if not hasattr(p, "_locals"):
                p._locals = local_names(p)
            if name in p._locals:
                pctx = None
                return ("v", ((p.qual if not p.is_lambda else p), pctx), name)
            p = p.parent
        return ("glob", self.mod.name, name)

    def read_name(self, name):
        if name in self.imports and name in self.locals:
            return self.entity(self.imports[name])
        k = self.name_key(name)
        if k[0] == "v":
            out = set(self.T.get(k))
            f = self.func
            while f is not None:
                if name in f.nested:
                    out.add(("F", f.nested[name].qual))
                f = f.parent
            return out
        e = self.prog.lookup(self.mod, name)
        out = set(self.T.get(k))
        if e is not None:
            out |= self.entity(e)
        return out

    def entity(self, e):
        if e[0] == "from":
            e2 = self.prog.lookup_in(e[1], e[2])
            return self.entity(e2) if e2 is not None else set()
        if e[0] == "func":
            return {("F", e[1].qual)}
        if e[0] == "class":
            return {("C", e[1].qual)}
        if e[0] == "mod":
            return {("M", e[1].name)}
        if e[0] == "ext":
            if e[1] in ("builtins.True", "builtins.False"):
                return {NUM}
            return {("X", e[1])}
        if e[0] == "const":
            return set(self.T.get(("glob", e[1].name, e[2])))
        return set()

    # ---------------------------------------------------------------- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        T = self.T
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v, st.value)
        elif isinstance(st, ast.AnnAssign):
            v = self.ev(st.value) if st.value is not None else set()
            v = set(v) | set(T.annotation(self.mod, st.annotation))
            self.assign(st.target, v, st.value)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value)
            self.ev_target(st.target)
            cur = self.ev_read(st.target)
            out = self.binop_result(cur, v, st.op, st)
            self.assign(st.target, out, None)
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Return):
            v = self.ev(st.value) if st.value is not None else {NONE}
            T.add(("ret", self.fkey), v)
        elif isinstance(st, ast.For):
            it = self.ev(st.iter)
            self.assign_elem(st.target, it, st.iter)
            self.block(st.body)
            self.block(st.orelse)
        elif isinstance(st, (ast.While, ast.If)):
            self.ev(st.test)
            self.block(st.body)
            self.block(st.orelse)
        elif isinstance(st, ast.With):
            for w in st.items:
                v = self.ev(w.context_expr)
                out = set()
                for a in v:
                    if a[0] == "I":
                        m = self.prog.find_method(self.prog.classes[a[1]], "__enter__")
                        if m is not None:
                            out |= self.call_func(m, a, [], {}, w.context_expr, [])
                        x = self.prog.find_method(self.prog.classes[a[1]], "__exit__")
                        if x is not None:
                            self.call_func(x, a, [set(), set(), set()], {}, w.context_expr, [])
                    elif a[0] == "G":
                        out |= T.get(("yld", (a[1], a[2])))
                    elif a == ("file",):
                        out.add(a)
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, out, None)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            self.block(st.body)
            for h in st.handlers:
                if h.type is not None:
                    self.ev(h.type)
                if h.name:
                    T.add(self.name_key(h.name), {("XI", "Exception")})
                self.block(h.body)
            self.block(st.orelse)
            self.block(st.finalbody)
        elif isinstance(st, ast.Raise):
            if st.exc is not None:
                self.ev(st.exc)
        elif isinstance(st, ast.Assert):
            self.ev(st.test)
            if st.msg is not None:
                self.ev(st.msg)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                self.ev_target(t)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            for d in st.decorator_list:
                self.ev(d)
            if isinstance(st, ast.ClassDef):
                pass

    def ev_target(self, t):
        if isinstance(t, ast.Attribute):
            self.ev(t.value)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value)
            self.ev(t.slice)

    def ev_read(self, t):
        if isinstance(t, ast.Name):
            return self.read_name(t.id)
        if isinstance(t, ast.Attribute):
            return self.attr_atoms(self.ev(t.value), t.attr, t)
        if isinstance(t, ast.Subscript):
            return self.T.item(self.ev(t.value), t.slice)
        return set()

    def assign(self, t, v, src):
        T = self.T
        if isinstance(t, ast.Name):
            if self.func is None:
                T.add(("glob", self.mod.name, t.id), v)
            else:
                k = self.name_key(t.id)
                T.add(k, v)
            T.expr[t] = T.expr.get(t, frozenset()) | frozenset(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            T.add(("el", id(t)), v)
            self.assign(t.value, {("ls", id(t))}, None)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            for a in base:
                if a[0] == "I":
                    T.add(("fld", a[1], t.attr), v)
                    fs = T.__dict__.setdefault("_fsites", {})
                    if (a[1], t.attr) not in fs:
                        fs[(a[1], t.attr)] = set()
                    fs[(a[1], t.attr)].add(t)
                    s = self.prog.find_setter(self.prog.classes[a[1]], t.attr)
                    if s is not None:
                        self.call_func(s, a, [v], {}, t, [])
                elif a[0] == "C":
                    T.add(("fld", a[1], t.attr), v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.ev(t.slice)
            for a in base:
                if a[0] == "ls":
                    T.add(("el", a[1]), v)
                elif a[0] == "dc":
                    T.add(("el", a[1]), v)
                    T.add(("key", a[1]), idx)
                elif a[0] == "I" and T.is_container_cls(self.prog.classes[a[1]]):
                    T.add(("el", ("cs", a[2])), v)
                    T.add(("key", ("cs", a[2])), idx)

    def unpack(self, elts, v):
        T = self.T
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        for i, e in enumerate(elts):
            out = set()
            for a in v:
                if a[0] == "tp" and star is None and ("ix", a[1], i) in T.var:
                    out |= T.get(("ix", a[1], i))
                elif a[0] == "tp" and star is None and T.var.get(("arity", a[1])):
                    T.get(("ix", a[1], i))
                else:
                    if a[0] == "tp":
                        T.get(("ix", a[1], i))
                    out |= T.elem([a])
            self.assign(e, out, None)

    def assign_elem(self, target, it_atoms, it_node):
        self.assign(target, self.T.elem(it_atoms), None)

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        out = self._ev(e)
        if out:
            old = self.T.expr.get(e, frozenset())
            if not old >= frozenset(out):
                self.T.expr[e] = old | frozenset(out)
        elif e not in self.T.expr:
            self.T.expr[e] = frozenset()
        return out

    def site(self, e, kind):
        if self.ctx is not None:
            s = (id(e), self.ctx)
        else:
            s = id(e)
        self.T.site_nodes[s] = e
        return (kind, s)

    def _ev(self, e):
        T = self.T
        if e is None:
            return set()
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None:
                return {NONE}
            if isinstance(v, (bool, int, float, complex)):
                return {NUM}
            if isinstance(v, str):
                return {STR}
            return set()
        if isinstance(e, ast.Name):
            return self.read_name(e.id)
        if isinstance(e, ast.Attribute):
            return self.attr_atoms(self.ev(e.value), e.attr, e)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            sl = self.ev(e.slice)
            for a in b:
                if a[0] == "dc" and sl and any(isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], tuple) and x[1][:1] == ("dd",)
                                               for x in T.get(("el", a[1]))):
                    T.add(("key", a[1]), sl)        # a default dictionary creates the missing key
            if isinstance(e.slice, ast.Slice):
                return {a for a in b if a[0] in ("ls", "tp", "np", "str")}
            return T.item(b, e.slice)
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x)
            return set()
        if isinstance(e, ast.Tuple):
            s = self.site(e, "tp")
            T.add(("arity", s[1]), {("n", len(e.elts))})
            for i, x in enumerate(e.elts):
                v = self.ev(x)
                if isinstance(x, ast.Starred):
                    v = T.elem(v)
                    T.add(("el", s[1]), v)
                else:
                    T.add(("ix", s[1], i), v)
                    T.add(("el", s[1]), v)
            return {s}
        if isinstance(e, (ast.List, ast.Set)):
            s = self.site(e, "ls" if isinstance(e, ast.List) else "st")
            for x in e.elts:
                v = self.ev(x)
                if isinstance(x, ast.Starred):
                    v = T.elem(v)
                T.add(("el", s[1]), v)
            return {s}
        if isinstance(e, ast.Dict):
            s = self.site(e, "dc")
            for k, x in zip(e.keys, e.values):
                if k is None:
                    v = self.ev(x)
                    T.add(("el", s[1]), T.value_elem(v))
                    T.add(("key", s[1]), T.elem(v))
                else:
                    T.add(("key", s[1]), self.ev(k))
                    T.add(("el", s[1]), self.ev(x))
            return {s}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            for g in e.generators:
                self.assign_elem(g.target, self.ev(g.iter), g.iter)
                for c in g.ifs:
                    self.ev(c)
            s = self.site(e, "st" if isinstance(e, ast.SetComp) else "ls")
            T.add(("el", s[1]), self.ev(e.elt))
            return {s}
        if isinstance(e, ast.DictComp):
            for g in e.generators:
                self.assign_elem(g.target, self.ev(g.iter), g.iter)
                for c in g.ifs:
                    self.ev(c)
            s = self.site(e, "dc")
            T.add(("key", s[1]), self.ev(e.key))
            T.add(("el", s[1]), self.ev(e.value))
            return {s}
        if isinstance(e, ast.BoolOp):
            out = set()
            for x in e.values:
                out |= self.ev(x)
            return out
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.Compare):
            l = self.ev(e.left)
            r = [self.ev(c) for c in e.comparators]
            if any(NP in x for x in [l] + r) and not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
                return {NUM, NP}
            return {NUM}
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if isinstance(e.op, ast.Not):
                return {NUM}
            return v
        if isinstance(e, ast.BinOp):
            l, r = self.ev(e.left), self.ev(e.right)
            return self.binop_result(l, r, e.op, e)
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value)
            return {STR}
        if isinstance(e, ast.Lambda):
            lf = self.prog.node_func.get(e)
            if lf is None:
                from .loader import Func
                lf = Func("%s.<lambda>@%d" % (self.mod.name, e.lineno), e, self.mod, None, self.func)
                self.prog.node_func[e] = lf
            if not hasattr(lf, "_locals"):
                lf._locals = local_names(lf)
            T.push(("fn", lf, None))
            return {("LAM", lf)}
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Yield):
            v = self.ev(e.value) if e.value is not None else {NONE}
            T.add(("yld", self.fkey), v)
            return set()
        if isinstance(e, ast.YieldFrom):
            v = self.ev(e.value)
            T.add(("yld", self.fkey), T.elem(v))
            return set()
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v, None)
            return v
        if isinstance(e, ast.Call):
            return self.call(e)
        return set()

    def binop_result(self, l, r, op, e):
        out = set()
        T = self.T
        if isinstance(op, ast.Mod) and STR in l:
            return {STR}
        for a in l | r:
            if a[0] in ("np", "num", "str"):
                out.add(a)
            elif a[0] in ("ls", "st", "tp"):
                if a[0] == "ls" or a[0] == "tp":
                    s = self.site(e, a[0])
                    T.add(("el", s[1]), T.elem([a]))
                    out.add(s)
                else:
                    out.add(a)
        if NP in out:
            out.discard(NUM)
        for a in l:
            if a[0] == "I":
                c = self.prog.classes[a[1]]
                m = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__",
                     ast.BitAnd: "__and__", ast.Div: "__truediv__"}.get(type(op))
                f = self.prog.find_method(c, m) if m else None
                if f is not None:
                    out |= self.call_func(f, a, [r], {}, e, [])
        return out

    # ---------------------------------------------------------------- attributes
    def attr_atoms(self, base, name, node):
        T, prog = self.T, self.prog
        out = set()
        for a in base:
            k = a[0]
            if k == "I":
                c = prog.classes[a[1]]
                m = prog.find_method(c, name)
                fams = []
                if m is not None:
                    fams.append(m)
                if self.is_self(node):
                    for s in prog.subclasses(c):
                        if name in s.methods and s.methods[name] not in fams:
                            fams.append(s.methods[name])
                for m in fams:
                    if m.kind == "property":
                        out |= self.call_func(m, a, [], {}, node, [])
                    elif m.kind == "static":
                        out.add(("F", m.qual))
                    else:
                        out.add(("B", m.qual, a))
                out |= T.field(a[1], name)
                for c2 in prog.mro(c)[0]:
                    if name in c2.class_attrs and isinstance(c2.class_attrs[name], ast.ClassDef):
                        q = c2.qual + "." + name
                        if q in prog.classes:
                            out.add(("C", q))
                if m is None and T.is_container_cls(c) and name in (DICT_METH | LIST_METH | SET_METH):
                    out.add(("cm", name, a))
            elif k == "C":
                c = prog.classes[a[1]]
                m = prog.find_method(c, name)
                if m is not None:
                    if m.kind == "class":
                        out.add(("B", m.qual, a))
                    else:
                        out.add(("F", m.qual))
                q = a[1] + "." + name
                if q in prog.classes:
                    out.add(("C", q))
                ca = prog.find_class_attr(c, name)
                if ca is not None and not isinstance(ca[1], ast.ClassDef):
                    out |= T.field(a[1], name)
                    if any(b == "enum.Enum" or b == "enum.IntEnum" for b in prog.ext_bases(c)):
                        out.add(("I", a[1], 0))
            elif k == "M":
                m = prog.mods[a[1]]
                e = prog.lookup_in(m, name)
                if e is not None:
                    out |= self.entity(e)
            elif k == "X":
                out.add(("X", a[1] + "." + name))
            elif k in CONT:
                out.add(("cm", name, a))
            elif k == "SUP":
                c = prog.classes[a[1]]
                for b in prog.mro(c)[0][1:]:
                    if name in b.methods:
                        out.add(("B", b.methods[name].qual, a[2]))
                        break
            elif k == "np":
                if name in ("T", "flat", "real", "imag"):
                    out.add(NP)
                elif name == "shape":
                    out.add(("shape",))
                elif name in ("size", "ndim"):
                    out.add(NUM)
                else:
                    out.add(("nm", name))
            elif k == "shape":
                pass
            elif k == "str":
                out.add(("sm", name))
            elif k == "file":
                out.add(("fm", name))
            elif k == "XI":
                out.add(("XI", a[1] + "." + name))
        return out

    def is_self(self, node):
        if not isinstance(node, ast.Attribute) or not isinstance(node.value, ast.Name):
            return False
        f = self.func
        if f is None or f.cls is None or f.is_lambda:
            return False
        ps = f.pos_params()
        return bool(ps) and ps[0] == node.value.id

    # ---------------------------------------------------------------- calls
    def call(self, e):
        T, prog = self.T, self.prog
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.func is not None and self.func.cls is not None:
            ps = self.func.pos_params()
            sa = [a for a in self.T.get(self.vkey(ps[0])) if a[0] == "I"] if ps else []
            if not sa:
                sa = [("I", self.func.cls.qual, self.ctx or 0)]
            return {("SUP", self.func.cls.qual, sa[0])}
        fa = self.ev(e.func)
        args, stars = [], []
        for x in e.args:
            if isinstance(x, ast.Starred):
                stars.append(T.elem(self.ev(x)))
            else:
                args.append(self.ev(x))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is not None:
                kw[k.arg] = v
        out = set()
        known = False
        for a in fa:
            known = True
            if a[0] == "F":
                f = prog.funcs[a[1]]
                out |= self.call_func(f, None, args, kw, e, stars)
            elif a[0] == "B":
                f = prog.funcs[a[1]]
                out |= self.call_func(f, a[2], args, kw, e, stars)
            elif a[0] == "LAM":
                lf = a[1]
                for p, v in zip(lf.pos_params(), args):
                    T.add(("v", (lf, None), p), v)
                T.push(("fn", lf, None)) if False else None
                out |= T.get(("ret", (lf, None)))
            elif a[0] == "C":
                out |= self.instantiate(prog.classes[a[1]], args, kw, e, stars)
            elif a[0] == "cm":
                out |= self.container_method(a[1], a[2], args, kw, e)
            elif a[0] == "X":
                out |= self.external(a[1], args, kw, e, stars)
            elif a[0] == "nm":
                n = a[1]
                if n == "tolist":
                    s = self.site(e, "ls")
                    T.add(("el", s[1]), {NUM, s})
                    out.add(s)
                elif n in ("sum", "min", "max", "mean", "dot", "any", "all", "item"):
                    out |= {NUM, NP}
                elif n in ("fill", "sort", "resize"):
                    out.add(NONE)
                else:
                    out.add(NP)
            elif a[0] == "sm":
                n = a[1]
                if n in ("split", "splitlines", "rsplit"):
                    s = self.site(e, "ls")
                    T.add(("el", s[1]), {STR})
                    out.add(s)
                elif n in ("find", "count", "startswith", "endswith", "index", "isdigit", "isnumeric", "isidentifier"):
                    out.add(NUM)
                elif n == "encode":
                    out.add(("XI", "bytes"))
                else:
                    out.add(STR)
            elif a[0] == "fm":
                n = a[1]
                if n in ("read", "readline"):
                    out.add(STR)
                elif n == "readlines":
                    s = self.site(e, "ls")
                    T.add(("el", s[1]), {STR})
                    out.add(s)
                else:
                    out.add(NONE)
            elif a[0] == "XI":
                out.add(("XI", a[1] + "()"))
            elif a[0] == "I":
                m = prog.find_method(prog.classes[a[1]], "__call__")
                if m is not None:
                    out |= self.call_func(m, a, args, kw, e, stars)
        return out

    def call_func(self, f, selfatom, args, kw, e, stars):
        T = self.T
        if any(d.split("(")[0].split(".")[-1] == "cached_property" for d in f.decos):
            pass
        ctx = None
        if T.ctx_class(f) is not None and selfatom is not None and selfatom[0] == "I":
            ctx = selfatom[2]
        T.callees.setdefault(e, set()).add(f.qual)
        fk = (f.qual, ctx)
        if ctx is not None and ("started", fk) not in T.var:
            T.var[("started", fk)] = frozenset([1])
            T.push(("fn", f.qual, ctx))
        ps = f.pos_params()
        bound = f.kind in ("method", "property", "setter", "class") and selfatom is not None
        if bound and ps:
            if selfatom[0] == "I" and f.kind != "class":
                # precise self for inherited methods
                T.add(("v", fk, ps[0]), {selfatom} if f.cls is None or selfatom[1] == f.cls.qual or T.ctx_class(f) is not None
                      else {("I", f.cls.qual, 0)})
            ps = ps[1:]
        for p, v in zip(ps, args):
            T.add(("v", fk, p), v)
        rest = args[len(ps):]
        if f.args.vararg is not None:
            s = id(f.args.vararg)
            for v in rest:
                T.add(("el", s), v)
            for v in stars:
                T.add(("el", s), v)
        if stars:
            for v in stars:
                for p in ps[len(args):]:
                    T.add(("v", fk, p), v)
        names = set(ps) | {x.arg for x in f.args.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                T.add(("v", fk, k), v)
            elif f.args.kwarg is not None:
                T.add(("el", id(f.args.kwarg)), v)
                T.add(("key", id(f.args.kwarg)), {STR})
        # decorators
        if f.deco_is(self.prog, "bgem.undo.undoable"):
            out = set()
            for y in T.get(("yld", fk)):
                if y[0] == "tp":
                    rest = [T.get(("ix", y[1], i)) for i in range(1, 6)]
                    rest = [r for r in rest if r]
                    if len(rest) == 1:
                        out |= rest[0]
                    else:
                        out.add(y)
                else:
                    out.add(NONE)
            return out
        if f.is_gen:
            return {("G", f.qual, ctx)}
        if f.node is not None and not f.is_lambda and f.node.returns is not None:
            r = set(T.annotation(f.mod, f.node.returns))
            return set(T.get(("ret", fk))) | r
        return set(T.get(("ret", fk)))

    def instantiate(self, c, args, kw, e, stars):
        T, prog = self.T, self.prog
        site = 0
        if T.is_container_cls(c):
            site = id(e)
            T.site_nodes[site] = e
        a = ("I", c.qual, site)
        if any(b in ("enum.Enum", "enum.IntEnum") for b in prog.ext_bases(c)):
            return {("I", c.qual, 0)}
        init = prog.find_method(c, "__init__")
        if init is not None:
            self.call_func(init, a, args, kw, e, stars)
        return {a}

    def container_method(self, name, a, args, kw, e):
        T = self.T
        kind = a[0]
        if kind == "I":
            sk = ("cs", a[2])
            isdict = "builtins.dict" in self.prog.ext_bases(self.prog.classes[a[1]])
            kind = "dc" if isdict else "ls"
        else:
            sk = a[1]
        el, key = ("el", sk), ("key", sk)
        if kind == "st" and name in ("append", "insert", "appendleft", "extend") or kind == "ls" and name == "add":
            return set()
        if kind in ("ls", "st", "tp"):
            if name in ("append", "add", "appendleft"):
                for v in args[:1]:
                    T.add(el, v)
                return {NONE}
            if name == "insert":
                for v in args[1:2]:
                    T.add(el, v)
                return {NONE}
            if name in ("extend", "update"):
                for v in args:
                    T.add(el, T.elem(v))
                return {NONE}
            if name in ("pop", "popleft"):
                return set(T.get(el))
            if name in ("copy", "union", "difference", "intersection", "symmetric_difference"):
                if name in ("union", "symmetric_difference"):
                    s = self.site(e, kind)
                    T.add(("el", s[1]), T.get(el))
                    for v in args:
                        T.add(("el", s[1]), T.elem(v))
                    return {s}
                s = self.site(e, kind)
                T.add(("el", s[1]), T.get(el))
                return {s}
            if name in ("index", "count", "issubset", "issuperset", "isdisjoint"):
                return {NUM}
            return {NONE}
        # dict
        if name == "get":
            out = set(T.get(el))
            if len(args) > 1:
                out |= args[1]
            else:
                out.add(NONE)
            return out
        if name == "pop":
            out = set(T.get(el))
            if len(args) > 1:
                out |= args[1]
            return out
        if name == "setdefault":
            if args:
                T.add(key, args[0])
            if len(args) > 1:
                T.add(el, args[1])
            return set(T.get(el))
        if name in ("values",):
            s = self.site(e, "ls")
            T.add(("el", s[1]), T.get(el))
            return {s}
        if name == "keys":
            s = self.site(e, "ls")
            T.add(("el", s[1]), T.get(key))
            return {s}
        if name in ("items", "popitem"):
            t = ("tp", ("it", sk))
            T.add(("ix", t[1], 0), T.get(key))
            T.add(("ix", t[1], 1), T.get(el))
            T.add(("el", t[1]), T.get(key) | T.get(el))
            if name == "popitem":
                return {t}
            s = self.site(e, "ls")
            T.add(("el", s[1]), {t})
            return {s}
        if name == "update":
            for v in args:
                T.add(el, T.value_elem(v))
                T.add(key, T.elem(v))
            return {NONE}
        if name == "copy":
            s = self.site(e, "dc")
            T.add(("el", s[1]), T.get(el))
            T.add(("key", s[1]), T.get(key))
            return {s}
        return {NONE}

    def external(self, name, args, kw, e, stars):
        T = self.T
        n = name
        if n.startswith("builtins."):
            b = n[9:]
            a0 = args[0] if args else (stars[0] if stars else set())
            if b in ("list", "sorted", "reversed", "filter"):
                src = args[1] if b == "filter" and len(args) > 1 else a0
                if b == "sorted" or b == "list" or b == "reversed":
                    src = a0
                s = self.site(e, "ls")
                T.add(("el", s[1]), T.elem(src))
                return {s}
            if b in ("set", "frozenset"):
                s = self.site(e, "st")
                T.add(("el", s[1]), T.elem(a0))
                return {s}
            if b == "tuple":
                s = self.site(e, "tp")
                T.add(("el", s[1]), T.elem(a0))
                return {s}
            if b == "dict":
                s = self.site(e, "dc")
                T.add(("el", s[1]), T.value_elem(a0))
                T.add(("key", s[1]), T.elem({x for x in a0 if x[0] == "dc"}))
                for x in T.elem({x for x in a0 if x[0] != "dc"}):
                    if x[0] == "tp":
                        T.add(("key", s[1]), T.get(("ix", x[1], 0)))
                        T.add(("el", s[1]), T.get(("ix", x[1], 1)))
                for k, v in kw.items():
                    T.add(("el", s[1]), v)
                return {s}
            if b == "zip" and stars and not args and all(x[0] == "tp" for v in stars for x in v):
                # transposition of pairs: one sequence for each position
                t = ("tp", ("zipstar", id(e)))
                for k in range(6):
                    for v in stars:
                        for x in v:
                            at = T.get(("ix", x[1], k))
                            if at or ("ix", x[1], k) in T.var:
                                c = ("tp", ("zipcol", id(e), k))
                                T.add(("el", c[1]), at)
                                T.add(("ix", t[1], k), {c})
                                T.add(("el", t[1]), {c})
                            elif not any(("ix", x[1], j) in T.var for j in range(6)):
                                c = ("tp", ("zipcol", id(e), k))
                                T.add(("el", c[1]), T.get(("el", x[1])))
                                T.add(("ix", t[1], k), {c})
                                T.add(("el", t[1]), {c})
                return {t}
            if b == "zip":
                t = ("tp", ("zip", id(e)))
                for i, v in enumerate(args):
                    T.add(("ix", t[1], i), T.elem(v))
                    T.add(("el", t[1]), T.elem(v))
                for v in stars:
                    T.add(("el", t[1]), T.elem(v))
                s = self.site(e, "ls")
                T.add(("el", s[1]), {t})
                return {s}
            if b == "enumerate":
                t = ("tp", ("enum", id(e)))
                T.add(("ix", t[1], 0), {NUM})
                T.add(("ix", t[1], 1), T.elem(a0))
                T.add(("el", t[1]), {NUM} | T.elem(a0))
                s = self.site(e, "ls")
                T.add(("el", s[1]), {t})
                return {s}
            if b == "map":
                out = set()
                for f in a0:
                    if f[0] == "F":
                        out |= self.call_func(self.prog.funcs[f[1]], None, [T.elem(v) for v in args[1:]], {}, e, [])
                    elif f[0] == "B":
                        out |= self.call_func(self.prog.funcs[f[1]], f[2], [T.elem(v) for v in args[1:]], {}, e, [])
                    elif f == ("X", "builtins.int") or f == ("X", "builtins.float"):
                        out.add(NUM)
                    elif f == ("X", "builtins.str"):
                        out.add(STR)
                    elif f[0] == "LAM":
                        for p, v in zip(f[1].pos_params(), args[1:]):
                            T.add(("v", (f[1], None), p), T.elem(v))
                        out |= T.get(("ret", (f[1], None)))
                s = self.site(e, "ls")
                T.add(("el", s[1]), out)
                return {s}
            if b == "range":
                s = self.site(e, "ls")
                T.add(("el", s[1]), {NUM})
                return {s}
            if b in ("min", "max"):
                if len(args) == 1:
                    return T.elem(a0)
                out = set()
                for v in args:
                    out |= v
                return out
            if b in ("len", "int", "float", "abs", "round", "sum", "bool", "isinstance", "id", "hash", "any", "all",
                     "complex", "issubclass", "hasattr", "callable"):
                if b in ("abs", "sum") and NP in (a0 | T.elem(a0)):
                    return {NP, NUM}
                if b == "sum" and len(args) > 1:
                    return args[1] | T.elem(a0)
                return {NUM}
            if b in ("str", "repr", "format"):
                return {STR}
            if b == "next":
                return T.elem(a0)
            if b == "iter":
                return a0
            if b == "open":
                return {("file",)}
            if b == "print":
                return {NONE}
            if b == "getattr":
                return set()
            if b == "type":
                return {("C", x[1]) for x in a0 if x[0] == "I"}
            return set()
        if n in ("copy.copy", "copy.deepcopy"):
            return set(args[0]) if args else set()
        if n == "collections.deque":
            s = self.site(e, "ls")
            if args:
                T.add(("el", s[1]), T.elem(args[0]))
            return {s}
        if n in ("collections.defaultdict", "collections.OrderedDict"):
            s = self.site(e, "dc")
            for f in (args[0] if args else ()):
                if f[0] == "X" and f[1] in ("builtins.list", "builtins.set", "builtins.dict"):
                    k = {"builtins.list": "ls", "builtins.set": "st", "builtins.dict": "dc"}[f[1]]
                    T.add(("el", s[1]), {(k, ("dd", id(e)))})
            return {s}
        if n.startswith("numpy.linalg.norm") or n in ("numpy.sum", "numpy.amin", "numpy.amax", "numpy.min", "numpy.max"):
            return {NUM, NP}
        if n.startswith("numpy."):
            if n in ("numpy.linalg.LinAlgError",):
                return {("XI", n)}
            if n in ("numpy.where", "numpy.nonzero", "numpy.meshgrid", "numpy.linalg.svd", "numpy.linalg.eig",
                     "numpy.unique", "numpy.linalg.eigh", "numpy.linalg.qr"):
                s = self.site(e, "tp")
                T.add(("el", s[1]), {NP})
                return {s, NP}
            return {NP}
        if n.startswith("math."):
            return {NUM}
        if n.startswith("itertools.") or n.startswith("functools."):
            out = set()
            s = self.site(e, "ls")
            for v in args:
                T.add(("el", s[1]), T.elem(v))
            if n.endswith("chain.from_iterable"):
                for v in args:
                    T.add(("el", s[1]), T.elem(T.elem(v)))
            if n.split(".")[-1] in ("product", "combinations", "permutations", "zip_longest"):
                t = ("tp", ("it", id(e)))
                for v in args:
                    T.add(("el", t[1]), T.elem(v))
                s2 = self.site(e, "ls")
                T.add(("el", s2[1]), {t})
                return {s2}
            return {s}
        return {("XI", n + "()")}


def local_names(f):
    """Names local to the function (params, assigned, imported, nested defs), excluding global/nonlocal."""
    out = set(f.all_params())
    outer = set()
    body = f.node.body if not f.is_lambda else [f.node.body]
    for st in body:
        for n in walk_scope(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                outer.update(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.MatchAs) and n.name:
                out.add(n.name)
    return out - outer
