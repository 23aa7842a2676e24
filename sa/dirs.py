"""
Direction analysis of tensor product splines: an abstract interpreter over the syntax trees of the package in which every value
carries the parametric direction (U or V) it belongs to: bases, knots, indices, counts, parameter values, array axes, pairs
ordered by direction, corners of the parametric square and edge vectors between them.

Unknown values are None; only operations on two values of known, contradicting directions are reported.
"""
import ast

U, V = "U", "V"
OTHER = {U: V, V: U}
CORNERS = ((0, 1), (0, 0), (1, 0), (1, 1))


class X:
    """Abstract value; k is its kind:
    K const(v) | S scalar(d, r) | B basis(d) | A array(axes, d tag, r) | T sequence(items) | C corner(c) | W vector(c) |
    SL slice(lo, hi) | CV curve(d) | FI flat index | ST strided index(d, s)"""
    __slots__ = ("k", "v", "d", "r", "axes", "items", "lo", "hi", "s", "mono", "wt", "diff", "order", "off", "sym")

    def __init__(self, k, **kw):
        self.k = k
        for n in self.__slots__[1:]:
            setattr(self, n, kw.pop(n, None))
        assert not kw, kw

    def but(self, **kw):
        y = X(self.k)
        for n in self.__slots__[1:]:
            setattr(y, n, kw[n] if n in kw else getattr(self, n))
        return y

    def __repr__(self):
        return self.k + "(" + ", ".join("%s=%s" % (n, getattr(self, n)) for n in self.__slots__[1:] if getattr(self, n) is not None) + ")"


def K(v):
    return X("K", v=v)


def S(d, r=None, **kw):
    return X("S", d=d, r=r, **kw)


def B(d):
    return X("B", d=d)


def A(axes, d=None, r=None, **kw):
    return X("A", axes=tuple(axes), d=d, r=r, **kw)


def P(r=None):
    return A(("P",), None, r)


def T(items):
    return X("T", items=list(items))


def quad():
    return T([corner(c) for c in CORNERS])


def corner(c):
    return X("C", v=tuple(c))


def vec(c):
    return X("W", v=tuple(c))


def vdir(w):
    a, b = w.v
    if a and not b:
        return U
    if b and not a:
        return V
    return None


def is_const(x, v=None):
    return x is not None and x.k == "K" and (v is None or x.v == v)


def is_int(x):
    return x is not None and x.k == "K" and isinstance(x.v, int) and not isinstance(x.v, bool)


def name_dir(name):
    """Direction and role of a parameter or attribute that carries the direction in its name."""
    parts = [p for p in name.strip("_").split("_") if p]
    if not parts:
        return None
    h, t = parts[0], parts[-1]
    for D, c in ((U, "u"), (V, "v")):
        if h in (c, "n" + c, "N" + c, "i" + c):
            if t == "basis":
                return B(D)
            if t == "knots":
                return A((D,), D, "par")
            if h in ("n" + c, "N" + c) and len(parts) == 1:
                return S(D, "n")
            if h == "i" + c and len(parts) == 1:
                return S(D, "idx")
            if h == c and len(parts) == 1:
                return S(D, "par", wt={D: 1})
    if name in ("uv", "uvt"):
        return P("par")
    if name in ("iuv", "iuvt"):
        return P("idx")
    if name == "nuv":
        return P("n")
    if name == "uv_points":
        return A(("*", "P"), None, "par")
    if name == "patch_id":
        return X("FI")
    return None


ATTRS = {
    "nuv": lambda: P("n"), "_uv_step": lambda: P("par"), "interface_flag": lambda: P("flag"), "boundary_flag": lambda: P("flag"),
    "_u_step": lambda: vec((1, 0)), "_v_step": lambda: vec((0, 1)), "quad": quad, "orig_quad": quad, "_orig_quad": quad,
    "grid_uvz": lambda: A((U, V, "*")), "_uv_quad_points": lambda: A(("*", "P"), None, "par"), "_xy_shift": None,
    "_mat_uv_to_xy": lambda: A(("*", "P")), "_mat_xy_to_uv": lambda: A(("P", "*")), "_degree": lambda: P("deg"),
}


class Dirs:
    MAXDEPTH = 3

    def __init__(self, ctx, report, classes):
        self.ctx, self.report, self.cl = ctx, report, classes
        self.orders = {}          # owner -> {order: [(loc, what)]}
        self.counts = {}
        self.stack = []

    # ------------------------------------------------------------------ reporting
    def bad(self, node, rule, what):
        self.report(self.fn, node, rule, what)

    def seen(self, rule):
        self.counts[rule] = self.counts.get(rule, 0) + 1

    def check_same(self, node, rule, d1, d2, what):
        """Two directions that must agree."""
        if d1 in (U, V) and d2 in (U, V):
            self.seen(rule)
            if d1 != d2:
                self.bad(node, rule, what)
                return False
        return True

    def order(self, node, o, what):
        if o and set(o) == {U, V}:
            f = self.fn
            owner = f.cls.qual if f.cls else f.qual
            self.orders.setdefault(owner, {}).setdefault(tuple(o), []).append((f, node, what))

    # ------------------------------------------------------------------ functions
    def params(self, f):
        env = {}
        cname = f.cls.name if f.cls else ""
        for p in f.all_params():
            v = name_dir(p)
            if cname == "Surface":
                if p == "basis":
                    v = T([B(U), B(V)])
                elif p == "degree":
                    v = P("deg")
                elif p == "knots":
                    v = T([A((U,), U, "par"), A((V,), V, "par")])
                elif p == "poles":
                    v = A((U, V, "*"))
            if f.name in ("_get_grid_corners", "_check_grid_regularity") and p in ("xy_points", "points_xy", "point_seq_xy"):
                v = A(("G", "*"))
            if f.name == "bilinear_surface" and p == "vtxs":
                v = T([corner(c) for c in ((0, 0), (1, 0), (1, 1), (0, 1))])
            if f.name == "plane_surface" and p == "vtxs":
                v = T([corner(c) for c in ((0, 0), (1, 0), (0, 1))])
            if v is not None:
                env[p] = v
        return env

    def run(self, f):
        """Analyse one function with the directions its parameters have by name."""
        variants = [{}]
        if "axis" in f.all_params():
            variants = [{"axis": K(0)}, {"axis": K(1)}]
        for extra in variants:
            env = self.params(f)
            env.update(extra)
            self.wrote_v = False
            self.call(f, env)

    def call(self, f, env):
        if len(self.stack) > self.MAXDEPTH or f in self.stack:
            return None
        save = getattr(self, "fn", None), getattr(self, "ret", None), getattr(self, "nest", None)
        self.stack.append(f)
        self.fn, self.ret, self.nest = f, [], []
        try:
            self.block(f.node.body, env)
            out = None
            for i, r in enumerate(self.ret):
                out = r if i == 0 else self.join(out, r)
            if f.name == "patch_id2pos":
                for r in self.ret:
                    self.compat(f.node, "pair order", P("idx"), r, "the returned position")
            return out
        finally:
            self.stack.pop()
            self.fn, self.ret, self.nest = save

    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            if not self.stmt(s, env):
                return False
        return True

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            a = self.ev(s.target, env)
            b = self.ev(s.value, env)
            if isinstance(s.target, ast.Name) and is_const(b, 1) and isinstance(s.op, ast.Add):
                nest = self.nest[-2:]
                if set(nest) == {U, V} and self.fn.cls is not None and self.fn.cls.name == "Surface":
                    self.order(s, tuple(nest), "counter of the loops")
            v = self.binop(s, s.op, a, b)
            if isinstance(s.target, ast.Name):
                env[s.target.id] = v
            elif isinstance(s.target, ast.Subscript) and isinstance(s.target.value, ast.Name):
                base = env.get(s.target.value.id)
                if base is not None and base.k == "A" and b is not None and b.k == "A":
                    self.refine(s.target, base, self.ev(s.target.slice, env), b, env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            self.ret.append(self.ev(s.value, env) if s.value is not None else K(None))
            return False
        elif isinstance(s, ast.If):
            c = self.ev(s.test, env)
            if is_const(c):
                return self.block(s.body if c.v else s.orelse, env)
            e1, e2 = self.fork(env), self.fork(env)
            a = self.block(s.body, e1)
            b = self.block(s.orelse, e2)
            if a and b:
                self.merge(env, e1, e2)
            elif a or b:
                env.clear()
                env.update(e1 if a else e2)
            return a or b
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            items = None
            if self.fn.name == "_brep_output" and it is not None and it.k == "A" and it.r == "par" and it.axes[0] in (U, V) and len(self.stack) == 1:
                self.seen("pair order")
                if it.axes[0] == U and self.wrote_v:
                    self.bad(s, "pair order", "the knots of direction V are written before those of direction U")
                self.wrote_v = self.wrote_v or it.axes[0] == V
            if it is not None and it.k == "T" and len(it.items) <= 4:
                items = it.items
            if items is not None:
                for x in items:
                    self.assign(s.target, x, env, s)
                    self.nest.append(None)
                    e = self.fork(env)
                    ok = self.block(s.body, e)
                    self.nest.pop()
                    if ok:
                        env.clear()
                        env.update(e)
            else:
                e = self.fork(env)
                x = self.element(it)
                self.assign(s.target, x, e, s)
                self.nest.append(x.d if x is not None and x.k == "S" and x.r == "idx" else None)
                ok = self.block(s.body, e)
                self.nest.pop()
                if ok:
                    self.merge(env, env, e)
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            self.ev(s.test, env)
            e = self.fork(env)
            if self.block(s.body, e):
                self.merge(env, env, e)
            self.block(s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, None, env, s)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            ok = self.block(s.body, env)
            for h in s.handlers:
                self.block(h.body, self.fork(env))
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
            return ok
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif isinstance(s, ast.Raise):
            return False
        elif isinstance(s, (ast.Continue, ast.Break)):
            return False
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            env[s.name] = None
        return True

    @staticmethod
    def fork(env):
        memo = {}

        def cp(v):
            if v is None or v.k != "T":
                return v
            if id(v) not in memo:
                memo[id(v)] = y = T([])
                y.items = [cp(x) for x in v.items]
                y.sym = v.sym
            return memo[id(v)]
        return {k: cp(v) for k, v in env.items()}

    def merge(self, env, a, b):
        out = {k: self.join(a[k], b[k]) if k in a and k in b else a[k] if k in a else b[k] for k in set(a) | set(b)}
        env.clear()
        env.update(out)

    def join(self, a, b):
        if a is b:
            return a
        if a is None or b is None:
            return None
        if a.k == "K" and b.k == "K":
            return a if a.v == b.v and type(a.v) is type(b.v) else None
        if a.k == "K" and b.k in ("S", "FI"):
            return b
        if b.k == "K" and a.k in ("S", "FI"):
            return a
        for x, y in ((a, b), (b, a)):
            if x.k == "T" and not x.items and y.k == "A":
                return y
            if x.k == y.k == "A" and len(x.axes) == len(y.axes) == 1 and x.r == "const":
                return y
            if x.k == "T" and y.k == "A" and y.axes == ("P",) and len(x.items) >= 2 and [self.dir_of(i) for i in x.items[:2]] == [U, V]:
                return y
        if a.k != b.k:
            return None
        if a.k == "T":
            return T([self.join(x, y) for x, y in zip(a.items, b.items)]) if len(a.items) == len(b.items) else None
        if a.k == "A":
            if len(a.axes) != len(b.axes):
                return None
            return A([x if x == y else "*" for x, y in zip(a.axes, b.axes)], a.d if a.d == b.d else None, a.r if a.r == b.r else None,
                     diff=a.diff if a.diff == b.diff else None)
        if all(getattr(a, n) == getattr(b, n) for n in X.__slots__[1:]):
            return a
        if a.k == "S" and a.d == b.d:
            return S(a.d, a.r if a.r == b.r else None)
        return None

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, None, env, node)
                else:
                    self.assign(x, self.part(v, i, len(t.elts)), env, node)
        elif isinstance(t, ast.Attribute):
            exp = self.attr_seed(t)
            if exp is not None:
                self.compat(node, "attribute", exp, v, "the attribute %s" % t.attr)
                if t.attr == "shape":
                    self.unify(exp, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            idx = self.ev(t.slice, env)
            if base is not None and base.k == "T" and is_int(idx) and -len(base.items) <= idx.v < len(base.items):
                base.items[idx.v] = v
                return
            exp = self.subscript(t, base, idx)
            if exp is not None and v is not None:
                if exp.k == "A" and v.k == "A" and exp.axes:
                    self.broadcast(node, exp, v)
                elif exp.k == "S" and v.k == "S" and exp.r in ("idx", "par", "n") and v.r in ("idx", "par", "n"):
                    self.check_same(node, "element", exp.d, v.d, "an element of direction %s is set from direction %s" % (exp.d, v.d))
            if base is not None and base.k == "Z":
                base.items.append((idx, v))
            if isinstance(t.value, ast.Name) and base is not None and base.k == "A" and v is not None and v.k == "A":
                self.refine(t, base, idx, v, env)

    @staticmethod
    def refine(t, base, idx, v, env):
        """Axes of a new array become known by what is stored along them."""
        ix = idx.items if idx is not None and idx.k == "T" else [idx]
        ix = ix + [X("SL", v=True)] * (len(base.axes) - len(ix))
        kept = [k for k, i in enumerate(ix) if i is not None and i.k == "SL" and i.v]
        if len(kept) == len(v.axes) and sum(1 for i in ix if i is not None and i.k == "SL") == len(kept):
            ax = list(base.axes)
            for k, a in zip(kept, v.axes):
                if ax[k] == "*" and a in (U, V):
                    ax[k] = a
            if tuple(ax) != base.axes:
                base.axes = tuple(ax)      # the array is filled in place

    def part(self, v, i, n):
        if v is None:
            return None
        if v.k == "T":
            return v.items[i] if i < len(v.items) else None
        if v.k == "A":
            return self.index1(None, v, K(i))
        return None

    def unify(self, exp, v):
        """The grid shape gives its components their directions."""
        if v is not None and v.k == "T" and len(v.items) == 2:
            for x, d in zip(v.items, (U, V)):
                if x is not None and x.k == "S" and x.d is None:
                    x.d, x.r = d, "n"

    # ------------------------------------------------------------------ seeds
    def attr_seed(self, node):
        name = node.attr
        cls = self.ctx.types.inst_classes(node.value)
        names = {self.ctx.prog.classes[c].name for c in cls} if cls else set()
        if names and names <= {"Surface"}:
            if name == "basis":
                return T([B(U), B(V)])
            if name in ("poles", "_poles"):
                return A((U, V, "*"))
            if name == "_weights":
                return A((U, V))
            if name == "knots":
                return T([A((U, "*"), U, "par"), A((V, "*"), V, "par")])
            if name == "degree":
                return P("deg")
        if name == "shape" and names == {"GridSurface"}:
            return P("n")
        if name == "iuv" and names == {"SurfacePoint"}:
            return A(("*", "P"), None, "idx")
        if name == "_xy_shift":
            return corner((0, 0))
        if ATTRS.get(name):
            return ATTRS[name]()
        if name in ("uv", "u_basis", "v_basis", "_u_basis", "_v_basis", "Nu", "Nv"):
            return name_dir(name)
        return None

    def compat(self, node, rule, exp, v, what):
        """A value of known direction that is used where another direction is expected."""
        if exp is None or v is None:
            return True
        if exp.k == "B" and v.k == "B" or exp.k == "S" and v.k == "S" and v.r in ("idx", "par", "n", "deg") and \
                not (exp.r == "n") ^ (v.r == "n"):
            return self.check_same(node, rule, exp.d, v.d, "%s belongs to direction %s but gets a value of direction %s" % (what, exp.d, v.d))
        if exp.k == "T" and v.k == "T":
            ok = True
            if len(exp.items) == len(v.items) or exp.items and exp.items[0].k in ("B", "A"):
                for i, (a, b) in enumerate(zip(exp.items, v.items)):
                    ok = self.compat(node, rule, a, b, "item %d of %s" % (i, what)) and ok
            return ok
        if exp.k == "T" and v.k == "A" and len(exp.items) >= 2 and exp.items[0].k != "C":
            if v.axes and v.axes[0] == "Q":
                self.bad(node, rule, "%s is ordered (U, V) but gets a pair ordered (V, U)" % what)
                return False
            return True
        if exp.k == "C" and v.k == "C":
            self.seen(rule)
            if exp.v != v.v:
                self.bad(node, rule, "%s is the corner %s but gets the corner %s" % (what, exp.v, v.v))
                return False
        if exp.k == "W" and v.k == "W":
            self.seen(rule)
            if vdir(v) and vdir(exp) != vdir(v) or vdir(v) and exp.v != v.v:
                self.bad(node, rule, "%s is the edge vector %s but gets %s" % (what, exp.v, v.v))
                return False
        if exp.k == "A" and v.k == "T":
            if exp.axes == ("P",) and len(v.items) >= 2:
                a, b = v.items[:2]
                ok = True
                for x, d in ((a, U), (b, V)):
                    dd = self.dir_of(x)
                    if dd:
                        ok = self.check_same(node, "pair order", d, dd, "the %s component of %s is of direction %s" % (
                            {U: "first", V: "second"}[d], what, dd)) and ok
                return ok
            if exp.axes[:2] == (U, V) and v.items and all(x is not None and x.k == "T" for x in v.items):
                n = len(v.items)
                ok = True
                for i, row in enumerate(v.items):
                    for j, x in enumerate(row.items):
                        if x is not None and x.k == "C" and i in (0, n - 1) and j in (0, len(row.items) - 1):
                            self.seen(rule)
                            c = (int(i > 0), int(j > 0))
                            if c != x.v:
                                self.bad(node, rule, "the corner %s of the poles is set from the corner %s" % (c, x.v))
                                ok = False
                return ok
        if exp.k == "A" and v.k == "A":
            if len(exp.axes) == len(v.axes):
                for a, b in zip(exp.axes, v.axes):
                    if a in (U, V) and b in (U, V):
                        if not self.check_same(node, rule, a, b, "%s has axes %s but gets an array with axes %s" % (what, exp.axes, v.axes)):
                            return False
                    if a == "P" and b == "Q" or a == "Q" and b == "P" or (a == "P") != (b == "P") and "P" in v.axes and b != "P":
                        self.seen("pair order")
                        self.bad(node, "pair order", "%s is ordered (U, V) along %s, the given array along %s" % (what, exp.axes, v.axes))
                        return False
            if len(v.axes) == 1 and exp.axes == ("P",) and v.axes[0] in ("P", "Q"):
                self.seen("pair order")
            if exp.d and v.d and (exp.axes == v.axes or exp.r == v.r == "par"):
                return self.check_same(node, rule, exp.d, v.d, "%s belongs to direction %s but gets values of direction %s" % (what, exp.d, v.d))
        return True

    def dir_of(self, x):
        if x is None:
            return None
        if x.k in ("S", "B"):
            return x.d
        if x.k == "A":
            return x.d or (x.axes[0] if len(x.axes) == 1 and x.axes[0] in (U, V) else None) or x.diff
        if x.k == "W":
            return vdir(x)
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        if e is None:
            return None
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return None

    def x_Constant(self, e, env):
        return K(e.value)

    def x_Name(self, e, env):
        return env.get(e.id)

    def x_Lambda(self, e, env):
        return None

    def x_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def x_Starred(self, e, env):
        self.ev(e.value, env)
        return None

    def x_Tuple(self, e, env):
        its = []
        for x in e.elts:
            v = self.ev(x, env)
            if isinstance(x, ast.Starred):
                return None
            its.append(v)
        return T(its)

    x_List = x_Tuple

    def x_Slice(self, e, env):
        lo, hi = self.ev(e.lower, env), self.ev(e.upper, env)
        st = self.ev(e.step, env)
        return X("SL", lo=lo, hi=hi, v=e.lower is None and e.upper is None and e.step is None, sym=e.step is not None, s=st)

    def x_IfExp(self, e, env):
        c = self.ev(e.test, env)
        a, b = self.ev(e.body, env), self.ev(e.orelse, env)
        if is_const(c):
            return a if c.v else b
        return self.join(a, b)

    def x_BoolOp(self, e, env):
        vs = [self.ev(x, env) for x in e.values]
        return None

    def x_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if v is None:
            return None
        if isinstance(e.op, ast.USub):
            if v.k == "K" and isinstance(v.v, (int, float)):
                return K(-v.v)
            if v.k == "W":
                return vec(tuple(-c for c in v.v))
            if v.k == "S":
                return S(v.d, v.r, off="neg" if v.r == "n" and v.off is None else None)
            if v.k == "A":
                return v
        if isinstance(e.op, ast.Not) and v.k == "K":
            return K(not v.v)
        return None

    def x_Compare(self, e, env):
        vals = [self.ev(e.left, env)] + [self.ev(c, env) for c in e.comparators]
        for a, b, op in zip(vals, vals[1:], e.ops):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                self.bound(e, a, b)
        if any(x is not None and x.k == "A" for x in vals):
            return X("M")
        if len(vals) == 2 and is_const(vals[0]) and is_const(vals[1]) and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
            r = vals[0].v == vals[1].v
            return K(r if isinstance(e.ops[0], ast.Eq) else not r)
        return None

    def bound(self, e, a, b):
        """An index (or parameter) of one direction compared with a count (or bound) of the other."""
        if a is not None and b is not None and a.k == "S" and b.k == "S":
            if {a.r, b.r} == {"idx", "n"} or a.r == b.r == "par":
                self.check_same(e, "bound", a.d, b.d, "a value of direction %s is bounded by one of direction %s" % (a.d, b.d))

    def x_JoinedStr(self, e, env):
        self.written(e, [self.ev(x.value, env) for x in e.values if isinstance(x, ast.FormattedValue)])
        return None

    def comp(self, e, env):
        e1 = self.fork(env)
        for g in e.generators:
            self.assign(g.target, self.element(self.ev(g.iter, e1)), e1, e)
            for c in g.ifs:
                self.ev(c, e1)
        if isinstance(e, ast.DictComp):
            self.ev(e.key, e1), self.ev(e.value, e1)
            return None
        v = self.ev(e.elt, e1)
        return self.listof(v)

    x_ListComp = x_SetComp = x_GeneratorExp = x_DictComp = comp

    @staticmethod
    def listof(v):
        if v is None:
            return None
        if v.k == "S":
            return A(("*",), v.d, v.r)
        if v.k == "A":
            return A(("*",) + v.axes, v.d, v.r)
        if v.k == "CV":
            return A(("*",), v.d, "curve")
        if v.k == "K":
            return A(("*",), None, "const")
        return None

    def x_Attribute(self, e, env):
        b = self.ev(e.value, env)
        n = e.attr
        if b is not None:
            if b.k == "B":
                return {"knots": lambda: A((b.d,), b.d, "par") if b.d else None, "size": lambda: S(b.d, "n"),
                        "n_intervals": lambda: S(b.d, "n"), "degree": lambda: S(b.d, "deg"),
                        "domain": lambda: A(("*",), b.d, "par"), "domain_size": lambda: S(b.d, "len"),
                        "knots_idx_range": lambda: A(("*",), b.d, "idx")}.get(n, lambda: None)()
            if b.k == "A":
                if n == "T":
                    return b.but(axes=tuple(reversed(b.axes)))
                if n == "shape":
                    return T([self.count(a) for a in b.axes])
                if n == "size":
                    return None
            if b.k == "T" and n == "T":
                return X("QT", items=b.items) if b.items and all(x is not None and x.k == "C" for x in b.items) else b
            if b.k == "T" and n == "shape":
                return None
            if b.k == "CV" and n == "basis":
                return B(b.d)
        if n in ("u", "v") and not isinstance(e.value, ast.Call):
            for q in self.ctx.types.atoms(e):
                if q[0] == "I" and q[1] in self.ctx.prog.classes and self.ctx.prog.classes[q[1]].name == "Axis":
                    return K(0 if n == "u" else 1)
            r = self.ctx.prog.resolve_expr(self.fn.mod, e.value) if hasattr(self.ctx.prog, "resolve_expr") else None
            if r and r[0] in ("cls", "class") and str(getattr(r[1], "name", r[1])).endswith("Axis"):
                return K(0 if n == "u" else 1)
        return self.attr_seed(e)

    @staticmethod
    def count(a):
        if a in (U, V):
            return S(a, "n")
        if a == "P":
            return K(2)
        if a == "G":
            return X("GN")
        if isinstance(a, tuple):
            return X("S", d=None, r="n", order=a)
        return None

    def x_Subscript(self, e, env):
        b = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        return self.subscript(e, b, i)

    def subscript(self, e, b, i):
        if b is None:
            return None
        if b.k == "T":
            if is_int(i) and -len(b.items) <= i.v < len(b.items):
                return b.items[i.v]
            if i is not None and i.k == "SL":
                if i.sym:
                    lo, hi, st = (None if x is None else x.v if is_int(x) else "?" for x in (i.lo, i.hi, i.s))
                    return T(b.items[lo:hi:st]) if "?" not in (lo, hi, st) and st else None
                lo = 0 if i.lo is None else i.lo.v if is_int(i.lo) else None
                hi = len(b.items) if i.hi is None or is_const(i.hi, None) and i.hi.v is None else i.hi.v if is_int(i.hi) else None
                if lo is not None and hi is not None and not i.sym:
                    return T(b.items[lo:hi])
                return None
            if i is not None and i.k == "T" and i.items and is_int(i.items[0]) and -len(b.items) <= i.items[0].v < len(b.items):
                x = b.items[i.items[0].v]
                rest = i.items[1:]
                if all(r is not None and r.k == "SL" and (r.v or is_const(r.lo, 0)) for r in rest):
                    return x
                return self.subscript(e, x, rest[0] if len(rest) == 1 else T(rest)) if rest and x is not None and x.k in ("T", "A") else x
            return None
        if b.k == "A":
            idx = i.items if i is not None and i.k == "T" else [i]
            return self.index(e, b, idx)
        return None

    def index1(self, e, b, i):
        return self.index(e, b, [i])

    def index(self, e, b, idx):
        axes = list(b.axes)
        out, d, r = [], b.d, b.r
        k = 0
        extra = {}
        for i in idx:
            if is_const(i) and i.v is None:
                out.append("1")
                continue
            if is_const(i) and i.v is Ellipsis:
                return None
            if k >= len(axes):
                return None
            a = axes[k]
            k += 1
            if i is not None and i.k == "SL":
                self.slice_ok(e, a, i)
                if a in ("P", "Q") and i.sym:
                    if is_const(i.s, -1) and i.hi is None and (i.lo is None or is_const(i.lo, 1)):
                        a = {"P": "Q", "Q": "P"}[a]
                    else:
                        a = "*"
                elif a == "P" and not i.v:
                    lo = 0 if i.lo is None else i.lo.v if is_int(i.lo) else None
                    if lo != 0:
                        a = "*"
                out.append(a)
            elif i is not None and i.k == "S":
                if i.r in ("idx", "n") and a in (U, V):
                    self.check_same(e, "index", a, i.d, "an axis of direction %s is indexed in direction %s" % (a, i.d))
                if a in ("P", "Q"):
                    d, r = None, None
                extra["sym"] = a if a in (U, V) else extra.get("sym")
                if a == "G" and i.r == "n" and i.d:
                    extra["grid"] = i
            elif is_int(i):
                if a in ("P", "Q"):
                    d = ((U, V) if a == "P" else (V, U))[i.v] if i.v in (0, 1) else None
                    if i.v not in (0, 1):
                        return None
                if a == "G":
                    extra["grid"] = i
                if a in (U, V):
                    extra["sym"], extra["off"] = a, i.v
            elif i is not None and i.k == "M":
                out.append(a)
            elif i is not None and i.k == "FI" and a == "G":
                extra["grid"] = i
            else:
                if i is not None and i.k == "A" and len(i.axes) == 1:
                    out.append("*")
                    if a in ("P", "Q"):
                        d = None
                    continue
                if a in ("P", "Q"):
                    d, r = None, None
        out += axes[k:]
        if "grid" in extra and all(x == "*" for x in out):
            return self.grid_point(e, extra["grid"])
        if not out:
            return S(d, r, sym=extra.get("sym"), off=extra.get("off"), wt={d: 1} if d and r == "par" and b.axes == ("P",) else None) \
                if d or extra.get("sym") else None
        return A(out, d, r, diff=b.diff)

    def grid_point(self, e, i):
        """Point of the row-major Nu x Nv grid."""
        if is_int(i):
            return {0: corner((0, 0)), -1: corner((1, 1)), 1: X("GP", off=1)}.get(i.v)
        if i.k == "FI":
            return X("GP", off=i.off if i.off is not None else 0)
        if i.k == "S" and i.r == "n":
            if i.off == -1:
                self.check_same(e, "grid corner", V, i.d, "the end of the first row of a Nu x Nv grid is at the number of points in direction V")
                return corner((0, 1)) if i.d == V else None
            if i.off == "neg":
                self.check_same(e, "grid corner", V, i.d, "the start of the last row of a Nu x Nv grid is counted in direction V")
                return corner((1, 0)) if i.d == V else None
        return None

    def slice_ok(self, e, a, s):
        for x in (s.lo, s.hi):
            if x is not None and x.k == "S" and a in (U, V) and x.r in ("idx", "n"):
                self.check_same(e, "index", a, x.d, "an axis of direction %s is sliced in direction %s" % (a, x.d))

    def element(self, it):
        if it is None:
            return None
        if it.k == "A":
            if it.r == "curve":
                return X("CV", d=it.d)
            if it.r == "range":
                return S(it.d, "idx")
            return A(it.axes[1:], it.d, it.r, diff=it.diff) if len(it.axes) > 1 else S(it.d, it.r, sym=it.axes[0]) if it.axes[0] in (U, V) or it.d else None
        if it.k == "T":
            out = None
            for n, x in enumerate(it.items):
                out = x if n == 0 else self.join(out, x)
            return out
        if it.k == "RG":
            return S(None, "idx") if it.v == 2 else X("FI")
        if it.k == "EN":
            return T([None, self.element(it.items[0])])
        return None

    # ------------------------------------------------------------------ arithmetic
    def x_BinOp(self, e, env):
        return self.binop(e, e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, e, op, a, b):
        if isinstance(op, ast.MatMult):
            return self.dot(e, a, b)
        if a is None and b is None:
            return None
        if a is not None and b is not None and a.k == "K" and b.k == "K":
            try:
                if isinstance(a.v, (int, float)) and isinstance(b.v, (int, float)):
                    return K({ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                              ast.Div: lambda x, y: x / y, ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y}[type(op)](a.v, b.v))
            except (KeyError, ZeroDivisionError):
                pass
            return None
        add, sub, mul = isinstance(op, ast.Add), isinstance(op, ast.Sub), isinstance(op, ast.Mult)
        div, fdiv, mod = isinstance(op, ast.Div), isinstance(op, ast.FloorDiv), isinstance(op, ast.Mod)
        ak, bk = a.k if a is not None else None, b.k if b is not None else None
        # corners and edge vectors
        if ak == "C" and bk == "C" and (sub or add):
            c = tuple(x - y if sub else x + y for x, y in zip(a.v, b.v))
            return vec(c) if sub else X("C2", v=c)
        if ak == "C2" and bk == "C" and sub:
            return corner(tuple(x - y for x, y in zip(a.v, b.v)))
        if ak == "C" and b is None and (add or sub):
            return a
        if ak == "C" and bk == "W" and (add or sub):
            return corner(tuple(x + (y if add else -y) for x, y in zip(a.v, b.v)))
        if ak == "W" and bk == "W" and (add or sub):
            if sub and vdir(a) and vdir(b):
                self.check_same(e, "edge", vdir(a), vdir(b), "an edge of direction %s is compared with one of direction %s" % (vdir(a), vdir(b)))
            return None
        if ak == "W" and bk == "S" and div:
            if vdir(a) and b.r == "n":
                self.check_same(e, "step", vdir(a), b.d, "the edge of direction %s is divided by the number of points in direction %s" % (vdir(a), b.d))
            return a
        if ak == "GP" and bk == "GP" and sub:
            d = X("GD", off=(a.off, b.off))
            o1, o2 = a.off, b.off
            if o1 == 0 and o2 == -1:
                return vec((0, 1))
            if o1 == 0 and o2 == ("n", V):
                return vec((1, 0))
            if o1 == 0 and o2 == ("n", U):
                self.bad(e, "grid step", "the previous row of a row-major Nu x Nv grid is Nv points back, not Nu")
            return None
        if ak == "GP" and bk == "C" and sub:
            return vec((0, 1)) if a.off == 1 and b.v == (0, 0) else None
        # flat indices
        if "Z" in (ak, bk) or "M" in (ak, bk) or "EN" in (ak, bk) or "RG" in (ak, bk) or "SL" in (ak, bk):
            return None
        if ak == "GN" and bk == "S" and (div or fdiv):
            return S(OTHER[b.d] if b.d else None, "n")
        if "GN" in (ak, bk):
            return None
        if ak == "FI":
            if sub and bk == "S" and b.r == "n":
                return X("FI", off=("n", b.d), order=a.order)
            if (sub or add) and is_int(b):
                return X("FI", off=-b.v if sub else b.v, order=a.order)
            if (div or fdiv) and bk == "S" and b.r == "n" and b.d:
                self.order(e, (OTHER[b.d], b.d), "quotient of the flat index by the number in direction %s" % b.d)
                return S(OTHER[b.d], "idx")
            if mod and bk == "S" and b.r == "n" and b.d:
                self.order(e, (OTHER[b.d], b.d), "remainder of the flat index by the number in direction %s" % b.d)
                return S(b.d, "idx")
            if sub and bk == "ST":
                self.stride_ok(e, b.d, b.s)
                return S(b.s, "idx")
            return None
        if ak == "ST" and bk == "ST":
            return None
        if (ak == "ST" or bk == "ST") and (add or sub):
            st, o = (a, b) if ak == "ST" else (b, a)
            if o is None or o.k == "K":
                return st
            if o.k == "S" and o.r == "idx" and o.d:
                self.stride_ok(e, st.d, st.s)
                if self.check_same(e, "flat index", st.s, o.d, "an index of direction %s is added to a stride of direction %s" % (o.d, st.s)):
                    self.order(e, (st.d, st.s), "flat index")
                    return X("FL", order=(st.d, st.s), off=(st.off or 0, o.off if isinstance(o.off, int) else 0))
            if o.k == "A":
                return o
            return st
        if ak == "FL" or bk == "FL":
            fl, o = (a, b) if ak == "FL" else (b, a)
            if o is not None and o.k in ("A", "FL") and o.order and add:
                self.seen("flat index")
                if tuple(o.order) != tuple(fl.order):
                    self.bad(e, "flat index", "flat indices of the orders %s and %s are added" % (fl.order, o.order))
                return o if o.k == "A" else fl
            if is_int(o) and add:
                return fl.but(off=(fl.off[0], fl.off[1] + o.v))
            return fl if add or sub else None
        if mul:
            if ak == "S" and bk == "S" and a.r == b.r == "n" and {a.d, b.d} == {U, V}:
                return X("GN")
            for x, y in ((a, b), (b, a)):
                if x is not None and y is not None and x.k == "S" and x.sym in (U, V) and isinstance(x.off, int) and y.k == "A" and not y.d:
                    return y.but(wt={x.sym: x.off}, s=None)
                if x is not None and y is not None and x.k == "S" and y.k == "S" and x.r == "idx" and y.r == "n" and x.d and y.d:
                    return X("ST", d=x.d, s=y.d, off=x.off if isinstance(x.off, int) else 0)
                if x is not None and y is not None and x.k == "A" and y.k == "S" and y.r == "n" and y.d and not x.d and \
                        sorted(x.axes) == ["*", "1"]:
                    return x.but(s=y.d)
        if add and ak == "A" and bk == "A" and (a.s or b.s):
            x, y = (a, b) if a.s else (b, a)
            if x.axes in (("*", "1"), ("1", "*")) and y.axes == tuple(reversed(x.axes)):
                o = (OTHER[x.s], x.s)
                if x.axes == ("1", "*"):
                    o = o      # order of the index arithmetic is given by the strides
                self.order(e, o, "flat index")
                return A(("*", "*"), order=o)
        # arrays
        if ak == "A" and bk == "A":
            return self.broadcast(e, a, b)
        if ak == "T" and bk == "T" and len(a.items) == len(b.items):
            if a.items and a.items[0] is not None and a.items[0].k == "C":
                return T([self.binop(e, op, x, y) if x is not None and x.k == "C" and (y is None or y.k == "C") else None for x, y in zip(a.items, b.items)])
            return T([self.binop(e, op, x, y) for x, y in zip(a.items, b.items)])
        if ak == "T" and bk == "A" or ak == "A" and bk == "T":
            t, r = (a, b) if ak == "T" else (b, a)
            if r.axes == ("P",) or r.axes == ("Q",):
                for x, d in zip(t.items, (U, V) if r.axes == ("P",) else (V, U)):
                    dd = self.dir_of(x)
                    if x is not None and x.k == "S" and dd:
                        self.check_same(e, "pair order", d, dd, "components of the directions %s and %s are combined" % (d, dd))
                return P("par") if r.axes == ("P",) else r
            return None
        if ak == "T" and a.items and a.items[0] is not None and a.items[0].k == "C":
            return a if b is None and (add or sub) else None
        if ak == "T":
            return T([self.binop(e, op, x, b) for x in a.items])
        if bk == "T":
            return T([self.binop(e, op, a, x) for x in b.items])
        if ak == "A":
            if bk == "S" and a.d and b.d and a.r == "par" and b.r == "par" and (add or sub):
                self.check_same(e, "arithmetic", a.d, b.d, "parameter values of the directions %s and %s are combined" % (a.d, b.d))
            return a.but(s=None, order=a.order if add or sub else None)
        if bk == "A":
            return b.but(s=None, order=b.order if add or sub else None)
        # scalars
        if ak == "S" or bk == "S":
            return self.scalar(e, op, a, b)
        return None

    def stride_ok(self, e, d, s):
        self.seen("flat index")
        if d == s:
            self.bad(e, "flat index", "the index of direction %s is multiplied by the number of items in the same direction" % d)

    def scalar(self, e, op, a, b):
        add, sub, mul, div = isinstance(op, ast.Add), isinstance(op, ast.Sub), isinstance(op, ast.Mult), isinstance(op, ast.Div)
        if a is not None and b is not None and a.k == "S" and b.k == "S":
            if (mul or div) and (a.mono or a.r == "len") and (b.mono or b.r == "len"):
                m = dict(a.mono or {a.d: 1})
                for d, x in (b.mono or {b.d: 1}).items():
                    m[d] = m.get(d, 0) + (x if mul else -x)
                return self.mono(m)
            if mul and a.wt and b.wt:
                w = dict(a.wt)
                for d, x in b.wt.items():
                    if d in w:
                        return None
                    w[d] = x
                return S(None, "wt", wt=w)
            if add or sub:
                if {a.r, b.r} == {"idx"} and a.d and b.d and a.d != b.d:
                    return None
                if {a.r, b.r} == {"idx", "deg"}:
                    self.check_same(e, "index", a.d, b.d, "the degree of direction %s is added to an index of direction %s" % (
                        (a if a.r == "deg" else b).d, (b if a.r == "deg" else a).d))
                    return S((a if a.r == "idx" else b).d, "idx")
                if a.r == b.r == "par":
                    self.check_same(e, "arithmetic", a.d, b.d, "parameter values of the directions %s and %s are added or subtracted" % (a.d, b.d))
                    return S(a.d if a.d == b.d else None, "par")
                if a.r == "idx" and b.r == "flag":
                    self.check_same(e, "arithmetic", a.d, b.d, "the index of direction %s is shifted by the flag of direction %s" % (a.d, b.d))
                    return S(a.d, "idx")
                if a.r == "len" and b.r == "len":
                    return S(a.d if a.d == b.d else None, "len") if a.d == b.d else None
                if a.d == b.d and a.r == b.r:
                    return S(a.d, a.r)
                if a.r == "idx" and b.r is None or b.r == "idx" and a.r is None:
                    return S(a.d if a.r == "idx" else b.d, "idx")
            if div and a.d and b.d and a.r == "par":
                return S(a.d if a.d == b.d else None, "par")
            return None
        x, y = (a, b) if a is not None and a.k == "S" else (b, a)
        if x.mono or x.r == "len":
            if mul or div and x is a:
                return x
            return x if (mul or div or add or sub) and x is a else None
        if is_const(y):
            if x.r == "par" and sub and x is b and y.v == 1 and x.d:
                return S(x.d, "par", wt={x.d: 1 - x.wt[x.d]} if x.wt and len(x.wt) == 1 else None)
            if x.r in ("n", "idx", "par", "deg") and (add or sub) and x is a:
                off = None
                if x.r in ("n", "idx") and is_int(y):
                    off = (x.off if isinstance(x.off, int) else 0) + (y.v if add else -y.v)
                return S(x.d, x.r, off=off)
            if (add or sub):
                return S(x.d, x.r, off=(x.off if isinstance(x.off, int) else 0) + y.v if add and is_int(y) and x.r == "idx" else None)
            if (mul or div) and x.r == "par":
                return S(x.d, "par")
            if div and x.r == "n" and x is b:
                return S(x.d, "par")
            return None
        if (add or sub) and x.r == "idx":
            return S(x.d, "idx")
        return None

    @staticmethod
    def mono(m):
        pos = [d for d, x in m.items() if x > 0]
        neg = [d for d, x in m.items() if x < 0]
        d = pos[0] if len(pos) == 1 and len(neg) <= 1 else None
        if not pos and not neg:
            return None
        return S(d, "n" if neg and pos else "len", mono=m)

    def broadcast(self, e, a, b):
        n = max(len(a.axes), len(b.axes))
        x = ("1",) * (n - len(a.axes)) + a.axes
        y = ("1",) * (n - len(b.axes)) + b.axes
        out = []
        ok = True
        for p, q in zip(x, y):
            if p in (U, V) and q in (U, V):
                self.seen("axes")
                if p != q:
                    ok = False
            if isinstance(p, tuple) and isinstance(q, tuple) and p != q:
                ok = False
            if {p, q} == {"P", "Q"}:
                ok = False
            out.append(q if p == "1" else p if q == "1" else p if p == q else p if q == "*" else q if p == "*" else "*")
        if not ok:
            self.bad(e, "axes", "arrays with the axes %s and %s are combined element by element" % (a.axes, b.axes))
        return A(out, a.d if a.d == b.d else None, a.r if a.r == b.r else None, order=a.order or b.order)

    def vector(self, x):
        """[1 - u, u] as a vector along its direction."""
        if x is not None and x.k == "T" and len(x.items) == 2 and all(i is not None and i.k == "S" and i.d and i.r == "par" for i in x.items) and \
                x.items[0].d == x.items[1].d:
            return A((x.items[0].d,))
        return x

    def dot(self, e, a, b):
        a, b = self.vector(a), self.vector(b)
        for t, o, i in ((a, b, -2), (b, a, -1)):
            if t is not None and t.k == "T" and len(t.items) == 2 and o is not None and o.k == "A" and o.axes and \
                    all(x is not None and x.k == "S" and x.d and x.r == "par" for x in t.items) and t.items[0].wt != {t.items[0].d: 1}:
                ax = o.axes[i if len(o.axes) > 1 else 0]
                if ax in (U, V):
                    self.seen("contraction")
                    self.bad(e, "contraction", "an axis of direction %s is contracted with weights of the directions %s and %s" % (
                        ax, t.items[0].d, t.items[1].d))
        if a is None and b is not None and b.k == "A" and len(b.axes) == 2 and b.axes[1] in ("P", "Q"):
            return A(("*", b.axes[1]))
        if a is not None and a.k == "QT" and b is not None and b.k == "T":
            for x, c in zip(b.items, a.items):
                if x is not None and x.k == "S" and x.wt and len(x.wt) == 2:
                    self.seen("bilinear weights")
                    w = (x.wt[U], x.wt[V])
                    if w != c.v:
                        self.bad(e, "bilinear weights", "the corner %s gets the weight of the corner %s" % (c.v, w))
            return None
        if a is None or b is None or a.k != "A" or b.k != "A" or not a.axes or not b.axes:
            return None
        i = len(b.axes) - 2 if len(b.axes) > 1 else 0
        self.contract(e, a.axes[-1], b.axes[i])
        out = a.axes[:-1] + b.axes[:i] + b.axes[i + 1:]
        return A(out, diff=self.diff(a, b)) if out else None

    def slots(self, e, data, cols):
        """The product of basis values stored at a slot belongs to the column stored at the same slot."""
        place = {}
        for i, v in data.items:
            if i is not None and i.k == "SL" and is_int(i.lo) and is_int(i.hi) and v is not None and v.k == "A" and len(v.axes) == 1:
                if v.wt and v.axes[0] in (U, V):
                    for k in range(i.hi.v - i.lo.v):
                        place[i.lo.v + k] = dict(v.wt, **{v.axes[0]: k})
        for i, v in cols.items:
            if is_int(i) and v is not None and v.k == "FL" and i.v in place:
                self.seen("flat index")
                want = place[i.v]
                have = {v.order[0]: v.off[0], v.order[1]: v.off[1]}
                if want != have:
                    self.bad(e, "flat index", "the matrix entry of the local basis functions U %s, V %s is stored in the column of U %s, V %s" % (
                        want.get(U), want.get(V), have.get(U), have.get(V)))
                    return

    def contract(self, e, p, q):
        if p in (U, V) and q in (U, V):
            self.check_same(e, "contraction", p, q, "an axis of direction %s is contracted with an axis of direction %s" % (p, q))
        elif {p, q} == {"P", "Q"}:
            self.bad(e, "contraction", "a pair ordered (U, V) is multiplied by one ordered (V, U)")

    @staticmethod
    def diff(a, b):
        ds = {x.diff for x in (a, b) if x.diff}
        return ds.pop() if len(ds) == 1 else None

    # ------------------------------------------------------------------ calls
    def x_Call(self, e, env):
        f = e.func
        args = []
        star = False
        for x in e.args:
            if isinstance(x, ast.Starred):
                star = True
                self.ev(x.value, env)
            else:
                args.append(self.ev(x, env))
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
        for k in e.keywords:
            if not k.arg:
                self.ev(k.value, env)
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, env)
            r = self.method(e, f, base, args, kw, env)
            if r is not NotImplemented:
                return r
        ext = self.external(f)
        if ext:
            return self.library(e, ext, args, kw, env)
        if star:
            return None
        return self.repo_call(e, args, kw)

    def external(self, f):
        r = self.ctx.prog.resolve_expr(self.fn.mod, f)
        if r and r[0] == "ext":
            return r[1]
        if isinstance(f, ast.Name) and f.id in ("range", "len", "slice", "min", "max", "int", "float", "list", "tuple", "zip", "enumerate", "divmod", "abs", "round", "sum"):
            return "builtins." + f.id
        return None

    def method(self, e, f, base, args, kw, env):
        n = f.attr
        if base is None and n == "reshape" and not self.ctx.types.callees.get(e):
            return self.reshape(e, None, args)
        if base is not None and base.k == "K" and n == "format":
            self.written(e, args)
            return None
        if base is None:
            return NotImplemented
        if base.k == "B":
            return self.basis_call(e, base, n, args, kw)
        if base.k == "A":
            if n == "dot":
                return self.dot(e, base, args[0] if args else None)
            if n in ("ravel", "flatten"):
                return self.flatten(e, base)
            if n in ("copy", "astype", "tolist"):
                return base
            if n == "transpose" and not args:
                return base.but(axes=tuple(reversed(base.axes)))
            if n == "reshape":
                return self.reshape(e, base, args)
            if n in ("min", "max", "sum", "mean"):
                return None
            if n == "append" and isinstance(f.value, ast.Name) and len(base.axes) == 1:
                v = self.listof(args[0]) if args else None
                env[f.value.id] = self.join(base, v)
                return K(None)
            if n == "transpose" and len(args) == len(base.axes) and all(is_int(x) and 0 <= x.v < len(base.axes) for x in args):
                return base.but(axes=tuple(base.axes[x.v] for x in args))
            if n == "swapaxes" and len(args) == 2 and all(is_int(a) for a in args):
                ax = list(base.axes)
                try:
                    ax[args[0].v], ax[args[1].v] = ax[args[1].v], ax[args[0].v]
                except IndexError:
                    return None
                return base.but(axes=tuple(ax))
            return NotImplemented
        if base.k == "T":
            if n == "append" and isinstance(f.value, ast.Name):
                v = self.listof(args[0]) if args else None
                env[f.value.id] = v if not base.items else self.join(self.listof(self.element(base)), v)
                return K(None)
            if n in ("dot",):
                return self.dot(e, base, args[0] if args else None)
            if n in ("copy", "astype", "tolist", "ravel", "flatten"):
                return base
            return NotImplemented
        if base.k == "QT" and n == "dot":
            return self.dot(e, base, args[0] if args else None)
        return NotImplemented

    def written(self, e, args):
        """Counts written one after the other come in pairs (U, V)."""
        if self.fn.name != "_brep_output":
            return
        ds = [x.d for x in args if x is not None and x.k == "S" and x.r == "n" and x.d]
        if len(ds) >= 2 and len(ds) % 2 == 0:
            self.seen("pair order")
            if any(ds[i:i + 2] != [U, V] for i in range(0, len(ds), 2)):
                self.bad(e, "pair order", "the counts are written in the order %s" % ", ".join(ds))

    BASIS = {"find_knot_interval": "idx", "check": "par", "eval_vector": "vec", "eval_base_vector": "vec", "eval_diff_vector": "dvec",
             "eval_diff_base_vector": "dvec", "make_linear_poles": "poles", "pack_knots": "knots", "knot_interval_bounds": "bounds"}

    def basis_call(self, e, base, n, args, kw):
        for a in list(args) + list(kw.values()):
            if a is not None and a.k == "S" and a.r in ("idx", "par", "n") and base.d:
                self.check_same(e, "basis argument", base.d, a.d, "the basis of direction %s is evaluated at a value of direction %s (%s)" % (base.d, a.d, n))
        k = self.BASIS.get(n)
        d = base.d
        return {"idx": lambda: S(d, "idx"), "par": lambda: S(d, "par"), "vec": lambda: A((d,)) if d else None,
                "dvec": lambda: A((d,), diff=d) if d else None, "poles": lambda: A((d,), d, "par") if d else None,
                "knots": lambda: A((d, "*"), d, "par") if d else None, "bounds": lambda: A(("*",), d, "par")}.get(k, lambda: None)()

    def new_basis(self, e, args, kw):
        """Direction of a basis that is built of directed values."""
        ds = []
        for a in list(args) + list(kw.values()):
            d = self.dir_of(a) if a is not None and a.k in ("S", "A") else None
            if a is not None and a.k == "S" and a.r not in ("n", "deg"):
                d = None
            if d:
                ds.append(d)
        for d in ds[1:]:
            self.check_same(e, "basis construction", ds[0], d, "a basis is built of values of the directions %s and %s" % (ds[0], d))
        return B(ds[0] if ds else None)

    def repo_call(self, e, args, kw):
        quals = self.ctx.types.callees.get(e, ())
        funcs = []
        prog = self.ctx.prog
        for q in quals:
            g = prog.funcs.get(q)
            if g is None and q in prog.classes:
                g = prog.find_method(prog.classes[q], "__init__")
            if g is not None:
                funcs.append(g)
        if isinstance(e.func, (ast.Name, ast.Attribute)):
            cs = {a[1] for a in self.ctx.types.atoms(e.func) if a[0] == "C"}
        else:
            cs = set()
        cn = {prog.classes[c].name for c in cs if c in prog.classes}
        gn = {(g.cls.name if g.cls else None, g.name) for g in funcs}
        if cn == {"SplineBasis"} or gn and gn <= {("SplineBasis", "make_equidistant"), ("SplineBasis", "make_from_packed_knots"), ("SplineBasis", "__init__")}:
            return self.new_basis(e, args, kw)
        if cn == {"Curve"}:
            b = kw.get("basis", args[0] if args else None)
            p = kw.get("poles", args[1] if len(args) > 1 else None)
            if b is not None and b.k == "B" and p is not None and p.k == "A" and p.axes and p.axes[0] in (U, V):
                self.check_same(e, "curve basis", b.d, p.axes[0], "a curve along direction %s gets the basis of direction %s" % (p.axes[0], b.d))
            return X("CV", d=b.d) if b is not None and b.k == "B" else None
        rows = None
        for g in funcs:
            for p, v in self.pairs(g, args, kw):
                if p in ("uv_points", "xy_points") and v is not None and v.k == "A" and len(v.axes) == 2:
                    rows = A((v.axes[0], "*"))
        if len(funcs) != 1:
            if len(funcs) > 1:
                for g in funcs:
                    self.bind(e, g, args, kw)
            return rows
        g = funcs[0]
        if g.name == "check_knots":
            ds = [d for d in (self.dir_of(x) for x in list(args) + list(kw.values())) if d]
            for d in ds[1:]:
                self.check_same(e, "basis construction", ds[0], d, "knots, degree and count of the directions %s and %s are checked together" % (ds[0], d))
        env = self.bind(e, g, args, kw)
        if g.mod.name.split(".")[-2:-1] != ["bspline"] and ".bspline." not in "." + g.qual:
            return None
        if g.cls is not None and g.cls.name == "SplineBasis" or cs:
            return None
        r = self.call(g, env)
        return rows if r is None else r

    def pairs(self, g, args, kw):
        pos = [p for p in g.pos_params()]
        if g.cls is not None and not g.deco_is(self.ctx.prog, "builtins.staticmethod") and pos:
            pos = pos[1:]
        return list(zip(pos, args)) + [(k, v) for k, v in kw.items() if k in g.all_params()]

    def bind(self, e, g, args, kw):
        """Arguments against the directions of the parameters; the environment of the callee."""
        seeds = self.params(g)
        env = dict(seeds)
        for p, v in self.pairs(g, args, kw):
            if p in seeds:
                self.compat(e, "argument", seeds[p], v, "the argument %s of %s" % (p, g.name))
                if v is not None and not (v.k == "K" and seeds[p].k != "K"):
                    env[p] = v
            elif v is not None:
                env[p] = v
        if "axis" in env and env["axis"] is None:
            env.pop("axis")
        return env

    # ------------------------------------------------------------------ library
    def flatten(self, e, a):
        if len(a.axes) == 2 and set(a.axes) == {U, V}:
            return A((tuple(a.axes),), a.d, a.r)
        if a.order:
            return A(("*",), order=a.order)
        if len(a.axes) == 2 and all(isinstance(x, tuple) for x in a.axes):
            return A(("*",), order=None)
        if len(a.axes) == 1:
            return a
        return A(("*",), a.d, a.r)

    def reshape(self, e, a, args):
        if len(args) == 1 and args[0] is not None and args[0].k == "T":
            args = args[0].items
        if any(is_int(x) and x.v == -1 for x in args):
            return None
        dims = []
        for x in args:
            if x is not None and x.k == "S" and x.r == "n" and x.d:
                dims.append(x.d)
            elif is_int(x):
                dims.append("P" if x.v == 2 and a is not None and a.axes[-1:] == ("P",) else "*")
            else:
                return None
        dd = tuple(x for x in dims if x in (U, V))
        if len(dd) == 2 and a is not None:
            src = [x for x in a.axes if isinstance(x, tuple)]
            if src:
                self.seen("reshape")
                if src[0] != dd:
                    self.bad(e, "reshape", "values in the order %s are reshaped to %s" % (src[0], dd))
        if len(dd) == 2 and (a is None or not any(isinstance(x, tuple) for x in a.axes)):
            self.order(e, dd, "reshape of a vector")
        return A(dims, a.d if a is not None else None, a.r if a is not None else None)

    def library(self, e, q, args, kw, env):
        n = q.split(".")[-1]
        a0 = args[0] if args else None
        a1 = args[1] if len(args) > 1 else None
        if q == "builtins.range":
            hi = a1 if len(args) > 1 else a0
            if all(is_int(x) for x in args):
                r = range(*[x.v for x in args])
                if len(r) <= 4:
                    return T([K(i) for i in r])
                return None
            if hi is not None and hi.k == "S" and hi.r == "n" and hi.d:
                return A(("*",), hi.d, "range")
            if hi is not None and hi.k == "GN":
                return X("RG", v=len(args))
            return None
        if q == "builtins.len":
            if a0 is not None and a0.k == "A":
                return self.count(a0.axes[0])
            return None
        if q == "builtins.enumerate":
            return X("EN", items=[a0]) if a0 is not None else None
        if q == "builtins.slice":
            z = [None if x is not None and x.k == "K" and x.v is None else x for x in args]
            lo, hi = (None, z[0]) if len(z) == 1 else z[:2]
            return X("SL", lo=lo, hi=hi, v=lo is None and hi is None and all(is_const(x) and x.v is None for x in args), sym=len(z) > 2)
        if n in ("all", "any", "logical_and", "logical_or", "logical_not", "where", "nonzero", "flatnonzero", "isclose") and \
                any(x is not None and x.k == "M" for x in args):
            return X("M")
        if q in ("builtins.list", "builtins.tuple"):
            return a0
        if q == "builtins.divmod":
            if a0 is not None and a0.k == "FI" and a1 is not None and a1.k == "S" and a1.d:
                self.order(e, (OTHER[a1.d], a1.d), "divmod of the flat index")
                return T([S(OTHER[a1.d], "idx"), S(a1.d, "idx")])
            return None
        if n in ("int", "float", "abs", "floor", "ceil", "round", "rint", "around", "asarray", "ascontiguousarray", "copy", "deepcopy", "squeeze", "fabs", "absolute") \
                or n == "array" and q.startswith("numpy"):
            if a0 is None:
                return None
            if a0.k == "T":
                return T(a0.items)
            if n in ("int", "floor") and a0.k in ("S", "A") and a0.r == "par":
                return a0.but(r="idx", wt=None)
            return a0
        if n in ("min", "max", "minimum", "maximum", "clip"):
            vs = [x for x in args if x is not None and x.k in ("S", "A", "T")]
            ss = [x for x in vs if x.k == "S"]
            for i in range(len(ss)):
                for j in range(i):
                    self.bound(e, ss[i], ss[j])
            if len(ss) == len(vs) and ss:
                idx = [x for x in ss if x.r == "idx"] or ss
                return S(idx[0].d, idx[0].r) if all(x.d == idx[0].d for x in ss) else None
            if n in ("minimum", "maximum", "clip") and a0 is not None and (a0.k == "A" or a0.k == "T"):
                if a1 is not None and a1.k in ("A", "T"):
                    return self.binop(e, ast.Add(), a0, a1) if a0.k == "T" and a1.k == "T" else a0
                return a0
            if n in ("minimum", "maximum") and a1 is not None and a1.k == "A":
                return a1
            return None
        if n == "sqrt":
            if a0 is not None and a0.k == "S" and a0.mono:
                return self.mono({d: x / 2 for d, x in a0.mono.items()})
            return None
        if n == "norm":
            if a0 is not None and a0.k == "W" and vdir(a0):
                return S(vdir(a0), "len", mono={vdir(a0): 1})
            return None
        if n == "roll" and a0 is not None and a0.k == "T" and is_int(a1):
            k = -a1.v % len(a0.items)
            return T(a0.items[k:] + a0.items[:k])
        if n in ("inner",):
            a, b = self.vector(a0), self.vector(a1)
            if a is None or b is None or a.k != "A" or b.k != "A":
                return None
            self.contract(e, a.axes[-1], b.axes[-1])
            out = a.axes[:-1] + b.axes[:-1]
            return A(out, diff=self.diff(a, b)) if out else None
        if n in ("dot", "matmul"):
            return self.dot(e, a0, a1)
        if n == "outer":
            a, b = self.vector(a0), self.vector(a1)
            if a is not None and b is not None and a.k == "A" and b.k == "A" and len(a.axes) == len(b.axes) == 1:
                return A(a.axes + b.axes, diff=self.diff(a, b))
            return None
        if n == "kron":
            if a0 is not None and a1 is not None and a0.k == "A" and a1.k == "A" and len(a0.axes) == len(a1.axes):
                ax = []
                for p, q2 in zip(a0.axes, a1.axes):
                    if p in (U, V) and q2 in (U, V):
                        if p == q2:
                            self.bad(e, "kronecker", "the Kronecker product combines two factors of direction %s" % p)
                        self.seen("kronecker")
                        ax.append((p, q2))
                    else:
                        ax.append("*")
                if ax and isinstance(ax[0], tuple):
                    self.order(e, ax[0], "Kronecker product")
                return A(ax)
            return None
        if n == "einsum":
            return None
        if n == "tensordot":
            axes = kw.get("axes", args[2] if len(args) > 2 else None)
            if a0 is None or a1 is None or a0.k != "A" or a1.k != "A" or axes is None or axes.k != "T" or len(axes.items) != 2:
                return None
            pa, pb = axes.items
            la = pa.items if pa is not None and pa.k == "T" else [pa]
            lb = pb.items if pb is not None and pb.k == "T" else [pb]
            if not all(is_int(x) for x in la + lb):
                return None
            try:
                for x, y in zip(la, lb):
                    self.contract(e, a0.axes[x.v], a1.axes[y.v])
            except IndexError:
                return None
            ax = [x for i, x in enumerate(a0.axes) if i not in [y.v % len(a0.axes) for y in la]] + \
                 [x for i, x in enumerate(a1.axes) if i not in [y.v % len(a1.axes) for y in lb]]
            return A(ax, diff=self.diff(a0, a1)) if ax else None
        if n == "meshgrid":
            ij = is_const(kw.get("indexing"), "ij")
            if len(args) != 2:
                return None
            one = [x if x is not None and x.k == "A" and len(x.axes) == 1 else None for x in args]
            ax = [x.axes[0] if x is not None and x.axes[0] in (U, V) else x.d if x is not None and x.d else "*" for x in one]
            if ax[0] in (U, V) and ax[0] == ax[1]:
                self.bad(e, "axes", "a grid is made of two coordinates of the direction %s" % ax[0])
            axes = ax if ij else [ax[1], ax[0]]
            return T([A(axes, x.d if x is not None else None, x.r if x is not None else None) for x in one])
        if n in ("stack", "column_stack", "vstack", "hstack", "concatenate", "row_stack", "dstack"):
            axis = kw.get("axis", a1)
            if n == "column_stack":
                axis = K(1)
            elif n in ("vstack", "row_stack") or axis is None and n == "stack":
                axis = K(0)
            if a0 is None or a0.k != "T" or not is_int(axis):
                return None
            if n == "concatenate":
                xs = [x for x in a0.items if x is not None and x.k == "A"]
                if len(xs) == len(a0.items) and xs:
                    out = xs[0]
                    for x in xs[1:]:
                        if len(x.axes) != len(out.axes):
                            return None
                        for k, (p, q2) in enumerate(zip(out.axes, x.axes)):
                            if k != axis.v and p in (U, V) and q2 in (U, V) and p != q2:
                                self.bad(e, "axes", "arrays with the axes %s and %s are joined" % (out.axes, x.axes))
                        out = A([p if k == axis.v and p == q2 else "*" if k == axis.v else p if p in (U, V) else q2
                                 for k, (p, q2) in enumerate(zip(out.axes, x.axes))])
                    return out
                if a0.items and a0.items[0] is not None and a0.items[0].k == "T":
                    return None
                return None
            ds = [self.dir_of(x) for x in a0.items]
            if len(ds) < 2 or not (ds[0] and ds[1]) or ds[0] == ds[1]:
                return None
            p = "P" if ds[:2] == [U, V] else "Q"
            self.seen("pair order")
            rows = {x.axes[0] for x in a0.items if x is not None and x.k == "A" and len(x.axes) == 1 and isinstance(x.axes[0], tuple)}
            row = rows.pop() if len(rows) == 1 else "*"
            return A((row, p) if axis.v in (1, -1) else (p, row), None, "par")
        if n in ("inv", "pinv"):
            if a0 is not None and a0.k == "A" and len(a0.axes) == 2:
                return a0.but(axes=tuple(reversed(a0.axes)))
            return None
        if n == "solve":
            if a0 is not None and a0.k == "A" and len(a0.axes) == 2 and a0.axes[1] in ("P", "Q"):
                return A((a0.axes[1],), None, "par")
            return None
        if n == "linspace":
            ds = [self.dir_of(x) for x in args[:2] if x is not None and x.k == "S" and x.r == "par"]
            ds = [d for d in ds if d]
            c = args[2] if len(args) > 2 else kw.get("num")
            if c is not None and c.k == "S" and c.r == "n" and c.d:
                ds.append(c.d)
            for d in ds[1:]:
                self.check_same(e, "range", ds[0], d, "a range is given by values of the directions %s and %s" % (ds[0], d))
            return A((ds[0],), ds[0], "par") if ds else None
        if n == "arange":
            return A(("*",))
        if n in ("zeros", "ones", "empty", "full"):
            if a0 is not None and a0.k == "T":
                if len(a0.items) == 1 and is_int(a0.items[0]) and a0.items[0].v <= 4:
                    return T([None] * a0.items[0].v)
                ax = [x.d if x is not None and x.k == "S" and x.r == "n" and x.d else "*" for x in a0.items]
                if U in ax or V in ax:
                    return A(ax)
            if a0 is None:
                return X("Z", items=[])
            if is_int(a0) and a0.v <= 4:
                return T([None] * a0.v)
            return None
        if n in ("zeros_like", "empty_like", "ones_like"):
            return a0 if a0 is not None and a0.k == "A" else None
        if n.endswith("_matrix") or n.endswith("_array") and "sparse" in q:
            if a0 is not None and a0.k == "T" and len(a0.items) == 2:
                ds, ij = a0.items
                if ds is not None and ds.k == "Z" and ij is not None and ij.k == "T" and len(ij.items) == 2:
                    for c in ij.items:
                        if c is not None and c.k == "Z":
                            self.slots(e, ds, c)
            return None
        if n in ("ravel", "flatten"):
            return self.flatten(e, a0) if a0 is not None and a0.k == "A" else None
        if n == "reshape":
            return self.reshape(e, a0, args[1:]) if a0 is None or a0.k == "A" else None
        if n == "transpose":
            return a0.but(axes=tuple(reversed(a0.axes))) if a0 is not None and a0.k == "A" and len(args) == 1 else None
        if n in ("repeat", "tile"):
            return a0.but(axes=("*",)) if a0 is not None and a0.k == "A" and a0.order else None
        return None
