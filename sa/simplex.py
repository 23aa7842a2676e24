"""The simplex classes of the mesh healing (Point, Line, Triangle, Tetrahedron): constant tables and symbolic values of their queries."""
import ast
from . import symeval as S
from .rl import canon
from .tok import T, Tok, NONE, is_const, cval

MOD = "bgem.gmsh.heal_mesh"


def classes(ctx):
    """Number of vertices -> shape class, from the constant dictionary (count: class) of the healing module."""
    out = {}
    for m in ctx.prog.mods.values():
        if m.name != MOD:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and type(k.value) is int for k in n.keys) \
                    and all(isinstance(v, ast.Name) and MOD + "." + v.id in ctx.prog.classes for v in n.values):
                for k, v in zip(n.keys, n.values):
                    out[k.value] = ctx.prog.classes[MOD + "." + v.id]
    return out


def table(ctx, c, name):
    """(python value, class, statement) of a constant class attribute."""
    for k in ctx.prog.mro(c)[0]:
        for st in k.node.body:
            tg = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else st.target if isinstance(st, ast.AnnAssign) and st.value else None
            if isinstance(tg, ast.Name) and tg.id == name:
                try:
                    return ast.literal_eval(st.value), k, st
                except ValueError:
                    try:
                        v = st.value
                        if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords:
                            return ast.literal_eval(v.args[0]), k, st
                    except ValueError:
                        pass
                    return None, k, st
    return None


class Cached(S.Unknown):
    """A value stored earlier (see P30); the path computing it is evaluated instead."""


class Shape:
    """Symbolic values of the queries of one simplex with n vertices.

    opaque: None (everything from the coordinates of the vertices), or {query: value} replacing queries."""

    def __init__(self, ctx, cls, n, nodes=None, opaque=None, cache=None):
        self.ctx, self.cls, self.n = ctx, cls, n
        self.nodes = nodes or [[S.sym((i, j)) for j in range(3)] for i in range(n)]
        self.opaque = opaque or {}
        self.memo = {}

    def clsattr(self, c, name):
        t = table(self.ctx, self.ctx.prog.classes.get(c) or self.cls, name)
        if t and t[0] is not None:
            return S.lift(t[0])
        raise S.Unknown("table " + name)

    def get(self, name):
        if name in self.opaque:
            return self.opaque[name]
        if name not in self.memo:
            self.memo[name] = self._get(name)
        v = self.memo[name]
        if isinstance(v, S.Unknown):
            raise v
        return v

    def _get(self, name):
        if name == "nodes":
            return self.nodes
        if name == "dim":
            return S.num(self.n - 1)
        t = table(self.ctx, self.cls, name)
        if t is not None:
            return S.lift(t[0]) if t[0] is not None else S.Unknown(name)
        m = self.ctx.prog.find_method(self.cls, name)
        if m is None and name.startswith("_"):
            return Cached(name)
        if m is None:
            return S.Unknown(name)
        vals, err = [], None
        for o in self.ctx.run(m, keep_conds=True, carry=True, policy=lambda g: "opaque" if getattr(g, "cls", None) and g.name in self.opaque else None):
            if o.flow != "return" or not self.feasible(o):
                continue
            try:
                v = self.eval(o.val)
            except Cached:
                continue
            except S.Unknown as e:
                err = e
                continue
            if v not in vals:
                vals.append(v)
        if len(vals) == 1 and err is None:
            return vals[0]
        return err or S.Unknown(name)

    def feasible(self, o):
        for e in o.events():
            if e.kind != "cond" or not isinstance(e.recv, Tok):
                continue
            t = canon(e.recv)
            want = str(e.name) == "True"
            while t.op == "op" and t.args[0] == "not":
                t, want = canon(t.args[1]), not want
            if t.op == "op" and t.args[0] in ("==", "<", ">", "<=", ">=", "!=") and len(t.args) == 3:
                try:
                    a, b = self.eval(t.args[1]), self.eval(t.args[2])
                except S.Unknown:
                    continue
                if isinstance(a, S.E) and isinstance(b, S.E) and a.is_const() and b.is_const():
                    a, b = a.const(), b.const()
                    r = {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[t.args[0]]
                    if r != want:
                        return False
        return True

    def eval(self, t):
        return S.Ev(attr=self.attr, clsattr=self.clsattr, call=self.call)(t)

    def is_self(self, b):
        b = canon(b)
        return b.op == "param" and b.args[0] == "self"

    def attr(self, b, name, ev):
        if self.is_self(b):
            return self.get(name)
        b = canon(b)
        if b.op in ("new", "call", "pcall"):
            s = self.other(b, ev)
            if s is not None:
                return s.get(name)
        return None

    def other(self, b, ev):
        """The simplex made by a constructor call (nodes from its argument)."""
        if b.op in ("call", "pcall") and isinstance(b.args[0], str) and b.args[0] in self.ctx.prog.classes:
            c = self.ctx.prog.classes[b.args[0]]
            v = ev(b.args[1])
            return Shape(self.ctx, c, len(v), v)
        return None

    def call(self, t, args, ev):
        n = t.args[0]
        if isinstance(n, str) and n in self.ctx.prog.funcs and args and self.is_self(args[0]) and len(args) == 1:
            return self.get(self.ctx.prog.funcs[n].name)
        return None
