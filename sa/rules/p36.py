"""P36: bounding boxes enclose the geometry they are computed for, one box per interval or patch, in the order of their numbers."""
from .. import symeval as S
from ..loader import AnalysisError
from ..rl import bodies, canon, flat, fname, where
from ..symarr import Arr, label, shape
from ..tok import T, Tok, NONE
from .p37 import direction, equal, subs

LEVEL = "other"
TECHNIQUE = "value numbering of box expressions over a table of symbolic poles, index ranges of slices evaluated per interval"
EXPLANATION = ("The corners of every bounding box are expressions of the pole table; over tables of symbolic poles (degrees 1 to 3, both "
               "directions different, with and without weights) they are reduced to extrema of poles and compared with the extrema over "
               "all poles acting on the whole spline, an interval or a patch. The convex hull property of B-splines makes a box of "
               "these poles enclose the geometry.")
BS = "bgem.bspline.bspline."


def run(ctx):
    ctx.rule("whole", "the box of a spline spans the coordinates of all its poles, without weights")
    ctx.rule("pieces", "the box of an interval or a patch spans all poles acting on it, for every interval and patch, in the order of their numbers")
    ctx.rule("numbers", "position of a patch and its number are inverse to each other")
    for cls, sizes in (("Curve", [((1,), (3,)), ((2,), (4,)), ((3,), (5,))]), ("Surface", [((1, 2), (3, 4)), ((2, 1), (4, 2)), ((2, 3), (3, 5)), ((2, 2), (5, 4))])):
        for deg, size in sizes:
            for rational in (False, True):
                sp = Spline(ctx, cls, deg, size, rational)
                sp.whole()
                sp.pieces()
    numbers(ctx)
    zbox(ctx)
    ctx.expect("boxes", 6)


class Spline:
    def __init__(self, ctx, cls, deg, size, rational, dim=2):
        self.ctx, self.cls, self.deg, self.size, self.rational, self.dim = ctx, ctx.prog.cls(BS + cls), deg, size, rational, dim
        n = dim + (1 if rational else 0)
        self.poles = self.table(size, (), n)
        self.name = "%s of degree %s, %s poles%s" % (cls, "x".join(map(str, deg)), "x".join(map(str, size)), ", rational" if rational else "")

    def table(self, size, ix, n):
        if not size:
            return [S.sym(("P",) + ix + (k,)) for k in range(n)]
        return [self.table(size[1:], ix + (i,), n) for i in range(size[0])]

    def attr(self, base, name, ev):
        b = canon(base)
        name = name.rstrip("'")
        if b.op == "param" and b.args[0] == "self":
            return {"poles": self.poles, "dim": S.num(self.dim)}.get(name)
        if name in ("degree", "n_intervals", "size", "order"):
            d = 0
            if len(self.deg) == 2:
                d = direction(b)
            elif not (b.op == "attr" and b.args[1] == "basis"):
                return None
            return S.num({"degree": self.deg[d], "n_intervals": self.size[d] - self.deg[d], "size": self.size[d]}.get(name, self.deg[d]))
        return None

    def call(self, t, args, ev):
        n = t.args[0]
        if isinstance(n, str) and n.split(".")[-1] == "AABB" and args:
            return ev(args[0])
        return None

    def method(self, name):
        m = self.ctx.prog.find_method(self.cls, name)
        if m is None:
            raise AnalysisError("no method %s.%s" % (self.cls.qual, name))
        return m

    def run(self, f):
        c = self.ctx.__dict__.setdefault("_p36", {})
        if f.qual not in c:
            c[f.qual] = list(self.ctx.run(f, keep_conds=True, carry=True, policy=lambda g: "opaque" if g.__class__.__name__ == "Cls" else None))
        return c[f.qual]

    def holds(self, o):
        """Is the path taken for this spline?"""
        for e, lp in flat(o.events()):
            if e.kind != "cond" or e.recv is None:
                continue
            c = canon(e.recv)
            if c.op == "attr" and c.args[1] == "rational" and bool(e.name) != self.rational:
                return False
        return True

    def leaves(self):
        def go(t, d):
            return [t] if d == 0 else [x for r in t for x in go(r, d - 1)]
        return go(self.poles, len(self.size))

    def whole(self):
        f = self.method("aabb")
        pts = self.leaves()
        want = [[S.extremum(k, [p[i] for p in pts]) for i in range(self.dim)] for k in ("min", "max")]
        for o in self.run(f):
            if o.flow != "return" or not self.holds(o):
                continue
            ev = Arr(attr=self.attr, call=self.call)
            for e, lp in flat(o.events()):
                ev.play(e)
            try:
                v = self.result(ev, o)
            except S.OutOfTable:
                self.ctx.bad("whole", fname(f.qual), "the box reads a coordinate out of the pole table (%s)" % self.name, where(f), key="whole:" + self.cls.name)
                continue
            except S.Unknown as x:
                self.ctx.notes.append("%s: not evaluated for %s (%s)" % (fname(f.qual), self.name, x))
                continue
            self.ctx.saw("boxes", self.name)
            self.ctx.check(shape(v) == shape(want) and all(a == b for a, b in zip(S.leaves(v), S.leaves(want))), "whole", fname(f.qual),
                           "corners are the extrema of the coordinates of all poles (%s)" % self.name, where(f), key="whole:" + self.cls.name)

    def result(self, ev, o):
        b = canon(label(o.val))
        return ev.cur[b] if b in ev.cur else ev(label(o.val))

    def piece(self, ix):
        """Poles acting on the interval or patch."""
        t = self.poles[ix[0]:ix[0] + self.deg[0] + 1]
        if len(ix) == 1:
            return t
        return [p for r in t for p in r[ix[1]:ix[1] + self.deg[1] + 1]]

    def pieces(self):
        f = self.method("bounding_boxes")
        ni = [s - d for s, d in zip(self.size, self.deg)]
        order = [(i,) for i in range(ni[0])] if len(ni) == 1 else [(i, j) for i in range(ni[0]) for j in range(ni[1])]
        for o in self.run(f):
            if o.flow != "return" or not self.holds(o):
                continue
            ev = Arr(attr=self.attr, call=self.call)
            try:
                boxes = self.boxes(o, ev)
            except S.OutOfTable:
                self.ctx.bad("pieces", fname(f.qual), "a box reads a pole out of the table (%s)" % self.name, where(f), key="pieces:" + self.cls.name)
                continue
            except S.Unknown as x:
                self.ctx.notes.append("%s: not evaluated for %s (%s)" % (fname(f.qual), self.name, x))
                continue
            self.ctx.saw("boxes", "pieces of " + self.name)
            if not self.ctx.check(len(boxes) == len(order), "pieces", fname(f.qual), "there is one box per interval or patch (%s)" % self.name, where(f),
                                  key="pieces:count:" + self.cls.name):
                continue
            for ix, b in zip(order, boxes):
                have = {tuple(c.key() for c in p) for p in b if S.isarr(p)}
                need = {tuple(c.key() for c in p[:self.dim]) for p in self.piece(ix)}
                flat_ = all(S.isarr(p) and len(p) == self.dim for p in b)
                self.ctx.check(flat_ and need <= have, "pieces", fname(f.qual), "the box of %s spans all poles acting there (%s)" % (ix, self.name), where(f),
                               key="pieces:" + self.cls.name)

    def boxes(self, o, ev):
        add = [e for e, lp in flat(o.events()) if e.kind == "call" and str(e.name).split(".")[-1] == "add_boxes"]
        if len(add) != 1:
            raise S.Unknown("boxes")
        a = canon(add[0].args[-1])
        while a.op == "copyof":
            a = canon(a.args[1])
        if a.op != "list" or len(a.args) > 1:
            return ev(label(add[0].args[-1]))
        out = []
        self.walk(o.events(), ev, a, out)
        return out

    def walk(self, evs, ev, lst, out):
        for e in evs:
            ev.play(e)
            if e.kind == "mut" and canon(e.recv) is lst:
                if e.name != "append":
                    raise S.Unknown("list")
                out.append(ev(label(e.args[0])))
            elif e.kind == "setitem" and e.recv is not None and canon(e.recv) is lst:
                raise S.Unknown("list")
            elif e.kind == "loop" and e.recv is not None:
                coll = canon(e.recv)
                bs = [b for b, fl in bodies(e) if fl in ("next", "continue")]
                if not any(canon(w.recv) is lst for b in bs for w in deep(b) if w.kind == "mut" and w.recv is not None):
                    continue
                if len(bs) != 1:
                    raise S.Unknown("branches")
                for k in range(ev.length(coll)):
                    saved = dict(ev.env)
                    ev.bind(T("elem", coll, T("v0")), coll, k)
                    self.pairs(coll, ev, k)
                    self.walk(bs[0], ev, lst, out)
                    ev.env = saved

    def pairs(self, coll, ev, k):
        """Elements of a product of ranges."""
        if coll.op in ("pcall", "call") and str(coll.args[0]).split(".")[-1] in ("product", "ndindex"):
            raise S.Unknown("product")


def deep(evs):
    for e in evs:
        yield e
        if e.kind == "loop":
            for b, fl in bodies(e):
                yield from deep(b)


def numbers(ctx):
    c = ctx.prog.cls(BS + "Surface")
    to, fro = ctx.prog.find_method(c, "patch_pos2id"), ctx.prog.find_method(c, "patch_id2pos")
    if to is None or fro is None:
        raise AnalysisError("no numbering of patches")
    nu, nv = 2, 3

    def attr(base, name, ev):
        if name.rstrip("'") == "n_intervals":
            return S.num((nu, nv)[direction(base)])
        return None

    def call(t, args, ev):
        n = t.args[0]
        m = n.split(".")[-1] if isinstance(n, str) else ""
        if m in ("floor", "int", "trunc", "divmod", "ceil") and args:
            xs = [ev(a) for a in args if a.op != "kw"]
            if not all(isinstance(x, S.E) and x.is_const() for x in xs):
                raise S.Unknown(m)
            q = xs[0].const()
            if m == "divmod":
                return [S.num(q // xs[1].const()), S.num(q % xs[1].const())]
            return S.num(-((-q) // 1) if m == "ceil" else q // 1)
        if n == "op//":
            return None
        return None

    def val(f, *xs):
        par = [p for p in f.pos_params() if p != "self"]
        for o in ctx.run(f, keep_conds=True, carry=True):
            if o.flow == "return":
                ev = Floor(attr=attr, call=call, param=lambda n: S.num(xs[par.index(n)]) if n in par else None)
                return ev(label(o.val))
        raise S.Unknown("value")
    try:
        ids = {}
        for i in range(nu):
            for j in range(nv):
                k = S.idx(val(to, i, j))
                ids[i, j] = k
                p = val(fro, k)
                ctx.check([S.idx(x) for x in p] == [i, j], "numbers", fname(fro.qual), "the number of patch (%d, %d) gives its position back" % (i, j), where(fro),
                          key="numbers:inverse")
        ctx.saw("numbering", "patches")
        ctx.check(sorted(ids.values()) == list(range(nu * nv)), "numbers", fname(to.qual), "patches have numbers 0, 1, ... without gaps", where(to), key="numbers:range")
        ctx.check([ids[i, j] for i in range(nu) for j in range(nv)] == list(range(nu * nv)), "numbers", fname(to.qual),
                  "numbers follow the order of the boxes", where(to), key="numbers:order")
    except S.Unknown as x:
        ctx.notes.append("numbering of patches not evaluated (%s)" % x)


class Floor(Arr):
    def op(self, a):
        if a[0] in ("//", "%") and len(a) == 3:
            x, y = self(a[1]), self(a[2])
            if isinstance(x, S.E) and isinstance(y, S.E) and x.is_const() and y.is_const() and y.const():
                q = x.const() // y.const()
                return S.num(q) if a[0] == "//" else S.num(x.const() - q * y.const())
        return super().op(a)


def zbox(ctx):
    """XY part of the box of a Z surface spans its quad; the box of the grid surface is that of its Z surface."""
    c = ctx.prog.cls(BS + "Z_Surface")
    f = ctx.prog.find_method(c, "aabb")
    if f is None:
        raise AnalysisError("no Z_Surface.aabb")
    quad = [[S.sym(("Q", i, k)) for k in range(2)] for i in range(4)]
    z = [S.sym(("zmin",)), S.sym(("zmax",))]
    want = [[S.extremum(k, [q[i] for q in quad]) for i in range(2)] for k in ("min", "max")]

    def attr(base, name, ev):
        b = canon(base)
        if b.op == "param":
            return {"quad": quad, "_z_mat": [S.sym(("S",)), S.sym(("T",))]}.get(name.rstrip("'"))
        return None

    def call(t, args, ev):
        n = t.args[0]
        m = n.split(".")[-1] if isinstance(n, str) else ""
        if m == "aabb":
            return [[S.sym(("zbox", i, k)) for k in range(1)] for i in range(2)]
        if m in ("empty", "empty_like"):
            return [[S.sym(("unset", i, k)) for k in range(3)] for i in range(2)]
        if m in ("sort", "sorted"):
            x = ev(args[0])
            if S.depth(x) == 1 and len(x) == 2:
                return [S.extremum("min", x), S.extremum("max", x)]
        return None
    for o in ctx.run(f, keep_conds=True, carry=True, policy=lambda g: "opaque" if g.__class__.__name__ == "Cls" or g.name == "aabb" and g.qual != f.qual else None):
        if o.flow != "return":
            continue
        ev = Arr(attr=attr, call=call)
        for e, lp in flat(o.events()):
            ev.play(e)
        try:
            b = canon(label(o.val))
            v = ev.cur[b] if b in ev.cur else ev(label(o.val))
            got = [r[:2] for r in v]
            ctx.saw("boxes", "Z surface")
            ctx.check(shape(got) == [2, 2] and all(a == b for a, b in zip(S.leaves(got), S.leaves(want))), "whole", fname(f.qual),
                      "the XY part of the box spans the quad", where(f), key="whole:Z_Surface")
        except S.Unknown as x:
            ctx.notes.append("box of the Z surface not evaluated (%s)" % x)
