"""P40: CAD shapes and transforms have the requested dimensions, position and order."""
from .. import symeval as S
from ..loader import AnalysisError
from ..rl import bodies, canon, flat, fname, where
from ..symarr import Arr, label
from ..tok import T, Tok, NONE, is_const, cval, subtoks

LEVEL = "other"
TECHNIQUE = "value numbering of the arguments of CAD calls in the domain of rational functions of symbolic parameters; the shapes are compared as symbolic boundary graphs"
EXPLANATION = ("On every path of the shape constructors and transforms of the CAD wrapper the arguments of the CAD calls are evaluated to normal "
               "forms over the parameters of the method, under the positions and names the CAD interface gives them. Points, lines, loops and "
               "faces are kept symbolically, so that the boundary of a polygon is compared with the cycle of the given points.")
G = "bgem.gmsh.gmsh.GeometryOCC."
O = "bgem.gmsh.gmsh.ObjectSet."
SIG = {"addPoint": ("x", "y", "z", "meshSize", "tag"), "addLine": ("a", "b", "tag"), "addCurveLoop": ("curves", "tag"),
       "addPlaneSurface": ("wires", "tag"), "addRectangle": ("x", "y", "z", "dx", "dy", "tag", "roundedRadius"),
       "addBox": ("x", "y", "z", "dx", "dy", "dz", "tag"), "addCylinder": ("x", "y", "z", "dx", "dy", "dz", "r", "tag", "angle"),
       "translate": ("dimTags", "dx", "dy", "dz"), "rotate": ("dimTags", "x", "y", "z", "ax", "ay", "az", "angle"),
       "dilate": ("dimTags", "x", "y", "z", "a", "b", "c"), "setSize": ("dimTags", "size")}
KW = {"startTag": "a", "endTag": "b", "curveTags": "curves", "wireTags": "wires"}
one = S.num(1)
half = S.num(S.Fraction(1, 2))


def run(ctx):
    ctx.rule("centered", "a rectangle or box has the given sides and its middle in the given centre")
    ctx.rule("cylinder", "a cylinder has the given base centre, axis and radius")
    ctx.rule("polygon", "the boundary of a polygon is the cycle through the given points in their order, each point with its mesh step")
    ctx.rule("dimension", "a made shape is entered with its own dimension")
    ctx.rule("transform", "translation, rotation and scaling of a set use its own entities and the given vector, centre, axis, angle and factors")
    ctx.rule("fractures", "a fracture is the base shape scaled by its radii, then rotated, then moved to its centre, with its region")
    ctx.rule("mass", "the centre of mass is the sum of centres weighted by masses over the total mass")
    ctx.rule("step", "the mesh step is set to the points of the recursive boundary of the set")
    centered(ctx)
    cylinder(ctx)
    polygon(ctx)
    rectangle_tag(ctx)
    transforms(ctx)
    fractures(ctx)
    mass(ctx)
    step(ctx)
    ctx.expect("CAD calls", 4)


class Cad(Arr):
    """Evaluator in which points, lines, loops and faces are symbols carrying what they were made of."""

    def __init__(self, par, **k):
        super().__init__(param=lambda n: par.get(n), call=self.made, **k)

    def __call__(self, t):
        t = canon(t)
        if t in self.cur:
            return self.cur[t]
        return super().__call__(t)

    def made(self, t, args, ev):
        n = t.args[0]
        m = n.split(".")[-1].rstrip("'") if isinstance(n, str) else None
        if n == "numpy.full" and len(args) == 2:
            k, v = self(args[0]), self(args[1])
            if S.isarr(k):
                if len(k) != 1:
                    return None
                k = k[0]
            return [v] * S.idx(k)
        if m in ("addPoint", "addLine", "addCurveLoop", "addPlaneSurface"):
            b = self.bindings(m, args[1:])
            key = tuple((k, hashable(b[k])) for k in SIG[m] if k in b and k != "tag")
            return S.sym((m, key))
        return None

    def op(self, a):
        if a[0] == "+" and len(a) == 3:
            x, y = self(a[1]), self(a[2])
            if S.isarr(x) and S.isarr(y) and (len(x) != len(y) or x and handle(x[0]) or y and handle(y[0])):
                return list(x) + list(y)
        return super().op(a)

    def bindings(self, m, args):
        out, pos = {}, []
        for x in args:
            if not isinstance(x, Tok):
                continue
            if x.op == "kw":
                out[KW.get(x.args[0], x.args[0])] = self(x.args[1])
            elif x.op == "star":
                pos += list(self(x.args[0]))
            else:
                try:
                    pos.append(self(x))
                except S.Unknown:
                    pos.append(canon(x))
        if len(pos) > len(SIG[m]):
            raise S.OutOfTable("too many arguments")
        out.update(zip(SIG[m], pos))
        return out

    def play(self, e):
        if e.kind == "mut" and e.recv is not None and e.name in ("append", "insert", "extend"):
            b = canon(e.recv)
            try:
                a = list(self(b))
                if e.name == "append":
                    a.append(self(e.args[0]))
                elif e.name == "extend":
                    a += list(self(e.args[0]))
                else:
                    a.insert(S.idx(self(e.args[0])), self(e.args[1]))
                self.cur[b] = a
            except S.Unknown:
                self.cur.pop(b, None)
            return
        super().play(e)


def handle(v):
    return name_of(v) is not None


def name_of(v):
    """(kind, made of) of a handle symbol."""
    if isinstance(v, S.E) and len(v.t) == 1:
        (m, c), = v.t.items()
        if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple):
            a = m[0][0]
            for x in (a, a[1:] if len(a) > 1 else None, a[-1] if a else None):
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0].startswith("add"):
                    return x[0], dict(x[1])
    return None


def hashable(v):
    return tuple(hashable(x) for x in v) if S.isarr(v) else v


def vec(n, name):
    return [S.sym((name, k)) for k in range(n)]


def opaque(g):
    if g.__class__.__name__ == "Cls":
        return "opaque"
    return None


def paths(ctx, q, par, **kw):
    """(path, evaluator after its events, CAD calls) for the feasible paths of a method."""
    if q not in ctx.prog.funcs:
        raise AnalysisError("no function " + q)
    f = ctx.prog.func(q)
    ctx.saw("functions", fname(f.qual))
    names = [p for p in f.all_params() if p not in ("self", "cls")] if hasattr(f, "all_params") else []
    env = {n: v for n, v in zip(names, par) if v is not None}
    gone = {n for n, v in zip(names, par) if v is None}
    for o in ctx.run(f, keep_conds=True, carry=True, policy=opaque, **kw):
        if o.flow != "return":
            continue
        ev = Cad(env)
        ok, cad = True, []
        for e, lp in flat(o.events()):
            if e.kind == "cond" and e.recv is not None:
                t = truth(canon(e.recv), env, gone, ev)
                if t is not None and t != bool(e.name):
                    ok = False
                    break
            ev.play(e)
            if e.kind == "call" and isinstance(e.name, str) and e.name.split(".")[-1] in SIG:
                cad.append((e, e.name.split(".")[-1], lp))
        if ok:
            yield f, o, ev, cad


def truth(c, env, gone, ev):
    if c.op == "not":
        t = truth(canon(c.args[0]), env, gone, ev)
        return None if t is None else not t
    if c.op == "op" and c.args[0] in ("is", "is not", "==", "!="):
        pos = c.args[0] in ("is", "==")
        a, b = canon(c.args[1]), canon(c.args[2])
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if y.op == "param" and (y.args[0] in env or y.args[0] in gone):
                    return (y.args[0] in gone) == pos
                if is_const(y):
                    return (cval(y) is None) == pos
            if y.op == "typeof" and "float" in repr(x):
                z = canon(y.args[0])
                if is_const(z):
                    return isinstance(cval(z), float) == pos
                if z.op == "param" and z.args[0] in env:
                    return (not S.isarr(env[z.args[0]])) == pos
    if c.op == "pcall" and c.args[0] == "builtins.isinstance":
        z = canon(c.args[1])
        if z.op == "param" and z.args[0] in env and "float" in repr(c.args[2]):
            return not S.isarr(env[z.args[0]])
        if is_const(z) and "float" in repr(c.args[2]):
            return isinstance(cval(z), (float, int))
    return None


def same(a, b):
    if S.isarr(a) != S.isarr(b):
        return False
    if S.isarr(a):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return isinstance(a, S.E) and S.zero(S.add(a, b, -1))


def picked(b, keys):
    return [b[k] for k in keys]


def quiet(ctx, f, x):
    ctx.notes.append("%s: not evaluated (%s)" % (fname(f.qual), x))


def entered(ctx, f, o, dim):
    """The returned set was created from (dim, tag)."""
    for e, lp in flat(o.events()):
        if e.kind == "new" and str(e.name).endswith("ObjectSet") and len(e.args) > 1:
            t = canon(e.args[1])
            if t.op == "list" and len(t.args) == 2:
                p = canon(t.args[1])
                if p.op == "tuple" and len(p.args) == 2 and is_const(canon(p.args[0])):
                    ctx.check(cval(canon(p.args[0])) == dim, "dimension", fname(f.qual), "the shape is entered as dimension %s" % cval(canon(p.args[0])),
                              where(f))


def centered(ctx):
    for name, call, dim, sides in (("rectangle", "addRectangle", 2, vec(2, "side")), ("box", "addBox", 3, vec(3, "side"))):
        centre = vec(3, "centre")
        for f, o, ev, cad in paths(ctx, G + name, [sides, centre]):
            entered(ctx, f, o, dim)
            for e, m, lp in cad:
                if m != call:
                    continue
                try:
                    b = ev.bindings(m, e.args)
                    ext = picked(b, ("dx", "dy", "dz")[:dim])
                    low = picked(b, ("x", "y", "z"))
                    ctx.saw("CAD calls", fname(f.qual))
                    ctx.check(same(ext, sides), "centered", fname(f.qual) + ":sides", "the extents are not the given sides", where(f))
                    mid = [S.add(c, S.mul(half, ext[k]) if k < dim else S.num(0)) for k, c in enumerate(low)]
                    ctx.check(same(mid, centre), "centered", fname(f.qual) + ":centre", "the middle of the shape is not the given centre", where(f))
                except S.OutOfTable as x:
                    ctx.bad("centered", fname(f.qual), "arguments out of range: %s" % x, where(f))
                except (S.Unknown, KeyError) as x:
                    quiet(ctx, f, x)


def cylinder(ctx):
    r, axis, centre = S.sym(("radius",)), vec(3, "axis"), vec(3, "centre")
    for f, o, ev, cad in paths(ctx, G + "cylinder", [r, axis, centre]):
        entered(ctx, f, o, 3)
        for e, m, lp in cad:
            if m != "addCylinder":
                continue
            try:
                b = ev.bindings(m, e.args)
                got = picked(b, SIG[m][:7])
                ctx.saw("CAD calls", fname(f.qual))
                ctx.check(same(got, centre + axis + [r]), "cylinder", fname(f.qual), "centre, axis and radius are not the given ones", where(f))
            except (S.Unknown, KeyError) as x:
                quiet(ctx, f, x)


def face_tag(t):
    """Token of the face in a returned value or in the entered (dim, tag)."""
    t = canon(t)
    for x in [t] + [canon(y) for y in subtoks(t)]:
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[-1] == "addPlaneSurface":
            return x
    return None


def cycle(ctx, f, ev, tok, rule):
    """The cycle of points of the face as a list of handles, or None after a reported violation."""
    face = name_of(ev(tok))
    wires = face[1].get("wires") if face else None
    if not wires or len(wires) != 1:
        raise S.Unknown("face")
    loop = name_of(wires[0])
    curves = loop[1].get("curves") if loop else None
    if not curves:
        raise S.Unknown("loop")
    ends = []
    for c in curves:
        n = name_of(c)
        if not n or n[0] != "addLine":
            raise S.Unknown("line")
        ends.append((n[1]["a"], n[1]["b"]))
    # orientation of each line is free: chain them
    for first in (0, 1):
        chain = [ends[0][first]]
        cur = ends[0][1 - first]
        for a, b in ends[1:]:
            chain.append(cur)
            if a == cur:
                cur = b
            elif b == cur:
                cur = a
            else:
                chain = None
                break
        if chain and cur == chain[0]:
            return chain
    ctx.bad(rule, fname(f.qual) + ":closed", "the lines of the loop do not make a closed cycle in their order", where(f))
    return None


def polygon(ctx):
    q = G + "make_polygon"
    for n in (3, 4, 5):
        pts = [vec(3, ("point", i)) for i in range(n)]
        for steps in (None, S.sym(("step",)), [S.sym(("step", i)) for i in range(n)]):
            want = [S.num(0)] * n if steps is None else steps if S.isarr(steps) else [steps] * n
            for f, o, ev, cad in paths(ctx, q, [pts, steps]):
                entered(ctx, f, o, 2)
                try:
                    tok = None
                    for e, lp in flat(o.events()):
                        if e.kind == "new" and str(e.name).endswith("ObjectSet"):
                            tok = face_tag(e.args[1])
                    if tok is None:
                        raise S.Unknown("no face")
                    chain = cycle(ctx, f, ev, tok, "polygon")
                    if chain is None:
                        continue
                    ctx.saw("CAD calls", fname(f.qual))
                    made = [name_of(p)[1] for p in chain]
                    coords = [[p["x"], p["y"], p["z"]] for p in made]
                    ks = next((k for k in range(n) if len(coords) == n and same(coords[k], pts[0])), None)
                    orders = [] if ks is None else [[(ks + s * i) % n for i in range(n)] for s in (1, -1)]
                    order = next((d for d in orders if same([coords[i] for i in d], pts)), None)
                    ctx.check(order is not None, "polygon", fname(f.qual) + ":points", "the boundary is not the cycle through the given points", where(f))
                    if order is not None:
                        ctx.check(same([made[i].get("meshSize", S.num(0)) for i in order], want), "polygon", fname(f.qual) + ":step",
                                  "the points do not get their own mesh steps", where(f))
                except S.OutOfTable as x:
                    ctx.bad("polygon", fname(f.qual), "arguments out of range: %s" % x, where(f))
                except (S.Unknown, KeyError, TypeError) as x:
                    quiet(ctx, f, x)


def rectangle_tag(ctx):
    q = G + "make_rectangle"
    if q not in ctx.prog.funcs:
        return
    scale = vec(3, "scale")
    for f, o, ev, cad in paths(ctx, q, [scale]):
        try:
            tok = face_tag(o.val) if o.val is not None else None
            if tok is None:
                raise S.Unknown("no face")
            chain = cycle(ctx, f, ev, tok, "polygon")
            if chain is None:
                continue
            ctx.saw("CAD calls", fname(f.qual))
            made = [name_of(p)[1] for p in chain]
            co = [[p["x"], p["y"], p["z"]] for p in made]
            ok = len(co) == 4 and all(sum(not same(a, b) for a, b in zip(co[i], co[i - 1])) == 1 for i in range(4))
            ctx.check(ok, "polygon", fname(f.qual) + ":crossing", "neighbouring corners of the rectangle differ in more than one coordinate", where(f))
        except (S.Unknown, KeyError, TypeError) as x:
            quiet(ctx, f, x)


def own_tags(t):
    t = canon(t) if isinstance(t, Tok) else None
    return t is not None and t.op == "attr" and t.args[1] == "dim_tags" and canon(t.args[0]) is canon(T("param", "self"))


def transforms(ctx):
    a, c, x, s = vec(3, "axis"), vec(3, "centre"), vec(3, "vector"), S.sym(("angle",))
    for name, call, par, want in (("translate", "translate", [x], x), ("rotate", "rotate", [a, s, c], c + a + [s]), ("scale", "dilate", [x, c], c + x)):
        for f, o, ev, cad in paths(ctx, O + name, par):
            mine = [(e, m) for e, m, lp in cad if m in ("translate", "rotate", "dilate")]
            if not ctx.check([m for e, m in mine] == [call], "transform", fname(f.qual) + ":call", "the transform is not carried out exactly once", where(f)):
                continue
            for e, m in mine:
                try:
                    b = ev.bindings(m, e.args)
                    got = picked(b, SIG[m][1:])
                    ctx.saw("CAD calls", fname(f.qual))
                    ctx.check(same(got, want), "transform", fname(f.qual), "the transform is not the given one", where(f))
                    ctx.check(not isinstance(b["dimTags"], Tok) or b["dimTags"].op != "attr" or own_tags(b["dimTags"]), "transform",
                              fname(f.qual) + ":entities", "other entities are transformed", where(f))
                except S.OutOfTable as x:
                    ctx.bad("transform", fname(f.qual), "arguments out of range: %s" % x, where(f))
                except (S.Unknown, KeyError) as x:
                    quiet(ctx, f, x)


def fractures(ctx):
    q = G + "make_fractures"
    if q not in ctx.prog.funcs:
        return
    f = ctx.prog.func(q)
    ctx.saw("functions", fname(f.qual))
    ops = ("scale", "rotate", "translate", "set_region", "copy")

    def pol(g):
        if g.__class__.__name__ == "Cls" or getattr(g, "name", None) in ops + ("fragment",):
            return "opaque"
    for o in ctx.run(f, keep_conds=True, policy=pol):
        if o.flow != "return":
            continue
        for e in o.events():
            if e.kind != "loop":
                continue
            for evs, fl in bodies(e):
                seq = [(x.name.split(".")[-1], x) for x, lp in flat(evs) if x.kind == "call" and isinstance(x.name, str) and x.name.split(".")[-1] in ops]
                names = [n for n, x in seq if n in ("scale", "rotate", "translate")]
                if not names:
                    continue
                ctx.saw("CAD calls", fname(f.qual))
                ctx.check(names == ["scale", "rotate", "translate"], "fractures", fname(f.qual) + ":order",
                          "the order of transforms is %s" % ", ".join(names), where(f))
                for n, x in seq:
                    used = {t.args[1] for a in x.args or [] if isinstance(a, Tok) for t in subtoks(canon(a)) if t.op == "attr" and isinstance(t.args[1], str)}
                    used |= {canon(a).args[1] for a in x.args or [] if isinstance(a, Tok) and canon(a).op == "attr"}
                    want = {"scale": {"rx", "ry"}, "rotate": {"rotation_axis", "rotation_angle"}, "translate": {"centre"}, "set_region": {"region"}}.get(n)
                    if want:
                        ctx.check(want <= used, "fractures", fname(f.qual) + ":" + n, "%s does not use %s of the fracture" % (n, sorted(want)), where(f))
                    if n == "scale" and x.args:
                        ls = [canon(a.args[1]) if a.op == "kw" else a for a in map(canon, x.args) if isinstance(a, Tok)]
                        for l in [a for a in ls if a.op in ("list", "tuple")][:1]:
                            it = [canon(y) for y in (l.args[1:] if l.op == "list" else l.args)]
                            names3 = [y.args[1] if y.op == "attr" else cval(y) if is_const(y) else None for y in it]
                            if None not in names3 and len(names3) == 3:
                                ctx.check(names3[:2] == ["rx", "ry"] and names3[2] == 1, "fractures", fname(f.qual) + ":factors",
                                          "the factors are %s" % names3, where(f))


def mass(ctx):
    q = O + "center_of_mass"
    f = ctx.prog.func(q)
    ctx.saw("functions", fname(f.qual))
    m, c = S.sym(("m",)), vec(3, "c")

    def call(t, args, ev):
        n = t.args[0]
        if isinstance(n, str) and n.endswith("getMass"):
            return m
        if isinstance(n, str) and n.endswith("getCenterOfMass"):
            return c
        return None
    for o in ctx.run(f, keep_conds=True, carry=True):
        if o.flow != "return" or o.val is None:
            continue
        v = canon(o.val)
        if v.op != "tuple" or len(v.args) != 2:
            continue
        q0, tot = canon(v.args[0]), canon(v.args[1])
        if is_const(tot):
            continue
        steps = {}
        for e in o.events():
            if e.kind != "loop":
                continue
            for evs, fl in bodies(e):
                for x, lp in flat(evs):
                    if x.kind == "aug" and x.recv is not None:
                        steps[canon(x.recv)] = (x.name, x.args[0])
                    if x.kind == "carry":
                        for a, b in zip(x.args[::2], x.args[1::2]):
                            a, b = canon(a), canon(b)
                            if b.op in ("op", "aug") and b.args[0] == "+":
                                r = [y for y in b.args[1:3] if canon(y) is not a]
                                if len(r) == 1:
                                    steps[a] = ("+", r[0])
        if tot.op != "lphi" or q0.op != "op" or q0.args[0] != "/":
            ctx.notes.append("%s: not evaluated" % fname(f.qual))
            continue
        num, den = canon(q0.args[1]), canon(q0.args[2])
        ctx.check(den is tot, "mass", fname(f.qual) + ":total", "the weighted sum is not divided by the returned total mass", where(f))
        for t, want, key in ((num, [S.mul(m, x) for x in c], "sum"), (tot, m, "masses")):
            if t not in steps:
                ctx.notes.append("%s: no step of %s" % (fname(f.qual), key))
                continue
            op, val = steps[t]
            ev = Arr(call=call)
            try:
                got = ev(label(val))
            except S.Unknown as x:
                quiet(ctx, f, x)
                continue
            ctx.saw("CAD calls", fname(f.qual))
            ctx.check(op == "+" and same(got, want), "mass", fname(f.qual) + ":" + key,
                      "an entity does not contribute its %s" % ("centre times its mass" if key == "sum" else "mass"), where(f))


def step(ctx):
    q = O + "set_mesh_step"
    f = ctx.prog.func(q)
    ctx.saw("functions", fname(f.qual))
    p = [x for x in f.pos_params() if x != "self"][0]
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        sizes = [e for e, lp in flat(o.events()) if e.kind == "call" and isinstance(e.name, str) and e.name.endswith("setSize")]
        if not ctx.check(len(sizes) == 1, "step", fname(f.qual), "the mesh step is not set once", where(f)):
            continue
        ctx.saw("CAD calls", fname(f.qual))
        a = [canon(x) for x in sizes[0].args if isinstance(x, Tok)]
        pos = [x for x in a if x.op != "kw"]
        kw = {x.args[0]: canon(x.args[1]) for x in a if x.op == "kw"}
        dt = kw.get("dimTags", pos[0] if pos else None)
        sz = kw.get("size", pos[1] if len(pos) > 1 else None)
        ctx.check(sz is canon(T("param", p)), "step", fname(f.qual) + ":size", "another size than the given step is set", where(f))
        if dt is None:
            continue
        b = [t for t in [dt] + list(subtoks(dt)) if t.op == "call" and isinstance(t.args[0], str) and t.args[0].endswith("getBoundary")]
        if not b:
            ctx.notes.append("%s: points not recognised" % fname(f.qual))
            continue
        opts = {x.args[0]: canon(x.args[1]) for x in b[0].args[1:] if isinstance(x, Tok) and x.op == "kw"}
        if "recursive" in opts or not any(is_const(canon(x)) for x in b[0].args[1:] if isinstance(x, Tok) and x.op not in ("kw",)):
            r = opts.get("recursive")
            ctx.check(r is not None and is_const(r) and bool(cval(r)), "step", fname(f.qual) + ":recursive", "the boundary is not taken down to points", where(f))
        if "combined" in opts:
            ctx.check(is_const(opts["combined"]) and not cval(opts["combined"]), "step", fname(f.qual) + ":combined",
                      "points inside of the set are left out", where(f))
        own = [x for x in b[0].args[1:] if isinstance(x, Tok) and canon(x).op == "attr" and canon(x).args[1] == "dim_tags"]
        ctx.check(bool(own) and own_tags(own[0]), "step", fname(f.qual) + ":entities", "the step is not set for the entities of the set", where(f))
