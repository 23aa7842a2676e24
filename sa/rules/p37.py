"""P37: ready-made lines, planes and bilinear patches pass through the given points; the UV <-> XY maps agree with their quad."""
from .. import symeval as S
from ..loader import AnalysisError
from ..rl import bodies, canon, flat, fname, where
from ..symarr import Arr, label, shape
from ..tok import T, Tok, NONE, is_const, cval

LEVEL = "other"
TECHNIQUE = "value numbering of the pole tables and maps in the domain of rational functions of symbolic points and parameters, compared as polynomials with the interpolating map"
EXPLANATION = ("The poles and knots given to the spline constructed by every ready-made geometry function are extracted on every path as "
               "expressions of the given points; the polynomial map they define is compared, identically in the parameters and the "
               "points, with the affine or bilinear map through the points. The fields written by the XY map of the Z surface and by its "
               "transform are treated in the same way: corners, inverse and the composition with the given transform.")
WR = "bgem.bspline.brep_writer."
BA = "bgem.bspline.bspline_approx."
ZS = "bgem.bspline.bspline.Z_Surface"
# function, number of points, may the space between the points be extended
MADE = [(WR + "Approx.plane", 3), (WR + "Approx.bilinear", 4), (WR + "Approx.line_2d", 2), (WR + "Approx.line_3d", 2),
        (BA + "plane_surface", 3), (BA + "bilinear_surface", 4), (BA + "line", 2)]
CORNERS = [(0, 0), (1, 0), (1, 1), (0, 1)]
QUAD = [(0, 1), (0, 0), (1, 0), (1, 1)]
u, v, h = S.sym(("u",)), S.sym(("v",)), S.sym(("overhang",))
one = S.num(1)


def run(ctx):
    ctx.rule("through", "the map defined by poles and knots is the affine or bilinear map through the given points, in the documented directions")
    ctx.rule("params", "the parameters returned for the given points are those where the spline passes through them")
    ctx.rule("map", "the map of the surface takes the corners of the UV square to its quad, the inverse map takes them back")
    ctx.rule("compose", "a transformed map is the transform about the centre applied after the original map, together with the quad")
    ctx.rule("full", "poles of the full surface are the XY map at the linear poles and the transformed Z poles")
    for q, n in MADE:
        made(ctx, q, n)
    maps(ctx)
    transform(ctx)
    full(ctx)
    ctx.expect("splines", 9)
    ctx.expect("maps", 3)


def opaque_classes(g):
    return "opaque" if g.__class__.__name__ == "Cls" else None


def bilinear(pts, x, y):
    """Bilinear map through the points at CORNERS."""
    w = [S.mul(S.add(one, x, -1), S.add(one, y, -1)), S.mul(x, S.add(one, y, -1)), S.mul(x, y), S.mul(S.add(one, x, -1), y)]
    return [S.total(S.mul(a, p[k]) for a, p in zip(w, pts)) for k in range(len(pts[0]))]


def points(n, dim):
    return [[S.sym(("X", i, k)) for k in range(dim)] for i in range(n)]


def knots_of(ev, t, p):
    """(start, end) of a knot vector with one interval, packed or plain; None when it is of another kind."""
    k = ev(t)
    if not S.isarr(k) or not k:
        raise S.Unknown("knots")
    if S.isarr(k[0]):
        k = [x[0] for x in k for _ in range(S.idx(x[1]))]
    if len(k) != 2 * (p + 1):
        return None
    a, b = k[0], k[-1]
    if any(not S.zero(S.add(x, a, -1)) for x in k[:p + 1]) or any(not S.zero(S.add(x, b, -1)) for x in k[p + 1:]):
        return None
    return a, b


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def bernstein(p, x, a, b):
    w = S.power(S.add(b, a, -1), -p)
    return [S.mul(S.num(binom(p, i)), S.mul(w, S.mul(S.power(S.add(x, a, -1), i), S.power(S.add(b, x, -1), p - i)))) for i in range(p + 1)]


def ipow(e, n):
    return S.power(e, n)


def made(ctx, q, n):
    if q not in ctx.prog.funcs:
        raise AnalysisError("no function " + q)
    f = ctx.prog.func(q)
    ctx.saw("functions", fname(f.qual))
    dims = (2, 3) if n == 2 else (3,)
    if q.endswith("line_2d"):
        dims = (2,)
    par = [p for p in f.pos_params() if p not in ("cls", "self")]
    found = False
    for o in ctx.run(f, keep_conds=True, carry=True, policy=opaque_classes):
        if o.flow != "return":
            continue
        for dim in dims:
            pts = points(n, dim)
            news = []

            def param(name):
                return pts if name == par[0] else h if len(par) > 1 and name == par[1] else None
            ev = Arr(param=param)
            ext = True
            for e, lp in flat(o.events()):
                if e.kind == "cond" and e.recv is not None and len(par) > 1 and no_extension(canon(e.recv), bool(e.name), T("param", par[1])):
                    ext = False
                ev.play(e)
                if e.kind == "new":
                    news.append((e, dict(ev.cur)))
            if not ext:
                ev.param = lambda name, p=param: S.num(0) if len(par) > 1 and name == par[1] else p(name)
            bases = {}
            for e, cur in news:
                c = str(e.name).split(".")[-1]
                ev.cur = cur
                try:
                    if c == "SplineBasis":
                        bases[e.res if e.res is not None else e] = (S.idx(ev(label(e.args[0]))), e.args[1])
                    elif c in ("Surface", "Curve", "Curve2D", "Curve3D"):
                        found |= spline(ctx, f, e, c, ev, bases, pts, n, o, ext)
                except S.Unknown as x:
                    ctx.notes.append("%s: not evaluated (%s)" % (fname(f.qual), x))
    if not found:
        ctx.notes.append("no spline recognised in " + fname(f.qual))


def no_extension(c, truth, over):
    """Does the branch tell that there is no overhang?  (It is not negative.)"""
    if c is over:
        return not truth
    if c.op == "not":
        return no_extension(canon(c.args[0]), not truth, over)
    if c.op != "op" or len(c.args) != 3 or over not in c.args[1:]:
        return False
    x = [a for a in c.args[1:] if a is not over]
    if len(x) != 1 or not is_const(x[0]) or cval(x[0]) != 0:
        return False
    if c.args[0] in ("==", "!="):
        return truth == (c.args[0] == "==")
    left = c.args[1] is over
    op = c.args[0] if not left else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(c.args[0])
    # op reads: 0 op overhang
    return op == "<" and not truth or op == ">=" and truth


def basis_knots(ev, t, bases, p):
    t = canon(t)
    for k, (deg, kn) in bases.items():
        if isinstance(k, Tok) and canon(k) is t:
            return knots_of(ev, label(kn), p) if deg == p else None
    return knots_of(ev, label(t), p)


def spline(ctx, f, e, c, ev, bases, pts, n, o, ext):
    own = "brep_writer" in str(e.name)
    poles_t, knots_t = (e.args[0], e.args[1]) if own else (e.args[1], e.args[0])
    poles = ev(label(poles_t))
    surf = c == "Surface"
    d = shape(poles)
    if len(d) != (3 if surf else 2):
        raise S.Unknown("poles")
    kt = canon(knots_t)
    parts = list(kt.args) if kt.op == "tuple" else list(kt.args[1:]) if kt.op == "list" and surf else [kt]
    if surf:
        raw = knots_t.args if knots_t.op == "tuple" else knots_t.args[1:]
        if len(raw) != 2:
            raise S.Unknown("knots")
        kn = [basis_knots(ev, raw[i], bases, d[i] - 1) for i in (0, 1)]
    else:
        kn = [basis_knots(ev, knots_t, bases, d[0] - 1)]
    ctx.saw("splines", fname(f.qual) + (" with overhang" if ext and "overhang" in f.all_params() else "") + " in %dD" % d[-1])
    where_ = where(f)
    if any(k is None for k in kn):
        raise S.Unknown("knots")
    if surf:
        bu, bv = bernstein(d[0] - 1, u, *kn[0]), bernstein(d[1] - 1, v, *kn[1])
        got = [S.total(S.mul(S.mul(bu[i], bv[j]), poles[i][j][k]) for i in range(d[0]) for j in range(d[1])) for k in range(d[2])]
        p4 = list(pts) if n == 4 else [pts[0], pts[1], [S.add(S.add(a, b), c0, -1) for a, b, c0 in zip(pts[1], pts[2], pts[0])], pts[2]]
        want = bilinear(p4, u, v)
        doc = CORNERS if n == 4 else [(0, 0), (1, 0), (0, 1)]
    else:
        bu = bernstein(d[0] - 1, u, *kn[0])
        got = [S.total(S.mul(bu[i], poles[i][k]) for i in range(d[0])) for k in range(d[1])]
        want = [S.add(S.mul(S.add(one, u, -1), a), S.mul(u, b)) for a, b in zip(*pts)]
        doc = None
    good = len(got) == len(want) and all(S.zero(S.add(a, b, -1)) for a, b in zip(got, want))
    ctx.check(good, "through", fname(f.qual), "the spline is the %s map through the given points" % ("affine" if n < 4 else "bilinear"), where_,
              key="through:" + fname(f.qual))
    r = canon(o.val)
    if surf and r.op == "tuple" and len(r.args) == 2:
        try:
            uv = ev(label(o.val.args[1]))
        except S.Unknown:
            return True
        ok = len(uv) == n and all(S.zero(S.add(bilinear(p4, *x)[k], p[k], -1)) for x, p in zip(uv, pts) for k in range(3))
        ctx.check(ok, "params", fname(f.qual), "returned parameters belong to the given points in their order", where_, key="params:" + fname(f.qual))
    return True


# ---------------------------------------------------------------- Z surface
def method(ctx, name):
    m = ctx.prog.find_method(ctx.prog.cls(ZS), name)
    if m is None:
        raise AnalysisError("no method %s.%s" % (ZS, name))
    return m


class Fields:
    """Values of fields of self, by the label of the read ('x' before, "x'" after the change)."""

    def __init__(self, **k):
        self.k = dict(k)

    def __call__(self, base, name, ev):
        b = canon(base)
        if b.op == "param" and b.args[0] == "self":
            return self.k.get(name, self.k.get(name + "'") if not name.endswith("'") else self.k.get(name[:-1]))
        return None


def value(ctx, f, fields, par):
    """Value of the only evaluated return of a method: rows of the result for the given rows of the parameter."""
    rets = []
    for o in ctx.run(f, keep_conds=True, carry=True):
        if o.flow != "return" or o.val is None or canon(o.val) is NONE:
            continue
        ev = Arr(attr=fields, param=lambda n: par.get(n))
        c = canon(o.val)
        while c.op == "pcall" and c.args[0] in ("numpy.array", "numpy.asarray", "numpy.stack", "numpy.vstack"):
            c = canon(c.args[1])
        if c.op == "list" and len(c.args) == 1:
            # rows appended in a loop
            rets.append(rows(o, c, ev, par))
        else:
            rets.append(ev(label(o.val)))
    if not rets:
        raise S.Unknown("no value")
    return rets


def rows(o, lst, ev, par):
    out = []
    for e in o.events():
        if e.kind != "loop" or e.recv is None:
            continue
        coll = canon(e.recv)
        n = ev.length(coll)
        for k in range(n):
            for b, fl in bodies(e):
                if fl not in ("next", "continue"):
                    continue
                saved = dict(ev.env)
                ev.bind(T("elem", coll, T("v0")), coll, k)
                for w in b:
                    if w.kind == "mut" and w.name == "append" and canon(w.recv) is lst:
                        out.append(ev(label(w.args[0])))
                ev.env = saved
    if not out:
        raise S.Unknown("rows")
    return out


def equal(a, b):
    return shape(a) == shape(b) and all(S.zero(S.add(x, y, -1)) for x, y in zip(S.leaves(a), S.leaves(b)))


def truth(c, n, linear):
    """Is the condition decided for n points of a parallelogram?  None when it says nothing."""
    names = [x.args[0] for x in subs(c) if x.op in ("pcall", "call")]
    if any(str(x).split(".")[-1] in ("allclose", "isclose") for x in names):
        return linear
    if c.op == "op" and c.args[0] in ("==", "!="):
        ks = [cval(x) for x in c.args[1:] if is_const(x)]
        idx0 = [x for x in c.args[1:] if isinstance(x, Tok) and not is_const(x)]
        if len(ks) == 1 and ks[0] in (3, 4) and idx0:
            return (ks[0] == n) == (c.args[0] == "==")
    return None


def maps(ctx):
    f = method(ctx, "_reset_transform_xy")
    par = [p for p in f.pos_params() if p != "self"][0]
    for n, linear in ((3, True), (4, True), (4, False)):
        base = [[S.sym(("Q", i, k)) for k in range(2)] for i in range(3)]
        fourth = [S.add(S.add(base[0][k], base[2][k]), base[1][k], -1) for k in range(2)]
        given = base if n == 3 else base + [fourth if linear else [S.sym(("Q", 3, k)) for k in range(2)]]
        quad = base + [given[3] if n == 4 else fourth]
        for src in ("given", "original"):
            for o in ctx.run(f, keep_conds=True, carry=True):
                if o.flow != "return":
                    continue
                conds = [(canon(e.recv), bool(e.name)) for e, lp in flat(o.events()) if e.kind == "cond" and e.recv is not None]
                none = [t == (c.args[0] == "is") for c, t in conds
                        if c.op == "op" and c.args[0] in ("is", "is not") and any(x is T("param", par) for x in c.args[1:])]
                if any(t != (src == "original") for t in none):
                    continue
                if any(truth(c, n, linear) not in (None, t) for c, t in conds):
                    continue
                one_map(ctx, f, o, par, given, quad, n, linear, src)


def one_map(ctx, f, o, par, given, quad, n, linear, src):
    ev = Arr(attr=Fields(orig_quad=given), param=lambda name: given if name == par else None)
    got, bound = {}, {}
    what = "%d points, %s map, %s quad" % (n, "linear" if linear else "bilinear", src)
    try:
        for e, lp in flat(o.events()):
            ev.play(e)
            if e.kind != "write" or canon(e.recv) is not T("param", "self"):
                continue
            a = canon(e.args[0])
            if a.op == "bound":
                bound[e.name] = str(a.args[1]).split(".")[-1]
            elif e.name in ("quad", "_xy_shift", "_mat_uv_to_xy", "_mat_xy_to_uv"):
                got[e.name] = ev(label(e.args[0]))
        if "quad" not in got or "uv_to_xy" not in bound:
            raise S.Unknown("fields")
        ctx.saw("maps", what)
        w = where(f)
        ctx.check(equal(got["quad"], quad), "map", fname(f.qual), "quad of the surface is the given one (%s)" % what, w, key="map:quad")
        check_maps(ctx, f, got, bound, quad, linear, what)
    except S.Unknown as x:
        ctx.notes.append("map of %s not evaluated (%s)" % (what, x))


def check_maps(ctx, f, got, bound, quad, linear, what):
    fields = Fields(**got)
    to_xy, to_uv = method(ctx, bound["uv_to_xy"]), method(ctx, bound.get("xy_to_uv", "xy_to_uv"))
    p1 = [p for p in to_xy.pos_params() if p != "self"][0]
    sq = [[S.num(a), S.num(b)] for a, b in QUAD] + [[u, v]]
    pts = [quad[1], quad[2], quad[3], quad[0]]
    want = list(quad) + [bilinear(pts, u, v)]
    for r in value(ctx, to_xy, fields, {p1: sq}):
        ctx.check(equal(r[:4], want[:4]), "map", fname(to_xy.qual), "corners of the UV square are taken to the quad (%s)" % what, where(to_xy), key="map:corners")
        ctx.check(equal(r[4:], want[4:]), "map", fname(to_xy.qual), "the map is bilinear between the corners (%s)" % what, where(to_xy), key="map:bilinear")
    if linear:
        p2 = [p for p in to_uv.pos_params() if p != "self"][0]
        for r in value(ctx, to_uv, fields, {p2: want}):
            ctx.check(equal(r, sq), "map", fname(to_uv.qual), "the inverse map returns the parameters (%s)" % what, where(to_uv), key="map:inverse")


def transform(ctx):
    f = method(ctx, "transform")
    par = [p for p in f.pos_params() if p != "self"]
    M = [[S.sym(("m", i, j)) for j in range(2)] for i in range(2)]
    s = [S.sym(("s", i)) for i in range(2)]
    A = [[S.sym(("a", i, j)) for j in range(3)] for i in range(2)]

    def old(x, y):
        return [S.total([S.mul(M[i][0], x), S.mul(M[i][1], y), s[i]]) for i in range(2)]
    half = S.num(S.Fraction(1, 2))
    c = old(half, half)

    def new(x, y):
        p = old(x, y)
        d = [S.add(p[k], c[k], -1) for k in range(2)]
        return [S.total([S.mul(A[i][0], d[0]), S.mul(A[i][1], d[1]), c[i], A[i][2]]) for i in range(2)]
    quad = [old(S.num(a), S.num(b)) for a, b in QUAD]
    done = False
    resets = ("_reset_transform_xy", "_reset_transform_z")
    for o in ctx.run(f, keep_conds=True, carry=True,
                     policy=lambda g: "opaque" if g.__class__.__name__ == "Cls" or g.name in resets + ("center",) else None):
        if o.flow != "return":
            continue
        writes = [e for e, lp in flat(o.events()) if e.kind == "write" and e.name in ("quad", "_xy_shift", "_mat_uv_to_xy", "_mat_xy_to_uv")
                  and canon(e.recv) is T("param", "self")]
        if not writes:
            continue
        order = [str(e.name).split(".")[-1] for e, lp in flat(o.events()) if e.kind == "call"]
        if "_reset_transform_xy" not in order:
            ctx.bad("compose", fname(f.qual), "the previous XY transform is not reset before the new one is composed", where(f), key="compose:reset")
            continue

        def call(t, args, ev):
            n = t.args[0]
            if isinstance(n, str) and n.rstrip("'").split(".")[-1] == "center":
                return c + [S.sym(("z",))]
            return None
        first = {"_mat_uv_to_xy'": M, "_xy_shift'": s, "quad'": quad}
        post = {"_mat_uv_to_xy": M, "_xy_shift": s, "quad": quad}
        reads = Fields(**post)
        ev = Arr(attr=reads, call=call, param=lambda n: A if n == par[0] else None)
        got = {}
        try:
            # reads of a field before the reset see the previous transform
            for e in writes:
                for x in subs(e.args[0]):
                    if x.op == "attr" and x.args[1] in post and canon(x.args[0]) is T("param", "self") and (len(x.args) < 3 or not isinstance(x.args[2], Tok) or x.args[2].op != "clk"):
                        raise Stale(x.args[1])
            for e, lp in flat(o.events()):
                ev.play(e)
                if e in writes:
                    got[e.name] = ev(label(e.args[0]))
            if len(got) < 4:
                for k in post:
                    if k not in got:
                        ctx.bad("compose", fname(f.qual), "the transform changes the map but not " + k, where(f), key="compose:" + k)
                if "_mat_xy_to_uv" not in got:
                    ctx.bad("compose", fname(f.qual), "the transform changes the map but not its inverse", where(f), key="compose:inverse")
                continue
            done = True
            m2, s2 = got["_mat_uv_to_xy"], got["_xy_shift"]

            def xy(x, y):
                return [S.total([S.mul(m2[i][0], x), S.mul(m2[i][1], y), s2[i]]) for i in range(2)]
            ctx.saw("maps", "transformed map")
            ctx.check(equal(xy(u, v), new(u, v)), "compose", fname(f.qual),
                      "the new map is the given transform about the centre after the original map", where(f), key="compose:map")
            ctx.check(equal(got["quad"], [new(S.num(a), S.num(b)) for a, b in QUAD]), "compose", fname(f.qual),
                      "the quad is transformed as the map", where(f), key="compose:quad")
            inv = got["_mat_xy_to_uv"]
            ident = [[S.total(S.mul(inv[i][k], m2[k][j]) for k in range(2)) for j in range(2)] for i in range(2)]
            ctx.check(equal(ident, [[one, S.num(0)], [S.num(0), one]]), "compose", fname(f.qual),
                      "the inverse matrix is computed from the new one", where(f), key="compose:inverse")
        except Stale as x:
            ctx.bad("compose", fname(f.qual), "%s is read before the previous transform is reset" % x, where(f), key="compose:reset")
        except S.Unknown as x:
            ctx.notes.append("transform not evaluated (%s)" % x)
    if not done:
        ctx.notes.append("no path of the transform evaluated")


class Stale(Exception):
    pass


def subs(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Tok) or x in seen or x.op in ("clk", "uid", "site", "ver"):
            continue
        seen.add(x)
        yield x
        todo += list(x.args)


def direction(t):
    """Direction (0 or 1) of the basis denoted by the token."""
    b = canon(t)
    if b.op == "item" and is_const(b.args[1]) and cval(b.args[1]) in (0, 1):
        return cval(b.args[1])
    if b.op == "attr" and b.args[1].rstrip("'") in ("u_basis", "v_basis"):
        return ("u_basis", "v_basis").index(b.args[1].rstrip("'"))
    raise S.Unknown("basis")


def full(ctx):
    f = method(ctx, "make_full_surface")
    nu, nv = 3, 2
    U = [S.sym(("U", i)) for i in range(nu)]
    V = [S.sym(("V", j)) for j in range(nv)]
    Z = [[[S.sym(("Z", i, j))] for j in range(nv)] for i in range(nu)]
    sc, sh = S.sym(("S",)), S.sym(("T",))

    def xy(x, y):
        return [S.sym(("XY", k, x.key(), y.key())) for k in range(2)]

    def call(t, args, ev):
        n = t.args[0]
        n = n.rstrip("'").split(".")[-1] if isinstance(n, str) else ""
        if n == "make_linear_poles":
            return (U, V)[direction(args[0])]
        if n in ("uv_to_xy", "_linear_uv_to_xy", "_bilinear_uv_to_xy"):
            return [xy(*r) for r in ev(args[-1])]
        if n == "copy" or n == "deepcopy":
            return ev(args[0])
        return None

    def attr(base, name, ev):
        b = canon(base)
        name = name.rstrip("'")
        if name == "poles" and b.op == "attr" and b.args[1].rstrip("'") == "z_surface":
            return Z
        if name == "_z_mat":
            return [sc, sh]
        if name == "size":
            return S.num((nu, nv)[direction(b)])
        return None
    done = False
    for o in ctx.run(f, keep_conds=True, carry=True,
                     policy=lambda g: "opaque" if g.__class__.__name__ == "Cls" or g.name in ("make_linear_poles", "uv_to_xy") else None):
        if o.flow != "return":
            continue
        have = True
        ev = Arr(attr=attr, call=call)
        for e, lp in flat(o.events()):
            if e.kind == "cond" and e.recv is not None and any(x.op == "attr" and x.args[1] == "_have_z_mat" for x in subs(canon(e.recv))):
                have = bool(e.name) == (canon(e.recv).op != "not")
            ev.play(e)
            if e.kind == "new" and str(e.name).endswith(".Surface") and len(e.args) > 1:
                try:
                    poles = ev(label(e.args[1]))
                    want = [[xy(U[i], V[j]) + [S.add(S.mul(Z[i][j][0], sc), sh) if have else Z[i][j][0]] for j in range(nv)] for i in range(nu)]
                    done = True
                    ctx.saw("maps", "full surface, Z transform " + ("used" if have else "not set"))
                    same = shape(poles) == shape(want) and all(a == b for a, b in zip(S.leaves(poles), S.leaves(want)))
                    ctx.check(same, "full", fname(f.qual), "pole i, j of the full surface is the XY map at linear poles i, j with the Z pole i, j", where(f),
                              key="full:poles")
                except S.Unknown as x:
                    ctx.notes.append("full surface not evaluated (%s)" % x)
    if not done:
        ctx.notes.append("full surface not evaluated")
