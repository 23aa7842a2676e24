"""P41: a surface approximation is the regularised weighted least squares fit of all its points."""
from .. import symeval as S
from ..loader import AnalysisError
from ..rl import bodies, canon, where
from ..rl import flat as nested
from ..symarr import Arr, ravel
from ..tok import T, Tok, NONE, is_const, cval, subtoks

LEVEL = "other"
TECHNIQUE = "value numbering of the assembled arrays and of the matrix expressions, in normal forms of sums of products over symbolic basis values"
EXPLANATION = ("The loops that assemble the least squares matrix and the regularisation matrix are followed for one point and one pair of "
               "intervals with symbolic basis values; the assembled (row, column, value) triples are compared as a set with the tensor product "
               "numbering of poles. The matrix expressions of the fit are compared as sums of products of factors, the selection and mapping "
               "of the points as tokens.")
A = "bgem.bspline.bspline_approx.SurfaceApprox."
SELF = T("param", "self")
BASES = {"_u_basis": "u", "_v_basis": "v"}


def run(ctx):
    ctx.rule("columns", "the first two columns of the points are the position, the third the elevation, the fourth the weight when there is one")
    ctx.rule("same-points", "positions, elevations and weights are reduced to the points in the quad by the same selection, on every approximation")
    ctx.rule("in-quad", "a point is used exactly when both its parameters are in the unit interval, up to rounding, and is moved to that interval")
    ctx.rule("map", "parameters of a point are its coordinates in the two edges of the quad at its second vertex")
    ctx.rule("bases", "the bases have as many intervals as asked for")
    ctx.rule("system", "the solved system is the normal equations of the weighted fit plus the regularisation")
    ctx.rule("error", "the reported error is the largest difference of the fit from the elevations of the points")
    ctx.rule("result", "the surface has the solution for poles, the bases of the fit and the quad of the fit")
    ctx.rule("fit-matrix", "the fit matrix has at each point the products of the nonzero basis functions in the columns of their poles")
    ctx.rule("quadrature", "products of basis functions are integrated exactly over each knot interval")
    ctx.rule("regularisation", "the regularisation matrix is the sum over intervals of the products of derivatives in u and in v")
    ctx.rule("rectangle", "the default quad is the smallest of the rectangles along the edges of the hull that enclose it")
    ctx.rule("hull", "the hull is built from both sides of a line through two extreme points, always from the farthest of the points outside")
    ctx.rule("arguments", "settings given to a call replace those of the object, others keep the value they have; a grid is fitted over its own quad")
    ctx.rule("curve", "an approximated curve has the fitted knots, poles and degree and starts and ends exactly in the first and the last point")
    rectangle(ctx)
    hull(ctx)
    columns(ctx)
    points(ctx)
    arguments(ctx)
    curve(ctx)
    fit(ctx)
    fit_matrix(ctx)
    regular(ctx)


def flat(evs):
    return [e for e, _ in nested(evs)]


def at(t):
    """The base of t[keys], whether written as one index or as several."""
    got = []
    while isinstance(t, Tok) and t.op == "item":
        k = canon(t.args[1])
        got = (list(k.args) if k.op == "tuple" else [k]) + got
        t = canon(t.args[0])
    return t, [x for x in got if not (x.op == "slice" and all(a is NONE for a in x.args))]


def const_is(t, v):
    return is_const(t) and cval(t) == v


def last_write(o, name):
    vs = [e for e in flat(o.events()) if e.kind == "write" and e.name == name and canon(e.recv) is SELF]
    return canon(vs[-1].args[0]) if vs else None


ROLE = {"xy": "_xy_points", "z": "_z_points", "w": "_weights", "uv_q": "_uv_quad_points", "z_q": "_z_quad_points", "w_q": "_w_quad_points"}


def columns(ctx):
    f = ctx.prog.func(A + "__init__")
    ps = T("param", "points")
    ROLE.update({"xy": "_xy_points", "z": "_z_points", "w": "_weights", "uv_q": "_uv_quad_points", "z_q": "_z_quad_points", "w_q": "_w_quad_points"})
    outs = [o for o in ctx.run(f, keep_conds=True) if o.flow in ("return", "next")]
    vals = {}
    for o in outs:
        ctx.saw("paths", A + "__init__")
        for e in flat(o.events()):
            if e.kind == "write" and canon(e.recv) is SELF:
                vals.setdefault(e.name, set()).add(canon(e.args[0]))
    # what holds the points is known by what is kept there, not by its name
    part = {n: [at(v) for v in vs if at(v)[0] is ps and at(v)[1]] for n, vs in vals.items()}
    part = {n: [k for b, k in v if len(k) == 1] for n, v in part.items() if v}
    w = [n for n in part if NONE in vals[n]]
    xy = [n for n in part if n not in w and any(k[0].op == "slice" for k in part[n])]
    z = [n for n in part if n not in w + xy]
    if len(w) != 1 or len(xy) != 1 or len(z) != 1 or any(len(part[n]) != 1 for n in w + xy + z):
        raise AnalysisError("columns of the points not recognised in " + f.qual)
    ROLE["xy"], ROLE["z"], ROLE["w"] = xy[0], z[0], w[0]
    k = part[xy[0]][0][0]
    ok = (k.args[0] is NONE or const_is(k.args[0], 0)) and const_is(k.args[1], 2) and (k.args[2] is NONE or const_is(k.args[2], 1))
    ctx.check(ok, "columns", f.qual, "positions are the first two columns", where(f), key="columns:xy")
    ctx.check(const_is(part[z[0]][0][0], 2), "columns", f.qual, "elevations are the third column", where(f), key="columns:z")
    ctx.check(const_is(part[w[0]][0][0], 3), "columns", f.qual, "weights are the fourth column", where(f), key="columns:w")


def selection(v):
    """base and index of a value reduced by an index, below maximum/minimum/clip."""
    while v.op == "pcall" and v.args[0] in ("numpy.minimum", "numpy.maximum", "numpy.clip"):
        arrs = [canon(x) for x in v.args[1:] if isinstance(x, Tok) and any(y.op == "item" for y in subtoks(x))]
        if not arrs:
            return v, None
        v = arrs[0]
    if v.op == "item":
        return canon(v.args[0]), canon(v.args[1])
    return v, None


def has(t, attr):
    return any(isinstance(x, Tok) and x.op == "attr" and x.args[1] == attr for x in subtoks(t))


class Quad(Arr):
    """Quad and point as symbols."""

    def __init__(self):
        super().__init__(attr=self.at_attr)

    def at_attr(self, b, n, ev):
        if n == "quad":
            return [[S.sym("q%d%d" % (i, j)) for j in range(2)] for i in range(4)]
        if n == ROLE["xy"]:
            return [[S.sym("x"), S.sym("y")]]
        return None


def points(ctx):
    f = ctx.prog.func(A + "_compute_uv_points")
    n = 0
    for o in ctx.run(f, keep_conds=True):
        if o.flow not in ("return", "next"):
            continue
        n += 1
        ctx.saw("paths", f.qual)
        unweighted = any(e.kind == "cond" and has(e.recv, ROLE["w"]) and e.name == (canon(e.recv).args[0] == "is") for e in flat(o.events()))
        names = {}
        for e in flat(o.events()):
            if e.kind == "write" and canon(e.recv) is SELF:
                v = canon(e.args[0])
                b, k = selection(v)
                names["w_q" if b is T("attr", SELF, ROLE["w"]) else "z_q" if b is T("attr", SELF, ROLE["z"]) else "uv_q" if k is not None or
                      has(v, ROLE["xy"]) else None] = e.name
        names.pop(None, None)
        ROLE.update(names)
        uv, z, w = (last_write(o, names[x]) if x in names else None for x in ("uv_q", "z_q", "w_q"))
        for nm, v in (("points", uv), ("elevations", z)) + (() if unweighted and w is None else (("weights", w),)):
            ctx.check(v is not None, "same-points", f.qual, "%s of the quad are set" % nm, where(f), key="same-points:set:" + nm)
        if uv is None or z is None:
            continue
        ub, uk = selection(uv)
        zb, zk = selection(z)
        if uk is None:
            raise AnalysisError("selection of points not recognised in " + f.qual)
        ctx.check(zb is T("attr", SELF, ROLE["z"]) and zk is uk, "same-points", f.qual, "elevations selected like positions", where(f),
                  key="same-points:z")
        if w is not None:
            wb, wk = selection(w)
            ctx.check(wb is T("attr", SELF, ROLE["w"]) and wk is uk, "same-points", f.qual, "weights selected like positions", where(f),
                      key="same-points:w")
        in_quad(ctx, f, uv, ub, uk)
        q = Quad()
        try:
            got = q(ub)[0]
            Q = q.at_attr(None, "quad", q)
            e = [[S.add(Q[2][i], Q[1][i], -1), S.add(Q[0][i], Q[1][i], -1)] for i in range(2)]
            back = [S.add(S.total([S.mul(e[i][k], got[k]) for k in range(2)]), Q[1][i]) for i in range(2)]
            ok = all(S.zero(S.add(back[i], S.sym("xy"[i]), -1)) for i in range(2))
        except S.Unknown as x:
            raise AnalysisError("map of points in %s: %s" % (f.qual, x))
        ctx.check(ok, "map", f.qual, "position = quad[1] + u (quad[2] - quad[1]) + v (quad[0] - quad[1])", where(f), key="map:uv")
    if not n:
        raise AnalysisError("no path of " + f.qual)


def bound(t):
    """Constants of a bound: a number or a pair."""
    t = canon(t)
    try:
        v = Arr()(t)
    except S.Unknown:
        return None
    v = ravel(v) if isinstance(v, list) else [v]
    return [float(x.const()) for x in v] if all(x.is_const() for x in v) else None


def near(v, c):
    return v is not None and all(abs(x - c) <= 1e-9 for x in v)


def in_quad(ctx, f, uv, ub, uk):
    """The selection requires 0 <= both parameters <= 1; the kept parameters are clamped to [0, 1]."""
    conj, ok = [], True

    def split(t):
        t = canon(t)
        if t.op == "pcall" and t.args[0] == "numpy.logical_and":
            for x in t.args[1:]:
                if isinstance(x, Tok) and x.op not in ("v0", "ver", "site", "uid"):
                    split(x)
        elif t.op in ("op", "cmp") and t.args[0] == "&":
            split(t.args[1])
            split(t.args[2])
        elif t.op in ("pcall", "call") and str(t.args[0]).split(".")[-1] in ("all", "any"):
            ax = [x for x in t.args[1:] if isinstance(x, Tok) and x.op == "kw" and x.args[0] == "axis"] or \
                [T("kw", "axis", x) for x in t.args[2:3] if isinstance(x, Tok) and is_const(x)]
            if str(t.args[0]).split(".")[-1] == "any" or not ax or cval(canon(ax[0].args[1])) not in (1, -1):
                conj.append(None)
            split(t.args[1])
        else:
            conj.append(t)
    split(uk)
    low = high = False
    for t in conj:
        if t is None:
            ok = False
            continue
        if t.op != "op" or t.args[0] not in ("<", "<=", ">", ">="):
            raise AnalysisError("condition on points not recognised in " + f.qual)
        a, b = canon(t.args[1]), canon(t.args[2])
        if t.args[0] in (">", ">="):
            a, b = b, a
        if b is ub:
            low, ok = True, ok and near(bound(a), 0)
        elif a is ub:
            high, ok = True, ok and near(bound(b), 1)
        else:
            ok = False
    ctx.check(ok and low and high, "in-quad", f.qual, "selected when all of 0 <= u, v <= 1", where(f), key="in-quad:select")
    v, lo, hi = uv, False, False
    good = True
    while v.op == "pcall" and v.args[0] in ("numpy.minimum", "numpy.maximum", "numpy.clip"):
        arrs = [canon(x) for x in v.args[1:] if isinstance(x, Tok) and x.op not in ("v0", "ver", "site", "uid", "kw")]
        if v.args[0] == "numpy.clip":
            good = good and len(arrs) == 3 and bound(arrs[1]) is not None and set(bound(arrs[1])) == {0.0} and set(bound(arrs[2]) or ()) == {1.0}
            lo = hi = True
            v = arrs[0]
            continue
        c = [x for x in arrs if bound(x) is not None]
        r = [x for x in arrs if bound(x) is None]
        if len(c) != 1 or len(r) != 1:
            raise AnalysisError("clamping not recognised in " + f.qual)
        val = set(bound(c[0]))
        if v.args[0] == "numpy.minimum":
            hi, good = True, good and val == {1.0}
        else:
            lo, good = True, good and val == {0.0}
        v = r[0]
    ctx.check(good and lo and hi, "in-quad", f.qual, "kept parameters are clamped to the unit interval", where(f), key="in-quad:clamp")


# ------------------------------------------------------------------ the fit

HELP = ("_build_ls_matrix", "_build_sparse_reg_matrix", "compute_default_quad", "compute_default_nuv", "_compute_uv_points", "make_equidistant")


def short(t):
    return str(t.args[0]).split(".")[-1] if t.op in ("pcall", "call") else None


def operands(t):
    return [canon(x) for x in t.args[1:] if isinstance(x, Tok) and x.op not in ("v0", "ver", "site", "uid", "clk", "kw")]


def product(t, tr=False):
    """Sum of products of matrix factors: list of (scalars, factors); a factor is (name, transposed)."""
    t = canon(t)
    n = short(t)
    if t.op == "op" and t.args[0] in ("+", "-") and len(t.args) == 3:
        r = product(t.args[1], tr)
        s = product(t.args[2], tr)
        return r + [(c + ([("neg",)] if t.args[0] == "-" else []), m) for c, m in s]
    if n in ("dot", "matmul") or t.op == "op" and t.args[0] == "@":
        x, y = (operands(t) if n else [canon(a) for a in t.args[1:3]])[:2]
        if tr:
            x, y = y, x
        return [(c + d, a + b) for c, a in product(x, tr) for d, b in product(y, tr)]
    if n == "multiply" or t.op == "op" and t.args[0] == "*":
        x, y = (operands(t) if n else [canon(a) for a in t.args[1:3]])[:2]
        if vector(x) and vector(y):
            # entrywise product with the weights is the product with the diagonal matrix
            if weights(y):
                x, y = y, x
            if weights(x):
                return [(c, [("W", False)] + m) for c, m in product(y, tr)]
        if not matrix(x) and not vector(x):
            return [([x] + c, m) for c, m in product(y, tr)]
        if not matrix(y) and not vector(y):
            return [([y] + c, m) for c, m in product(x, tr)]
        raise AnalysisError("product not recognised in the fit: %r" % t)
    if n == "transpose" or t.op == "attr" and t.args[1] == "T":
        return product(operands(t)[0] if n else t.args[0], not tr)
    if n in ("tocsr", "tocsc", "copy", "toarray", "csr_matrix", "csc_matrix", "asarray", "array"):
        return product(operands(t)[0], tr)
    if n == "diags" and weights(operands(t)[0]) and (len(operands(t)) == 1 or const_is(operands(t)[1], 0)):
        return [([], [("W", False)])]
    if t.op == "item" and canon(t.args[1]).op == "slice" and all(a is NONE for a in canon(t.args[1]).args):
        return product(t.args[0], tr)
    if t.op == "item" and short(canon(t.args[0])) == "_build_ls_matrix" and const_is(canon(t.args[1]), 0):
        return [([], [("B", tr)])]
    if n == "_build_sparse_reg_matrix":
        return [([], [("A", False)])]
    if final(t, ROLE["z_q"]):
        return [([], [("z", False)])]
    if n == "spsolve":
        return [([], [("x", False)])]
    return [([], [(t, tr)])]


def final(t, name):
    t = canon(t)
    return t.op == "attr" and t.args[1] == name and canon(t.args[0]) is SELF


def weights(t):
    return final(t, ROLE["w_q"])


def vector(t):
    return weights(t) or any(final(x, ROLE["z_q"]) for x in subtoks(t) if isinstance(x, Tok))


def matrix(t):
    return any(short(x) in ("_build_ls_matrix", "_build_sparse_reg_matrix", "spsolve", "diags") for x in subtoks(t) if isinstance(x, Tok)) and \
        not any(short(x) in ("svds", "eigsh", "norm") for x in [canon(t), *scalars(t)])


def scalars(t):
    t = canon(t)
    if t.op == "item" or t.op == "op" and t.args[0] in ("/", "*"):
        for x in t.args:
            if isinstance(x, Tok):
                yield canon(x)
                yield from scalars(x)


def ratio(t, p=1):
    """Powers of the atoms of a scalar."""
    t = canon(t)
    if t.op == "op" and t.args[0] == "*":
        return ratio(t.args[1], p) + ratio(t.args[2], p)
    if t.op == "op" and t.args[0] == "/":
        return ratio(t.args[1], p) + ratio(t.args[2], -p)
    return [(t, p)]


def fit(ctx):
    f = ctx.prog.func(A + "compute_approximation")

    def pol(g):
        return "opaque" if g.__class__.__name__ == "Cls" or g.name in HELP else None
    n = 0
    for o in ctx.run(f, keep_conds=True, policy=pol):
        if o.flow != "return":
            continue
        n += 1
        ctx.saw("paths", f.qual)
        ev = list(flat(o.events()))
        calls = [(i, e) for i, e in enumerate(ev) if e.kind in ("call", "pcall", "new")]

        def last(nm):
            r = [i for i, e in calls if str(e.name).split(".")[-1] == nm]
            return r[-1] if r else None
        quadset = max([i for i, e in enumerate(ev) if e.kind == "write" and e.name in ("quad",)] + [last("compute_default_quad") or -1])
        up, ls = last("_compute_uv_points"), last("_build_ls_matrix")
        if ls is None or last("_build_sparse_reg_matrix") is None:
            raise AnalysisError("matrices of the fit not found in " + f.qual)
        ctx.check(up is not None and quadset < up < ls, "same-points", f.qual,
                  "the points of the quad are found anew after the quad is known and before the matrix", where(f), key="same-points:anew")
        solves = {x for e in ev for a in (e.args or []) if isinstance(a, Tok) for x in subtoks(a) if short(x) == "spsolve"}
        solves = {canon(x) for x in solves}
        if len(solves) != 1:
            raise AnalysisError("solution of the fit not found in " + f.qual)
        sol = solves.pop()
        lhs, rhs = operands(sol)[:2]
        unweighted = any(e.kind == "cond" and has(e.recv, ROLE["w"]) and e.name == (canon(e.recv).args[0] == "is") for e in ev)
        W = [] if unweighted else [("W", False)]
        r = product(rhs)
        ctx.check(len(r) == 1 and not r[0][0] and r[0][1] == [("B", True)] + W + [("z", False)], "system", f.qual,
                  "right side is B^T %sz" % ("" if unweighted else "W "), where(f), key="system:rhs")
        l = product(lhs)
        fitp = [x for x in l if ("A", False) not in x[1]]
        reg = [x for x in l if ("A", False) in x[1]]
        ctx.check(len(fitp) == 1 and not fitp[0][0] and fitp[0][1] == [("B", True)] + W + [("B", False)], "system", f.qual,
                  "matrix has B^T %sB" % ("" if unweighted else "W "), where(f), key="system:fit")
        ok = len(reg) == 1 and reg[0][1] == [("A", False)]
        if ok:
            at_ = [y for c in reg[0][0] for y in ratio(c)] if all(isinstance(c, Tok) for c in reg[0][0]) else [(None, 0)]
            wt = [p for t, p in at_ if t is not None and (has(t, "regularization_weight") or "regularization_weight" in str(t))]
            up_ = [t for t, p in at_ if p > 0 and t is not None and wt is not None and "regularization_weight" not in str(t)]
            dn = [t for t, p in at_ if p < 0]
            ok = wt == [1] and len(up_) == len(dn) <= 1 and all(any(short(x) == "_build_ls_matrix" for x in subtoks(t)) and
                                                               not any(short(x) == "_build_sparse_reg_matrix" for x in subtoks(t)) for t in up_) and \
                all(any(short(x) == "_build_sparse_reg_matrix" for x in subtoks(t)) for t in dn)
        ctx.check(ok, "system", f.qual, "regularisation is its weight times the norm ratio of the matrices times A", where(f), key="system:reg")
        err = last_write(o, "error")
        if err is None:
            raise AnalysisError("error of the fit not set in " + f.qual)
        ok = False
        m = err
        if short(m) in ("max", "amax") and operands(m):
            m = operands(m)[0]
            if short(m) in ("abs", "absolute", "fabs"):
                p = product(operands(m)[0])
                two = sorted([(len(c), tuple(x[0] for x in fs), tuple(x[1] for x in fs)) for c, fs in p], key=str)
                ok = len(two) == 2 and {x[1] for x in two} == {("B", "x"), ("z",)} and sum(x[0] for x in two) == 1 and not any(any(x[2]) for x in two)
        elif short(m) == "norm":
            p = product(operands(m)[0])
            ok = {tuple(x[0] for x in fs) for c, fs in p} == {("B", "x"), ("z",)} and sum(len(c) for c, fs in p) == 1 and "inf" in str(m)
        ctx.check(ok, "error", f.qual, "max |B x - z|", where(f), key="error:max")
        result(ctx, f, o, ev, sol)
    if not n:
        raise AnalysisError("no path of " + f.qual)


def result(ctx, f, o, ev, sol):
    bases = {n: last_write(o, n) for n in BASES}
    for n, i in (("_u_basis", 0), ("_v_basis", 1)):
        b = bases[n]
        if b is None or short(b) != "make_equidistant":
            raise AnalysisError("bases of the fit not recognised in " + f.qual)
        a = [x for x in operands(b) if not (x.op == "cls" or str(x).startswith("SplineBasis"))]
        k = a[1] if len(a) > 1 else None
        ok = const_is(a[0], 2) and k is not None and k.op == "item" and const_is(canon(k.args[1]), i) and (
            final(canon(k.args[0]), "nuv") or "nuv" in str(k.args[0]))
        ctx.check(ok, "bases", f.qual, "%s has nuv[%d] intervals of degree 2" % (n, i), where(f), key="bases:" + n)
    news = [e for e in ev if e.kind == "new"]
    sf = [e for e in news if str(e.name).endswith(".Surface")]
    zs = [e for e in news if str(e.name).endswith(".Z_Surface")]
    if len(sf) != 1 or len(zs) != 1:
        raise AnalysisError("surface of the fit not found in " + f.qual)
    ba, poles = canon(sf[0].args[0]), canon(sf[0].args[1])
    ctx.check(ba.op in ("tuple", "list") and [canon(x) for x in ba.args if isinstance(x, Tok) and x.op != "site"][-2:] == [bases["_u_basis"], bases["_v_basis"]],
              "result", f.qual, "surface over the bases of the fit", where(f), key="result:bases")
    sizes = {bases["_u_basis"]: 2, bases["_v_basis"]: 3}

    def attr(b, n, ev):
        b = canon(b)
        b = bases.get(b.args[1], b) if b.op == "attr" else b
        return S.num(sizes[b]) if n == "size" and b in sizes else None
    ar = Arr(attr=attr)
    ar.env[sol] = [S.sym("x%d" % k) for k in range(6)]
    try:
        got = ar(poles)
        ok = [[[z.key() for z in y] for y in x] for x in got] == [[[S.sym("x%d" % (v * 2 + u)).key()] for v in range(3)] for u in range(2)]
    except S.Unknown as x:
        raise AnalysisError("poles in %s: %s" % (f.qual, x))
    except (TypeError, AttributeError, IndexError, ValueError):
        ok = False
    ctx.check(ok, "result", f.qual, "pole (i, j) is the unknown numbered j nu + i in the matrices", where(f), key="result:poles")
    q = canon(zs[0].args[0])
    b, k = at(q)
    ok = (final(b, "quad") or "quad" in str(b)) and (not k or len(k) == 1 and k[0].op == "slice" and (k[0].args[0] is NONE or const_is(k[0].args[0], 0)) and
                                                     (const_is(k[0].args[1], 3)))
    ctx.check(ok, "result", f.qual, "over the first three vertices of the quad", where(f), key="result:quad")


# ------------------------------------------------------------------ the matrices

BASIS = ("eval_base_vector", "eval_diff_base_vector", "find_knot_interval")


def basis_of(t):
    t = canon(t)
    return BASES.get(t.args[1]) if t.op == "attr" and canon(t.args[0]) is SELF else None


class Assembly(Arr):
    """One pass of an assembling loop, counters at zero, basis values as symbols."""

    def __init__(self, tables=None):
        super().__init__(attr=self.at_attr, call=self.at_call)
        self.tables, self.cells, self.elems = tables or {}, {}, {}

    def at_attr(self, b, n, ev):
        u = basis_of(b)
        if u:
            return {"size": S.sym("n" + u), "degree": S.num(2), "n_intervals": S.sym("k" + u)}.get(n)
        return None

    def ev(self, t):
        if t.op == "elem":
            c = canon(t.args[0])
            if c.op == "pcall" and c.args[0] == "builtins.range":
                hi = operands(c)[-1]
                if hi.op == "attr" and hi.args[1] == "n_intervals" and basis_of(hi.args[0]):
                    return S.sym("i" + basis_of(hi.args[0]))
                if has(hi, ROLE["uv_q"]):
                    return S.sym("point")
        if t.op == "lphi":
            z = [x for x in t.args[1:] if isinstance(x, Tok) and canon(x) in self.tables]
            if z and isinstance(t.args[2], str):
                kind, b = self.tables[canon(z[0])]
                other = "v" if b == "u" else "u"
                if "_%s_basis.n_intervals" % b in t.args[2] and "_%s_basis" % other not in t.args[2]:
                    return self.layer(kind, b)
            init = t
            while init.op == "lphi" and isinstance(init.args[1], Tok):
                init = canon(init.args[1])
            if is_const(init):
                return S.lift(cval(init))
        if t.op == "item":
            b, k = canon(t.args[0]), canon(t.args[1])
            z = next((x for x in ([b] + [y for y in b.args if isinstance(y, Tok)]) if canon(x) in self.tables), None)
            if z is not None and k.op == "tuple" and len(k.args) == 3:
                kind, u = self.tables[canon(z)]
                if S.add(self(k.args[2]), S.sym("i" + u), -1).key() == S.num(0).key():
                    return self.layer(kind, u)
            if short(b) == "searchsorted":
                raise S.Unknown("interval")
        return super().ev(t)

    def layer(self, kind, b):
        return [[S.sym("%s%s%d%d" % (kind, b, min(i, j), max(i, j))) for j in range(3)] for i in range(3)]

    def coord(self, t):
        """0 or 1 when t is that parameter of the point of the loop."""
        b, k = at(canon(t))
        if b.op == "attr" and b.args[1] == ROLE["uv_q"] or final(b, ROLE["uv_q"]):
            k = [x for x in k if not (x.op == "slice" and (x.args[0] is NONE or const_is(x.args[0], 0)))]
            if len(k) == 2 and is_const(k[1]) and self(k[0]).key() == S.sym("point").key():
                return cval(k[1])
        if b.op == "elem" and final(canon(b.args[0]), ROLE["uv_q"]):
            k = [x for x in k if x.op != "slice"]
            if len(k) == 1 and is_const(k[0]):
                return cval(k[0])
        raise S.Unknown("parameter of the point")

    def at_call(self, t, args, ev):
        n = str(t.args[0]).split(".")[-1]
        if n == "find_knot_interval":
            u, c = basis_of(args[0]), self.coord(args[1])
            return S.sym(("i" if u == "uv"[c] else "interval of the other parameter ") + (u or "?"))
        if n in ("eval_base_vector", "eval_diff_base_vector"):
            u, i, c = basis_of(args[0]), self(args[1]), self.coord(args[2])
            good = u is not None and u == "uv"[c] and i.key() == S.sym("i" + u).key() and n == "eval_base_vector"
            return [S.sym("%s%d" % (u if good else n + "?" + str(u), k)) for k in range(3)]
        if n == "kron":
            x, y = self(args[0]), self(args[1])
            return [[S.mul(x[i // len(y)][j // len(y[0])], y[i % len(y)][j % len(y[0])]) for j in range(len(x[0]) * len(y[0]))]
                    for i in range(len(x) * len(y))]
        if n == "arange" and len(args) >= 1:
            a = [S.idx(self(x)) for x in args if x.op != "kw"]
            return [S.num(k) for k in range(*a)]
        return None

    def store(self, z, k, v):
        """Entries of a flat array."""
        d = self.cells.setdefault(z, {})
        k = canon(k)
        if k.op == "slice":
            lo = 0 if k.args[0] is NONE else S.idx(self(k.args[0]))
            hi = S.idx(self(k.args[1]))
            val = self(canon(v))
            if isinstance(val, list) and len(val) != hi - lo:
                raise S.Unknown("length of a slice")
            for j in range(lo, hi):
                d[j] = val[j - lo] if isinstance(val, list) else val
        else:
            d[S.idx(self(k))] = self(canon(v))


def matrix_of(o):
    """(data, row, col, shape) of the sparse matrix made on a path."""
    for t in subtoks(o.val):
        t = canon(t)
        if short(t) in ("csr_matrix", "coo_matrix", "csc_matrix"):
            a = operands(t)[0]
            sh = [canon(x.args[1]) for x in t.args if isinstance(x, Tok) and x.op == "kw" and x.args[0] == "shape"]
            if a.op == "tuple" and len(a.args) == 2 and canon(a.args[1]).op == "tuple":
                rc = canon(a.args[1])
                return canon(a.args[0]), canon(rc.args[0]), canon(rc.args[1]), sh[0] if sh else (operands(t) + [None])[1]
    raise AnalysisError("sparse matrix not found")


def innermost(evs, z):
    """Bodies of the loops with an entry set in the array z."""
    for e in evs:
        if e.kind != "loop":
            continue
        for b, fl in bodies(e):
            if any(x.kind == "setitem" and canon(x.recv) is z for x in b):
                yield b, fl
            yield from innermost(b, z)


def triples(asm, b, data, row, col):
    for e in b:
        if e.kind == "setitem" and canon(e.recv) in (data, row, col):
            asm.store(canon(e.recv), e.args[0], e.args[1])
    d, r, c = (asm.cells.get(x, {}) for x in (data, row, col))
    if not (set(d) == set(r) == set(c)):
        return None
    out = {}
    for k in d:
        p = (r[k].key(), c[k].key())
        out[p] = S.add(out[p], d[k]) if p in out else d[k]
    return out, len(d)


def step(b, n):
    """A counter is advanced by n each pass."""
    for e in b:
        if e.kind == "carry":
            for p, v in zip(e.args[::2], e.args[1::2]):
                if p.op == "lphi" and used(b, p):
                    return p, v
    return None, None


def used(b, p):
    return any(e.kind == "setitem" and any(x is p for x in subtoks(e.args[0])) for e in b)


def advance(ctx, f, asm, b, count, rule):
    p, v = step(b, count)
    if p is None:
        raise AnalysisError("counter of entries not found in " + f.qual)
    try:
        ok = S.idx(asm(v)) == count
    except S.Unknown:
        ok = False
    ctx.check(ok, rule, f.qual, "entries of passes do not overlap and leave no gap", where(f), key=rule + ":counter")


def shape_ok(asm, sh, rows, cols):
    if sh is None:
        return False
    b = canon(sh)
    if b.op != "tuple" or len(b.args) != 2:
        return False
    try:
        r = True if rows is None else asm(b.args[0]).key() == rows.key()
        return r and asm(b.args[1]).key() == cols.key()
    except S.Unknown:
        return False


def fit_matrix(ctx):
    f = ctx.prog.func(A + "_build_ls_matrix")
    nu, nv, iu, iv = (S.sym(x) for x in ("nu", "nv", "iu", "iv"))
    for o in ctx.run(f, keep_conds=True, policy=lambda g: "opaque" if g.name in BASIS else None, carry=True):
        if o.flow != "return":
            continue
        data, row, col, sh = matrix_of(o)
        bs = list(innermost(o.events(), data))
        if not bs:
            raise AnalysisError("assembling loop not found in " + f.qual)
        for b, fl in bs:
            ctx.saw("paths", f.qual)
            asm = Assembly()
            try:
                r = triples(asm, b, data, row, col)
            except S.Unknown as x:
                raise AnalysisError("assembly in %s: %s" % (f.qual, x))
            want = {}
            for n in range(3):
                for m in range(3):
                    c = S.add(S.add(S.mul(S.add(iv, S.num(n)), nu), iu), S.num(m))
                    want[(S.sym("point").key(), c.key())] = S.mul(S.sym("v%d" % n), S.sym("u%d" % m))
            ok = r is not None and set(r[0]) == set(want) and all(S.zero(S.add(r[0][k], want[k], -1)) for k in want)
            ctx.check(ok, "fit-matrix", f.qual, "row of a point has v[n] u[m] in column (iv + n) nu + iu + m", where(f), key="fit-matrix:entries")
            if r is not None and any(e.kind == "carry" for e in b):
                advance(ctx, f, asm, b, r[1], "fit-matrix")
            ctx.check(shape_ok(asm, sh, None, S.mul(nu, nv)), "fit-matrix", f.qual, "columns for all poles", where(f), key="fit-matrix:shape")


class Knots(Arr):
    """Quadrature on one knot interval, from knot a to knot b."""

    def __init__(self, elem):
        super().__init__(attr=self.at_attr)
        self.el = elem

    def ev(self, t):
        if t.op == "item":
            b, k = canon(t.args[0]), canon(t.args[1])
            if b.op == "attr" and b.args[1] == "knots" and k.op == "op" and k.args[0] == "+":
                x, y = canon(k.args[1]), canon(k.args[2])
                if is_const(x):
                    x, y = y, x
                if x is self.el and is_const(y):
                    return {2: S.sym("a"), 3: S.sym("b")}.get(cval(y)) or S.sym("knot%d" % cval(y))
            if b.op == "attr" and b.args[1] == "knots" and k is self.el:
                return S.sym("knot0")
        return super().ev(t)

    def at_attr(self, b, n, ev):
        return S.num(2) if n == "degree" else None


def outer_sum(t, z, out, w=None):
    """Terms weight * outer(vec, vec) of an accumulated value."""
    t = canon(t)
    if t.op in ("op", "aug") and t.args[0] == "+":
        outer_sum(t.args[1], z, out)
        outer_sum(t.args[2], z, out)
    elif t.op == "op" and t.args[0] == "*":
        x, y = canon(t.args[1]), canon(t.args[2])
        if short(y) != "outer":
            x, y = y, x
        if short(y) != "outer":
            raise AnalysisError("quadrature term not recognised")
        out.append((x, operands(y)))
    elif short(t) == "outer":
        out.append((T("const", 1) if w is None else w, operands(t)))
    elif t.op in ("lphi", "item", "initial") or t is z:
        return
    else:
        raise AnalysisError("quadrature sum not recognised: %r" % t)


def regular(ctx):
    f = ctx.prog.func(A + "_build_sparse_reg_matrix")
    nu, nv, iu, iv = (S.sym(x) for x in ("nu", "nv", "iu", "iv"))
    for o in ctx.run(f, keep_conds=True, policy=lambda g: "opaque" if g.name in BASIS else None, carry=True):
        if o.flow != "return":
            continue
        data, row, col, sh = matrix_of(o)
        tables = {}
        for b in loops(o.events()):
            sets = {}
            for e in flat_body(b):
                if e.kind == "setitem" and any(short(x) in BASIS[:2] for x in subtoks(canon(e.args[1]))):
                    sets[canon(e.recv)] = e
            for z, e in sets.items():
                r = quadrature(ctx, f, z, e)
                if r:
                    if z in tables and tables[z] != r:
                        raise AnalysisError("array of products set twice in " + f.qual)
                    tables[z] = r
        if len(tables) != 4:
            raise AnalysisError("arrays of products not found in %s: %d" % (f.qual, len(tables)))
        bs = list(innermost(o.events(), data))
        if not bs:
            raise AnalysisError("assembling loop not found in " + f.qual)
        for b, fl in bs:
            ctx.saw("paths", f.qual)
            asm = Assembly(tables)
            try:
                r = triples(asm, b, data, row, col)
            except S.Unknown as x:
                raise AnalysisError("assembly in %s: %s" % (f.qual, x))
            ok = r is not None
            if ok:
                want = {}
                for n in range(3):
                    for m in range(3):
                        for p in range(3):
                            for q in range(3):
                                rr = S.add(S.add(S.mul(S.add(iv, S.num(n)), nu), iu), S.num(m))
                                cc = S.add(S.add(S.mul(S.add(iv, S.num(p)), nu), iu), S.num(q))
                                L = asm.layer
                                want[(rr.key(), cc.key())] = S.add(S.mul(L("f", "v")[n][p], L("d", "u")[m][q]), S.mul(L("d", "v")[n][p], L("f", "u")[m][q]))
                ok = set(r[0]) == set(want)
            if ok:
                # a common factor that is the same on all intervals does not matter, the matrix is scaled by its norm
                facs = set()
                k0 = next(iter(want))
                fac = S.mul(r[0][k0], S.power(want[k0], -1))
                cand = [factor(r[0][k]) for k in (k0,)]
                fac = cand[0]
                ok = fac is not None and all(S.zero(S.add(r[0][k], S.mul(fac, want[k]), -1)) for k in want) and \
                    not any(x in repr(fac.key()) for x in ("'iu'", "'iv'"))
            ctx.check(ok, "regularisation", f.qual, "entry of two poles is the integral of products of u derivatives plus products of v derivatives",
                      where(f), key="regularisation:entries")
            if r is not None:
                advance(ctx, f, asm, b, r[1], "regularisation")
            ctx.check(shape_ok(asm, sh, S.mul(nu, nv), S.mul(nu, nv)), "regularisation", f.qual, "a row and a column for every pole", where(f),
                      key="regularisation:shape")


def factor(e):
    """Value with all layers of functions of v and derivatives in u at 1, the others at 0."""
    for b in "uv":
        for i in range(3):
            for j in range(i, 3):
                e = S.substitute(e, "f%s%d%d" % (b, i, j), S.num(1 if b == "v" else 0))
                e = S.substitute(e, "d%s%d%d" % (b, i, j), S.num(1 if b == "u" else 0))
    return None if S.zero(e) else e


def loops(evs):
    for e in evs:
        if e.kind == "loop":
            for b, fl in bodies(e):
                yield b


def flat_body(b):
    for e in b:
        if e.kind == "loop":
            for c, fl in bodies(e):
                yield from flat_body(c)
        else:
            yield e


def quadrature(ctx, f, z, e):
    """Check the rule that fills a layer of z; returns (kind, basis)."""
    key = canon(e.args[0])
    el = key.args[-1] if key.op == "tuple" else key
    el = canon(el)
    terms = []
    outer_sum(e.args[1], z, terms)
    K = Knots(el)
    w, x, kinds, same = [], [], set(), True
    for c, vs in terms:
        for v in vs:
            a = operands(v)
            kinds.add((short(v), basis_of(a[0])))
            same = same and canon(a[1]) is el and a[2] is operands(vs[0])[2]
        try:
            w.append(K(c))
            x.append(K(operands(vs[0])[2]))
        except S.Unknown as u:
            raise AnalysisError("quadrature in %s: %s" % (f.qual, u))
    if len(kinds) != 1:
        ctx.bad("quadrature", f.qual, "products of different functions in one layer", where(f), key="quadrature:same")
        return None
    n, b = kinds.pop()
    ctx.check(same, "quadrature", f.qual, "products of the functions of the interval at one point", where(f), key="quadrature:same")
    # exactness for polynomials on [0, 1]: substitute a = 0, b = 1 ... and affine in a, b
    deg = 4 if n == "eval_base_vector" else 2
    q = [S.substitute(S.substitute(t, "a", S.num(0)), "b", S.num(1)) for t in x]
    aff = all(S.zero(S.add(t, S.add(S.mul(S.add(S.num(1), r, -1), S.sym("a")), S.mul(r, S.sym("b"))), -1)) for t, r in zip(x, q))
    tot = S.total(w)
    ok = aff and not S.zero(tot)
    for k in range(1, deg + 1):
        mom = S.total([S.mul(c, S.power(r, k) if not S.zero(r) else S.num(0)) for c, r in zip(w, q)])
        d = S.add(S.mul(mom, S.num(k + 1)), tot, -1)
        ok = ok and (S.zero(d) or d.is_const() and abs(float(d.const())) < 1e-12)
    ctx.check(ok, "quadrature", f.qual, "the rule is exact for products of degree %d on the interval of the layer" % deg, where(f), key="quadrature:exact:" + n)
    return ("f" if n == "eval_base_vector" else "d", b)


# ------------------------------------------------------------------ the default quad

class Rect(Arr):
    """Rotations as products of c and s of one angle; extremes of the rotated hull as symbols of their direction."""

    def __init__(self, angle, state=None, new=None):
        super().__init__(call=self.at_call)
        self.angle, self.state, self.new = angle, state, new

    def ev(self, t):
        if t is self.angle:
            return S.sym("angle")
        if t.op == "item" and self.state is not None and canon(t.args[0]) is self.state and is_const(canon(t.args[1])):
            return self(self.new[cval(canon(t.args[1]))])
        if t.op == "ext" and str(t.args[0]).endswith(".pi"):
            return S.sym("pi")
        return super().ev(t)

    def at_call(self, t, args, ev):
        n = str(t.args[0]).split(".")[-1]
        if n in ("cos", "sin"):
            a = S.add(self(args[0]), S.sym("angle"), -1)
            k = S.mul(a, S.power(S.sym("pi"), -1))
            if not k.is_const() or (2 * k.const()) != int(2 * k.const()):
                raise S.Unknown("angle")
            q = (int(2 * k.const()) - (1 if n == "sin" else 0)) % 4
            c, s = S.sym("c"), S.sym("s")
            return [c, S.neg(s), S.neg(c), s][q]
        if n in ("nanmin", "nanmax", "min", "max", "amin", "amax") and args:
            b, k = at(canon(args[0]))
            if b.op in ("pcall", "call", "op") and len(k) == 1 and is_const(k[0]):
                d = [canon(a) for a in b.args[1:] if isinstance(a, Tok) and a.op not in ("uid", "v0", "ver", "site")]
                i = cval(k[0])
                rot = [x for x in d if any(short(y) in ("cos", "sin") for y in subtoks(x))]
                hull = [x for x in d if x not in rot and any(y.op == "param" for y in subtoks(x))]
                if len(hull) == 1 and len(rot) == 1 and (b.op == "op" and b.args[0] == "@" or short(b) in ("dot", "matmul")):
                    R = self(rot[0])
                    e = R[i] if d[0] is rot[0] else [r[i] for r in R]
                    return S.sym(n[-3:] + repr([x.key() for x in e]))
        return None


def rectangle(ctx):
    f = ctx.prog.func("bgem.bspline.bspline_approx.min_bounding_rect")
    n = 0
    for o in ctx.run(f, keep_conds=True, carry=True):
        if o.flow != "return":
            continue
        evs = list(o.events())
        ls = [e for e in evs if e.kind == "loop"]
        if len(ls) != 1:
            raise AnalysisError("loop over directions not found in " + f.qual)
        corners = {}
        for e in evs:
            if e.kind == "setitem" and canon(e.recv) is canon(o.val) and is_const(canon(e.args[0])):
                corners[cval(canon(e.args[0]))] = canon(e.args[1])
        if not corners:
            v = canon(o.val)
            while short(v) in ("array", "asarray") or v.op == "copyof":
                v = canon(v.args[1])
            if v.op in ("list", "tuple"):
                corners = dict(enumerate(canon(x) for x in v.args if isinstance(x, Tok) and x.op != "site"))
        if set(corners) != {0, 1, 2, 3}:
            raise AnalysisError("corners not found in " + f.qual)
        states = {canon(y.args[0]) for c in corners.values() for y in subtoks(c) if y.op == "item" and canon(y.args[0]).op == "lphi"}
        if len(states) != 1:
            raise AnalysisError("best rectangle not found in " + f.qual)
        state = states.pop()
        taken = kept = False
        for b, fl in bodies(ls[0]):
            ctx.saw("paths", f.qual)
            new = [canon(v) for e in b if e.kind == "carry" for q, v in zip(e.args[::2], e.args[1::2]) if canon(q) is state]
            new = [v for v in new if v is not state]
            conds = [e for e in b if e.kind == "cond"]
            if not new:
                kept = True
                continue
            taken = True
            if new[-1].op != "tuple":
                raise AnalysisError("best rectangle not recognised in " + f.qual)
            new = [canon(x) for x in new[-1].args]
            angs = {y for x in new for y in subtoks(x) if isinstance(y, Tok) and short(y) in ("cos", "sin") and y.op in ("pcall", "call")}
            cand = {z for y in angs for z in subtoks(y) if z.op in ("item", "elem") and any(w.op == "elem" for w in subtoks(z)) and
                    not any(short(w) in ("cos", "sin") for w in subtoks(z))}
            cand = [canon(z) for z in cand if not any(z is not y and z in set(subtoks(y)) for y in cand)]
            if len(set(cand)) != 1:
                raise AnalysisError("direction not found in " + f.qual)
            ang = cand[0]
            R = Rect(ang, state, new)
            try:
                ext = [[S.sym(m + repr([x.key() for x in e])) for m in ("min", "max")] for e in (
                    [S.sym("c"), S.sym("s")], [S.neg(S.sym("s")), S.sym("c")])]
                got = [R(corners[k]) for k in range(4)]
                want = []
                for i, j in ((0, 1), (0, 0), (1, 0), (1, 1)):
                    a, d = ext[0][i], ext[1][j]
                    want.append([S.add(S.mul(a, S.sym("c")), S.mul(d, S.sym("s")), -1), S.add(S.mul(a, S.sym("s")), S.mul(d, S.sym("c")))])
                ok = all(S.zero(S.add(g, w, -1)) for x, y in zip(got, want) for g, w in zip(x, y))
                area = S.mul(S.add(ext[0][1], ext[0][0], -1), S.add(ext[1][1], ext[1][0], -1))
                best = False
                if len(conds) == 1 and canon(conds[0].recv).op == "op" and canon(conds[0].recv).args[0] in ("<", "<=", ">", ">="):
                    t = canon(conds[0].recv)
                    x, y = canon(t.args[1]), canon(t.args[2])
                    if (t.args[0][0] == ">") == bool(conds[0].name):
                        x, y = y, x
                    if y.op == "item" and canon(y.args[0]) is state and is_const(canon(y.args[1])):
                        best = S.zero(S.add(R(x), area, -1)) and S.zero(S.add(R(new[cval(canon(y.args[1]))]), area, -1))
            except S.Unknown as x:
                raise AnalysisError("rectangle in %s: %s" % (f.qual, x))
            ctx.check(ok, "rectangle", f.qual, "corners are the extremes in two orthogonal directions, in the order of the quad", where(f),
                      key="rectangle:corners")
            ctx.check(best, "rectangle", f.qual, "a rectangle is taken when its area is smaller than that of the best one", where(f),
                      key="rectangle:area")
            ctx.check(directions(ang), "rectangle", f.qual, "all directions of edges of the hull are tried", where(f), key="rectangle:directions")
            n += 1
        ctx.check(taken, "rectangle", f.qual, "some rectangle is taken", where(f), key="rectangle:taken")
    if not n:
        raise AnalysisError("no rectangle in " + f.qual)


def directions(ang):
    """The direction is an element of the angles of all edges, possibly modulo a right angle."""
    t = ang
    if t.op == "item":
        k = canon(t.args[1])
        if k.op != "elem" or short(canon(k.args[0])) != "range" or len(operands(canon(k.args[0]))) != 1:
            return False
        n = operands(canon(k.args[0]))[0]
        t = canon(t.args[0])
        if not (n.op == "op" and n.args[0] == "len" and canon(n.args[1]) is t or n.op == "item" and n.args[0] is T("attr", t, "shape") or
                n.op == "attr" and n.args[1] == "size" and canon(n.args[0]) is t):
            return False
    elif t.op == "elem":
        t = canon(t.args[0])
    else:
        return False
    while True:
        if short(t) in ("unique", "abs", "absolute", "sort", "asarray", "array"):
            t = operands(t)[0]
        elif t.op == "copyof":
            t = canon(t.args[1])
        elif t.op == "op" and t.args[0] == "%":
            m = Rect(None)
            try:
                k = S.mul(m(canon(t.args[2])), S.power(S.sym("pi"), -1))
            except S.Unknown:
                return False
            if not k.is_const() or (2 * k.const()) != int(2 * k.const()) or not k.const():
                return False
            t = canon(t.args[1])
        else:
            break
    if short(t) != "arctan2":
        return False
    y, x = operands(t)[:2]
    (by, ky), (bx, kx) = at(y), at(x)
    if by is not bx or [cval(k) if is_const(k) else None for k in ky + kx] not in ([1, 0],):
        return False
    t = by
    if short(t) == "diff":
        return True
    if not (t.op == "op" and t.args[0] == "-"):
        return False
    (a, ka), (b, kb) = at(canon(t.args[1])), at(canon(t.args[2]))
    sl = sorted([tuple(None if z is NONE else cval(z) if is_const(z) else "?" for z in k[0].args[:2]) for k in (ka, kb) if len(k) == 1 and k[0].op == "slice"], key=str)
    return a is b and len(sl) == 2 and {sl[0], sl[1]} in ({(1, None), (None, -1)}, {(1, None), (0, -1)})


class Cloud(Arr):
    """A set of points by one generic point; selections and extreme points as symbols of the function that selects them."""

    def __init__(self, ps):
        super().__init__(call=self.at_call)
        self.ps = ps

    def ev(self, t):
        if t is self.ps:
            return [[S.sym("px"), S.sym("py")]]
        if t.op == "item":
            b, k = canon(t.args[0]), canon(t.args[1])
            if b is self.ps and short(k) in ("argmin", "argmax") and len(operands(k)) == 1:
                return self.extreme(k)
            if b is self.ps and k.op in ("list", "copyof", "tuple"):
                return self.rows(k)
            if short(b) in ("repeat", "compress") or b.op == "item" and canon(b.args[0]) is self.ps and canon(b.args[1]).op == "op":
                self.outer(b)
                if short(k) == "argmax" and canon(operands(k)[0]).op == "item":
                    # the farthest one among the selected
                    return self.extreme(T("pcall", k.args[0], canon(operands(k)[0]).args[0]))
                if is_const(k) or short(k) in ("argmin", "argmax"):
                    return [S.sym("selected point number %r %s" % (k, a)) for a in "xy"]
        return super().ev(t)

    def column(self, t):
        b, k = at(canon(t))
        if b is self.ps and len(k) == 1 and is_const(k[0]):
            return "column %d" % cval(k[0])
        return None

    def extreme(self, k):
        what = self.column(operands(k)[0])
        if what is None:
            d = self(operands(k)[0])
            what = repr((d[0] if isinstance(d, list) else d).key())
        return [S.sym("%s %s %s" % (short(k), what, a)) for a in "xy"]

    def rows(self, k):
        if k.op == "copyof":
            k = canon(k.args[1])
        ks = [canon(x) for x in k.args if isinstance(x, Tok) and x.op != "site"]
        if not all(short(x) in ("argmin", "argmax") for x in ks):
            raise S.Unknown("rows")
        return [self.extreme(x) for x in ks]

    def at_call(self, t, args, ev):
        n = str(t.args[0]).split(".")[-1]
        if n == "take" and len(args) >= 2 and canon(args[0]) is self.ps:
            return self.rows(canon(args[1]))
        return None

    def outer(self, t):
        """The function of the generic point that is positive on the selected points."""
        t = canon(t)
        if short(t) in ("repeat", "compress"):
            a = operands(t)
            b, k = (a[0], a[1]) if short(t) == "repeat" else (a[1], a[0])
        elif t.op == "item":
            b, k = canon(t.args[0]), canon(t.args[1])
        else:
            raise S.Unknown("selection")
        if b is not self.ps or k.op != "op" or k.args[0] not in ("<", ">"):
            raise S.Unknown("selection")
        x, y = canon(k.args[1]), canon(k.args[2])
        if k.args[0] == "<":
            x, y = y, x
        d = S.bc(lambda p, q: S.add(p, q, -1), self(x), self(y))
        return d[0] if isinstance(d, list) else d


def hull(ctx):
    f = ctx.prog.func("bgem.bspline.bspline_approx.convex_hull_2d")
    ps = T("param", f.pos_params()[0])
    n = 0
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        ctx.saw("paths", f.qual)
        evs = [e for e in flat(o.events()) if e.kind in ("cond", "call", "pcall")]
        C = Cloud(ps)
        sides, few = [], False
        try:
            for e in evs:
                if e.kind == "cond":
                    sel = [y for y in subtoks(canon(e.recv)) if short(y) in ("repeat", "compress") or y.op == "item" and canon(y.args[1]).op == "op"]
                    if not sel:
                        few = True
                        continue
                    top = [y for y in sel if not any(y is not z and y in set(subtoks(z)) for z in sel)]
                    sides.append((C.outer(top[0]), bool(e.name), []))
                elif str(e.name).endswith("dome"):
                    if not sides:
                        raise S.Unknown("call before a selection")
                    sides[-1][2].append((C.outer(e.args[0]), C(canon(e.args[1]))))
            if not sides:
                ctx.check(canon(o.val) is ps or canon(o.val).op == "copyof", "hull", f.qual, "a few points are their own hull", where(f), key="hull:few")
                continue
            n += 1
            h, t = [[S.sym("%s column 0 %s" % (m, a)) for a in "xy"] for m in ("argmin", "argmax")]
            h1, t1 = [[S.sym("%s column 1 %s" % (m, a)) for a in "xy"] for m in ("argmin", "argmax")]
            line = None
            for a, b in ((h, t), (t, h), (h1, t1), (t1, h1)):
                P = [S.sym("px"), S.sym("py")]
                d = [S.add(b[i], a[i], -1) for i in range(2)]
                r = [S.add(P[i], a[i], -1) for i in range(2)]
                cr = S.add(S.mul(d[0], r[1]), S.mul(d[1], r[0]), -1)
                for sg in (1, -1):
                    if S.zero(S.add(S.mul(S.num(sg), cr), sides[0][0], -1)) and line is None:
                        line = (a, b)
            ok = line is not None and len(sides) == 2 and S.zero(S.add(sides[0][0], sides[1][0]))
            ctx.check(ok, "hull", f.qual, "points on both sides of a line through two extreme points are examined", where(f), key="hull:sides")
            for d, some, calls in sides:
                if not some:
                    ctx.check(not calls, "hull", f.qual, "no points outside, nothing to add", where(f), key="hull:end")
                    continue
                piv = [S.sym("argmax %r %s" % (d.key(), a)) for a in "xy"]
                same = len(calls) == 2 and all(S.zero(S.add(c[0], d, -1)) for c in calls)
                far = same and [[x.key() for x in calls[0][1][1]], [x.key() for x in calls[1][1][0]]] == [[x.key() for x in piv]] * 2
                ends = same and line and {repr([x.key() for x in calls[0][1][0]]), repr([x.key() for x in calls[1][1][1]])} == \
                    {repr([x.key() for x in v]) for v in line}
                ctx.check(bool(far and ends), "hull", f.qual, "points outside are examined from the farthest of them to both ends", where(f), key="hull:farthest")
        except S.Unknown as x:
            raise AnalysisError("hull in %s: %s" % (f.qual, x))
    if not n:
        raise AnalysisError("no hull in " + f.qual)


# ------------------------------------------------------------------ settings and curves

def arguments(ctx):
    f = ctx.prog.func(A + "compute_approximation")
    kw = f.node.args.kwarg.arg if f.node.args.kwarg else None
    names = ("quad", "nuv", "regularization_weight")

    def pol(g):
        return "opaque" if g.__class__.__name__ == "Cls" or g.name in HELP else None
    for o in ctx.run(f, keep_conds=True, policy=pol):
        if o.flow != "return":
            continue
        for e in flat(o.events()):
            if e.kind != "write" or canon(e.recv) is not SELF:
                continue
            for t in subtoks(canon(e.args[0])):
                if short(t) != "get" or not operands(t) or operands(t)[0] is not T("param", kw):
                    continue
                a = operands(t)
                k = cval(a[1]) if is_const(a[1]) else None
                ok = k == e.name and len(a) > 2 and a[2] is T("attr", SELF, k) if canon(e.args[0]) is t and e.name in names else True
                ctx.check(ok, "arguments", f.qual, "%s given or as set before" % e.name, where(f), key="arguments:" + e.name)
    g = ctx.prog.func(A + "approx_from_grid_surface")
    src = T("param", [p for p in g.pos_params() if p != "self"][0])
    for o in ctx.run(g, keep_conds=True, policy=lambda h: "opaque" if h.__class__.__name__ == "Cls" or h.name == "eval_array" else None):
        if o.flow != "return":
            continue
        if any(e.kind == "cond" and canon(e.recv) is T("op", "is", T("attr", src, "quad"), NONE) and e.name for e in flat(o.events())):
            continue
        ctx.saw("paths", g.qual)
        made = canon(o.val)
        w = [canon(e.args[0]) for e in flat(o.events()) if e.kind == "write" and e.name == "quad" and canon(e.recv) is made] + \
            [canon(e.args[1]) for e in flat(o.events()) if e.kind in ("call", "pcall") and str(e.name).endswith("set_quad") and len(e.args) > 1]
        ok = bool(w)
        if ok:
            v = w[-1]
            while short(v) in ("copy", "array", "asarray") or v.op == "copyof":
                v = canon(v.args[1])
            ok = v is T("attr", src, "quad")
        ctx.check(ok, "arguments", g.qual, "the fit of a grid is over the quad of the grid", where(g), key="arguments:grid")
    h = ctx.prog.func("bgem.bspline.bspline_approx.surface_from_grid")
    nuv = T("param", "nuv")
    for o in ctx.run(h, keep_conds=True, policy=lambda x: "opaque" if x.name in ("compute_approximation", "approx_from_grid_surface") else None):
        if o.flow != "return":
            continue
        vs = [canon(t.args[1]) for t in subtoks(canon(o.val)) if t.op in ("kv", "kw") and len(t.args) == 2 and "nuv" in (t.args[0], show_const(t.args[0]))]
        ctx.check(len(vs) == 1 and vs[0] is nuv, "arguments", h.qual, "the given numbers of intervals are used", where(h), key="arguments:nuv")
    d = ctx.prog.func(A + "set_quad")
    for o in ctx.run(d, keep_conds=True):
        v = last_write(o, "quad")
        if v is None or v.op == "param":
            continue
        try:
            q = [[x.const() for x in r] for r in Arr()(v)]
        except (S.Unknown, AttributeError):
            continue
        ctx.check(q == [[0, 1], [0, 0], [1, 0], [1, 1]], "arguments", d.qual, "the standard quad is the unit square with u along x", where(d),
                  key="arguments:unit")
    n = ctx.prog.func(A + "compute_default_nuv")
    for o in ctx.run(n, keep_conds=True, policy=lambda x: "opaque" if x.name in ("_compute_uv_points", "_compute_default_nuv", "compute_default_quad") else None):
        if o.flow != "return":
            continue
        evs = [e for e in flat(o.events()) if e.kind in ("call", "pcall")]
        up = [i for i, e in enumerate(evs) if str(e.name).endswith("_compute_uv_points")]
        dn = [(i, e) for i, e in enumerate(evs) if str(e.name).endswith("._compute_default_nuv")]
        ok = len(dn) == 1 and up and up[-1] < dn[0][0]
        if ok:
            c = [canon(x) for x in dn[0][1].args if canon(x) is not SELF]
            ok = len(c) == 1 and (has(c[0], ROLE["z_q"]) or has(c[0], ROLE["uv_q"]))
        ctx.check(bool(ok), "arguments", n.qual, "default numbers of intervals are by the number of points in the quad", where(n), key="arguments:count")


def show_const(t):
    return cval(t) if isinstance(t, Tok) and is_const(t) else None


def curve(ctx):
    f = ctx.prog.func("bgem.bspline.bspline_approx.curve_from_grid")
    ps = T("param", f.pos_params()[0])
    n = 0
    for o in ctx.run(f, keep_conds=True, policy=lambda g: "opaque" if g.__class__.__name__ == "Cls" else None):
        if o.flow != "return":
            continue
        n += 1
        ctx.saw("paths", f.qual)
        evs = flat(o.events())
        cs = [e for e in evs if e.kind == "new" and str(e.name).endswith(".Curve")]
        bs = [e for e in evs if e.kind == "new" and str(e.name).endswith(".SplineBasis")]
        if len(cs) != 1 or len(bs) != 1:
            raise AnalysisError("curve not found in " + f.qual)
        poles = canon(cs[0].args[1])

        def part(t):
            for x in subtoks(canon(t)):
                if x.op == "item" and is_const(canon(x.args[1])):
                    b = canon(x.args[0])
                    if b.op == "item" and const_is(canon(b.args[1]), 0) and short(canon(b.args[0])) == "splprep":
                        return cval(canon(x.args[1]))
            return None
        ctx.check([part(x) for x in bs[0].args[:2]] == [2, 0] and part(poles) == 1, "curve", f.qual, "degree, knots and poles of the fit", where(f),
                  key="curve:fit")
        ends = {}
        for e in evs:
            if e.kind == "setitem" and canon(e.recv) is poles and is_const(canon(e.args[0])):
                ends[cval(canon(e.args[0]))] = canon(e.args[1])
            elif e.kind == "setitem" and canon(e.recv) is poles:
                k, v = canon(e.args[0]), canon(e.args[1])
                both = sorted(cval(canon(x)) for x in k.args if isinstance(x, Tok) and is_const(canon(x))) if k.op == "list" else \
                    sorted(cval(x) for x in subtoks(k) if is_const(x)) if k.op == "copyof" else None
                if both == [-1, 0] and v.op == "item" and canon(v.args[0]) is ps and repr(canon(v.args[1])) == repr(k):
                    ends = {j: T("item", ps, T("const", j)) for j in both}
                else:
                    raise AnalysisError("change of poles not recognised in " + f.qual)
        for k in (0, -1):
            v = ends.get(k)
            ok = v is not None and v.op == "item" and canon(v.args[0]) is ps and const_is(canon(v.args[1]), k)
            ctx.check(ok, "curve", f.qual, "pole %d is point %d" % (k, k), where(f), key="curve:end:%d" % k)
    if not n:
        raise AnalysisError("no path of " + f.qual)
