"""P18: all evaluation methods of a surface agree."""
from ..loader import AnalysisError
from ..tok import Tok, T, subtoks, is_const, cval
from ..rl import canon, flat, fname, where
from ..numtok import poly, pconst, psym, padd, pmul, psub, syms, operands, PASS, SORT

LEVEL = "other"
TECHNIQUE = "symbolic affine-form analysis of every path returning Z values"
EXPLANATION = ("On every path of every public method of the Z surfaces the Z value handed out is, as a polynomial in the raw value R, the "
               "stored scale S and shift T, exactly S*R+T - or R where the path knows that no transform is set; the bounding box is "
               "ordered after scaling; the raw value is taken at the same point as the XY part; the stored matrix and the flag "
               "telling whether it is used are changed together, and baking the transform in resets them.")
MOD = "bgem.bspline.bspline"
ZS = MOD + ".Z_Surface"
GS = MOD + ".GridSurface"
SF = MOD + ".Surface"
STATIC = ("builtins.staticmethod", "builtins.classmethod")
RAWM = ("eval", "eval_array", "eval_local", "aabb")


def run(ctx):
    ctx.rule("affine", "every Z value handed out is S*R+T, the raw value only where no transform is set")
    ctx.rule("order", "bounds are ordered after a scale that can be negative")
    ctx.rule("point", "XY and Z parts of one result are evaluated at the same UV point")
    ctx.rule("matrix", "the stored matrix and its flag are set and reset together; baking resets them")
    ctx.rule("centre", "the shift stored by a transform keeps the centre value, taken without the previous transform")
    Z = Zs(ctx)
    for cq in (ZS, GS):
        c = ctx.prog.cls(cq)
        seen = set()
        for m in c.methods.values():
            if m.name in seen:
                continue
            seen.add(m.name)
            if m.name.startswith("_") or any(m.deco_is(ctx.prog, d) for d in STATIC):
                continue
            Z.method(m)
    Z.matrix()
    ctx.expect("values", 14)
    ctx.expect("methods returning Z", 10)


class Zs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.consts = {}
        self.filled, self.insort = {}, set()
        for at in ("z_scale", "z_shift"):
            self.consts[at] = const_field(ctx, GS, at)
        self.pure = {"bgem.bspline.bspline." + n for n in ("Surface", "SplineBasis")}

    def outs(self, f):
        pol = lambda g: "opaque" if (getattr(g, "cls", None) or g).qual in self.pure else None
        return self.ctx.run(f, keep_conds=True, policy=pol)

    # ---- recognising tokens ---------------------------------------------------------------------------------------
    def is_z(self, b):
        """The 1D surface holding raw Z values, or a copy of it: the owning Z surface token, else None."""
        b0 = b
        while True:
            if b.op in ("pcall", "call") and isinstance(b.args[0], str) and b.args[0] == SF + ".deep_copy" and len(b.args) > 1:
                b = b.args[1]
            elif b.op in ("pcall", "call") and b.args[0] in ("copy.copy", "copy.deepcopy") and len(b.args) > 1:
                b = b.args[1]
            elif b.op == "copyof":
                b = b.args[1]
            else:
                break
        if b.op == "attr" and b.args[1] == "z_surface" and not self.is_grid(b.args[0]):
            return b.args[0]
        return None

    def is_grid(self, t):
        """Token standing for a GridSurface (its z_surface is a Z_Surface)."""
        return t.op == "param" and self.grid and t.args[0] == "self"

    def raw(self, t):
        """Owner of the raw value token, else None."""
        if t.op in ("pcall", "call") and isinstance(t.args[0], str) and t.args[0].startswith(SF + ".") and \
                t.args[0].split(".")[-1] in RAWM and len(t.args) > 1:
            return self.is_z(t.args[1])
        if t.op == "attr" and t.args[1] == "poles":
            return self.is_z(t.args[0])
        if t.op == "attr" and t.args[1] == "grid_uvz" and self.is_grid(t.args[0]):
            return T("attr", t.args[0], "z_surface")
        return None

    def zpoles(self, t):
        """The poles of the 1D surface or a copy of them."""
        while t.op in ("pcall", "call", "copyof") and (t.op == "copyof" or t.args[0] in PASS) and len(t.args) > 1:
            t = t.args[1]
        return t.op == "attr" and t.args[1] == "poles" and self.is_z(t.args[0]) is not None

    def has_raw(self, t):
        return any(self.raw(x) is not None or x in self.filled for x in subtoks(t))

    def atom(self, t):
        if t in self.filled:
            return poly(self.filled[t], self.atom)
        if t in self.insort:
            self.insort.discard(t)
            p = poly(t, self.atom)
            self.insort.add(t)
            if "S" in syms(p):
                self.sorted = True
            return p
        if self.raw(t) is not None:
            return psym("R")
        if t.op == "item" and t.args[0].op == "attr" and is_const(t.args[1]) and cval(t.args[1]) in (0, 1, -1):
            n = t.args[0].args[1]
            k = "ST"[cval(t.args[1])]
            if n == "_z_mat":
                return psym(k)
            if n == "z_mat":
                return psym("user " + k)
        if t.op == "attr" and t.args[1] in self.consts and self.is_grid(t.args[0]) and self.consts[t.args[1]] is not None:
            return pconst(self.consts[t.args[1]])
        if t.op in ("pcall", "call") and isinstance(t.args[0], str):
            n = t.args[0]
            a = [x for x in t.args[1:] if isinstance(x, Tok) and x.op not in ("ver", "v0", "uid", "site", "kw")]
            if n in SORT and a:
                p = poly(a[0], self.atom)
                if "S" in syms(p):
                    self.sorted = True
                return p
            if n in ("numpy.amin", "numpy.amax", "numpy.min", "numpy.max", "builtins.min", "builtins.max", ".min", ".max",
                     "numpy.minimum", "numpy.maximum") and a and self.has_raw(a[0]):
                p = poly(a[0], self.atom)
                if "S" in syms(p):
                    self.sorted = True
                return p
            if n.split(".")[-1] in ("dot", "inner", "matmul") and len(a) >= 2:
                return self.lin(a)
        ab = operands(t)
        if ab and ab[0] == "@":
            return self.lin(ab[1:])
        if ab and ab[0] == "*" and self.has_raw(t):
            # weights of an interpolation do not matter, only the transform
            return None
        if t.op == "item":
            b = t.args[0]
            cs = self.parts(b)
            if cs is not None and len(cs) == 1:
                return poly(cs[0], self.atom)
            if cs is None and self.has_raw(b):
                p = poly(b, self.atom)
                if "R" in syms(p) and not any(isinstance(s, tuple) for s in syms(p)):
                    return p
        return None

    def lin(self, ops):
        r = [x for x in ops if self.has_raw(x)]
        return poly(r[0], self.atom) if len(r) == 1 else None

    def parts(self, t):
        """Components of a structural value that carry Z, None for a plain value."""
        if t.op in ("tuple", "list"):
            its = [x for x in t.args if isinstance(x, Tok)]
        elif t.op in ("pcall", "call") and t.args[0] in ("numpy.concatenate", "numpy.column_stack", "numpy.hstack", "numpy.stack", "numpy.dstack",
                                                         "numpy.append", "numpy.vstack", "numpy.insert") or \
                t.op in ("pcall", "call") and t.args[0] in PASS and len(t.args) > 1 and self.parts(t.args[1]) is not None:
            its = []
            for x in t.args[1:]:
                if isinstance(x, Tok) and x.op not in ("kw", "ver", "v0", "site", "uid"):
                    its += self.parts(x) if self.parts(x) is not None else [x]
        elif t.op == "item" and self.parts(t.args[0]) is not None:
            its = self.parts(t.args[0])
        else:
            return None
        res = []
        for x in its:
            ps = self.parts(x)
            res += ps if ps is not None else [x]
        return [x for x in res if self.has_raw(x)]

    # ---- methods --------------------------------------------------------------------------------------------------
    def method(self, m):
        self.grid = m.cls.qual == GS
        n = fname(m.qual)
        found = False
        for o in self.outs(m):
            if o.flow != "return" or o.val is None:
                continue
            evs = [e for e, l in flat(o.events())]
            self.prepare(evs)
            vals = self.final(o.val, evs)
            if not vals:
                continue
            found = True
            nohave = self.no_transform(evs)
            for v, e in vals:
                self.value(m, n, v, nohave, e)
            self.point(m, n, o.val, evs)
        if found:
            self.ctx.saw("methods returning Z", n)

    def prepare(self, evs):
        """Arrays created empty and filled element by element; arrays sorted in place."""
        self.filled, self.insort = {}, set()
        for e in evs:
            if e.kind == "setitem" and e.recv.op in ("pcall", "call") and e.recv.args[0] in (
                    "numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.empty_like", "numpy.zeros_like") and \
                    not e.recv in subtoks(e.args[1]) and self.has_raw(e.args[1]):
                self.filled[e.recv] = e.args[1]
            if e.kind in ("call", "mut") and e.name in (".sort", "sort") and e.recv is not None:
                self.insort.add(e.recv)

    def final(self, val, evs):
        """Final Z values in the returned structure."""
        base = canon(val)
        inplace = {}
        for e in evs:
            if e.kind == "setitem" and canon(e.recv) is base and self.has_raw(e.args[1]):
                inplace[canon(e.args[0])] = (e.args[1], e)
        if inplace:
            return list(inplace.values())
        if val.op == "new" or val.op in ("call", "pcall") and isinstance(val.args[0], str) and val.args[0] == SF:
            for e in evs:
                if e.kind in ("new", "call") and e.res is val:
                    res = []
                    for a in e.args:
                        if isinstance(a, Tok) and self.has_raw(a):
                            res += [(x, e) for x in (self.parts(a) if self.parts(a) is not None else [a])]
                    return res
            wr = [e for e in evs if e.kind == "write" and canon(e.recv) is base and e.name == "poles"]
            if wr:
                a = wr[-1].args[0]
                if not self.has_raw(a):
                    return []
                return [(x, wr[-1]) for x in (self.parts(a) if self.parts(a) is not None else [a])]
            return []
        ps = self.parts(val)
        if ps is None:
            ps = [val] if self.has_raw(val) else []
        return [(x, None) for x in ps]

    def no_transform(self, evs):
        """The path knows that no Z transform is set."""
        for e in evs:
            if e.kind == "cond" and e.recv is not None:
                t, v = e.recv, e.name
                while t.op == "op" and t.args[0] == "not":
                    t, v = t.args[1], not v
                if t.op == "attr" and t.args[1] == "_have_z_mat" and v is False:
                    return True
        return False

    def value(self, m, n, v, nohave, e):
        ctx = self.ctx
        self.sorted = False
        p = poly(v, self.atom)
        s = syms(p)
        loc = where(e) if e is not None else m.loc(m.node)
        if any(isinstance(x, tuple) for x in s) or "R" not in s:
            # other factors: not a recognised affine form, still no use of the user matrix and no double application
            top = [mm for mm in p if "R" in mm]
            deg = {mm.count("S") for mm in top}
            ctx.check(not any(isinstance(x, str) and x.startswith("user") for x in s), "affine", "user:" + n,
                      "%s uses the matrix given by the user in place of the stored one" % n, loc)
            ctx.check(not any(d > 1 for d in deg), "affine", "twice:" + n, "%s applies the scale more than once" % n, loc)
            ctx.notes.append("%s: unrecognised form of a Z value" % n)
            return
        ctx.saw("values", "%s %s" % (n, "no transform" if nohave else "transform"))
        want = {("R", "S"): 1, ("T",): 1}
        if nohave:
            p2 = psub(psub(p, "S", pconst(1)), "T", pconst(0))
            good = near(p2, {("R",): 1})
        else:
            good = near(p, want)
        what = "applies the transform as %s instead of S*R+T" % show_poly(p)
        if near(p, {("R",): 1}):
            what = "hands out the raw Z value although a transform may be set"
        if any(x.startswith("user") for x in s):
            what = "uses the matrix given by the user in place of the stored one"
        ctx.check(good, "affine", n, "%s %s" % (n, what), loc)
        if good and not nohave and any(isinstance(x, Tok) and x.op in ("pcall", "call") and x.args[0] == SF + ".aabb" for x in subtoks(v)):
            ctx.check(self.sorted, "order", n, "%s does not order the Z bounds after scaling, a negative scale swaps them" % n, loc)

    def point(self, m, n, val, evs):
        """XY and Z of one result belong to the same UV point."""
        zs, xys = set(), set()
        for x in list(subtoks(val)):
            if x.op not in ("pcall", "call") or not isinstance(x.args[0], str):
                continue
            last = x.args[0].split(".")[-1]
            a = [y.args[1] if y.op == "kw" else y for y in x.args[1:] if isinstance(y, Tok) and y.op not in ("ver", "v0", "uid", "site", "clk")]
            if self.raw(x) is not None and last in ("eval", "eval_array"):
                zs.add(tuple(leaves(a[1:])))
            elif last in ("uv_to_xy", "_linear_uv_to_xy", "_bilinear_uv_to_xy"):
                xys.add(tuple(leaves(a[1:])))
        if len(zs) == 1 and len(xys) == 1:
            self.ctx.check(zs == xys, "point", n, "%s evaluates Z and XY at different UV points" % n, m.loc(m.node))
        names = [p for p in m.pos_params() if p != "self"]
        if len(zs) == 1 and names and zs != {()}:
            z = list(zs)[0]
            root = [canon(x) for x in z]
            ok = True
            if len(names) == 1 and len(root) == 1:
                r = root[0]
                conv = r.op in ("call", "pcall") and str(r.args[0]).endswith("xy_to_uv")
                xy = "xy" in names[0]
                if r.op == "param" or conv:
                    ok = conv if xy else not conv
            elif len(root) == len(names) and all(x.op == "param" for x in root):
                ok = [x.args[0] for x in root] == names
            self.ctx.check(ok, "point", "arg:" + n, "%s evaluates Z at another point than the one given" % n, m.loc(m.node))

    # ---- matrix and flag ------------------------------------------------------------------------------------------
    def matrix(self):
        ctx = self.ctx
        c = ctx.prog.cls(ZS)
        self.grid = False
        me = T("param", "self")
        n_set = n_bake = 0
        for m in c.methods.values():
            if any(m.deco_is(ctx.prog, d) for d in STATIC):
                continue
            for o in self.outs(m):
                if o.flow == "raise":
                    continue
                n = fname(m.qual)
                mat = have = None
                setv = {}
                bake = None
                reset_after = True
                matv = None
                news, poles_set = {}, set()
                replaced = False
                self.prepare([])
                for e, l in flat(o.events()):
                    if e.kind == "write" and canon(e.recv) is me:
                        if e.name == "_z_mat":
                            matv = e.args[0]
                            mat = "id" if is_identity(matv) else "set"
                            setv = {}
                            if mat == "set":
                                k = consts_of(matv)
                                if k is not None and len(k) == 2:
                                    setv = dict(enumerate(k))
                        elif e.name == "_have_z_mat":
                            have = cval(e.args[0]) if is_const(e.args[0]) else "?" if whole(e.args[0]) else "part"
                    elif e.kind == "setitem" and (matv is not None and canon(e.recv) is canon(matv) or
                                                  canon(e.recv) is T("attr", me, "_z_mat")):
                        mat = "set"
                        setv[canon(e.args[0])] = (e.args[1], e)
                    if e.kind == "new" and e.name == SF:
                        news[e.res] = e
                    if e.kind == "write" and canon(e.recv) is me and e.name == "z_surface" and e.args[0] in news:
                        ps = [x for x in list(news[e.args[0]].args) + list((news[e.args[0]].kw or {}).values())
                              if isinstance(x, Tok) and x not in poles_set and self.has_raw(x)]
                        if ps:
                            bake = (e, ps[0])
                    if e.kind == "write" and canon(e.recv) is me and e.name == "z_surface":
                        replaced = True
                    if e.kind == "setitem" and self.zpoles(e.recv):
                        poles_set.add(e.recv)
                        bake = (e, e.args[1])
                        if canon(e.recv) is T("attr", T("attr", me, "z_surface"), "poles") and not replaced:
                            ctx.bad("matrix", "shared:" + n, "%s transforms the poles of the 1D surface in place, other owners of it see the "
                                                             "change" % n, where(e))
                    if e.kind == "write" and e.name == "poles" and self.is_z(e.recv) is not None and self.has_raw(e.args[0]):
                        bake = (e, e.args[0])
                        if canon(e.recv) is T("attr", me, "z_surface") and not replaced:
                            ctx.bad("matrix", "shared:" + n, "%s transforms the poles of the 1D surface in place, other owners of it see the "
                                                             "change" % n, where(e))
                loc = m.loc(m.node)
                if mat == "set":
                    n_set += 1
                    ctx.check(have is True or have == "?" or have is None and self.known_true(o), "matrix", "flag:" + n,
                              "%s stores a Z matrix without setting the flag telling that it is used" % n, loc)
                    self.centre(n, setv, loc)
                elif mat == "id" or have is False:
                    ctx.check(mat == "id" or mat is None and have is not False, "matrix", "identity:" + n,
                              "%s drops the flag of the Z transform and keeps its matrix" % n, loc)
                    ctx.check(have is not True, "matrix", "identity:" + n, "%s marks an identity matrix as a transform" % n, loc)
                if bake is not None and m.name != "__init__":
                    n_bake += 1
                    e, v = bake
                    self.sorted = False
                    p = poly(v, self.atom)
                    if "R" in syms(p) and not any(isinstance(x, tuple) for x in syms(p)):
                        ctx.check(near(p, {("R", "S"): 1, ("T",): 1}), "affine", "baked:" + n,
                                  "%s bakes %s into the poles instead of S*R+T" % (n, show_poly(p)), where(e))
                    ctx.check(mat == "id" and have is False, "matrix", "baked:" + n,
                              "%s bakes the transform into the poles and leaves it set, so it is applied twice" % n, where(e))
        ctx.saw("matrix changes", "%d set, %d baked" % (n_set, n_bake))
        if not n_set:
            raise AnalysisError("no method of Z_Surface stores a Z transform")

    def known_true(self, o):
        return any(e.kind == "cond" and e.recv is not None and e.recv.op == "attr" and e.recv.args[1] == "_have_z_mat" and e.name is True
                   for e, l in flat(o.events()))

    def centre(self, n, setv, loc):
        """T' = shift + (1 - S') * centre with the centre free of the previous transform."""
        ctx = self.ctx
        s = [v[0] if isinstance(v, tuple) else v for k, v in setv.items() if k == 0 or isinstance(k, Tok) and is_const(k) and cval(k) == 0]
        t = [v[0] if isinstance(v, tuple) else v for k, v in setv.items() if k == 1 or isinstance(k, Tok) and is_const(k) and cval(k) == 1]
        if len(s) != 1 or len(t) != 1:
            return

        def at(x):
            if x.op == "item" and is_const(x.args[1]) and cval(x.args[1]) in (0, 1):
                b = x.args[0]
                while b.op in ("pcall", "call", "copyof") and any(isinstance(y, Tok) for y in b.args):
                    b = next(y for y in b.args if isinstance(y, Tok))
                if b.op == "param":
                    return psym("z" if cval(x.args[1]) == 0 else "d")
            return self.atom(x)
        ps, pt = poly(s[0], at), poly(t[0], at)
        if any(isinstance(x, tuple) for x in syms(ps) | syms(pt)) or not syms(ps) <= {"z"}:
            ctx.notes.append("%s: unrecognised form of the stored matrix" % n)
            return
        ctx.saw("values", "%s stored matrix" % n)
        want = padd(psym("d"), pmul(padd(pconst(1), ps, -1), psym("R")))
        ok = near(pt, want)
        what = "the stored shift %s does not keep the centre of the surface" % show_poly(pt)
        if syms(pt) & {"S", "T"}:
            what = "the centre is evaluated with the previous transform still in place"
        ctx.check(near(ps, psym("z")), "centre", "scale:" + n, "%s stores a scale other than the one given" % n, loc)
        ctx.check(ok, "centre", n, "%s: %s" % (n, what), loc)


def whole(t):
    """The condition looks at both parts of the matrix (or at all of it)."""
    ks = {cval(x.args[1]) for x in subtoks(t) if x.op == "item" and is_const(x.args[1])}
    return not ks or {0, 1} <= ks


def const_field(ctx, cq, name):
    """The constant value of a field never set to anything else."""
    import ast
    vals = set()
    for f in ctx.prog.funcs.values():
        for x in ast.walk(f.node):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr == name:
                    inside = f.cls is not None and f.cls.qual == cq
                    v = getattr(x, "value", None)
                    if isinstance(x, ast.Assign) and isinstance(v, ast.Constant) and inside:
                        vals.add(v.value)
                    elif inside:
                        return None
    return vals.pop() if len(vals) == 1 else None


def is_identity(t):
    k = consts_of(t)
    return k is not None and len(k) == 2 and all(isinstance(x, Tok) and is_const(x) for x in k) and [cval(x) for x in k] == [1.0, 0.0]


def consts_of(t):
    t = canon(t)
    while t.op in ("pcall", "call") and t.args[0] in PASS and len(t.args) > 1:
        t = t.args[1]
    if t.op == "list":
        return [x for x in t.args[1:] if isinstance(x, Tok)] if not isinstance(t.args[0], Tok) else list(t.args)
    if t.op == "tuple":
        return list(t.args)
    return None


def leaves(ts):
    res = []
    for t in ts:
        t = canon(t)
        if t.op == "list" or t.op == "tuple":
            res += leaves([x for x in t.args if isinstance(x, Tok)])
        elif t.op in ("pcall", "call") and t.args[0] in PASS and len(t.args) > 1:
            res += leaves([t.args[1]])
        else:
            res.append(t)
    return res


def near(a, b):
    return all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-12 for k in set(a) | set(b))


def show_poly(p):
    return " + ".join(("" if c == 1 else "%g*" % c) + "*".join(str(s) for s in m) if m else "%g" % c for m, c in sorted(p.items(), key=str)) or "0"
