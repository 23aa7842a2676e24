"""P32: closed forms of the spline basis equal the recursive definition; derivatives, ends and knot intervals agree with it."""
from .. import symeval as S
from ..loader import AnalysisError
from ..rl import bodies, canon, fname, where
from ..tok import T, Tok, NONE, const, is_const, cval, subtoks
from .p31 import walk

LEVEL = "other"
TECHNIQUE = "value numbering in the domain of rational functions of symbolic knots and parameter (normal forms of the extracted expressions, algebraic derivative)"
EXPLANATION = ("The expressions of the recursive basis functions, of their closed forms and derivatives are extracted from the source, "
               "brought to a normal form as rational functions over symbolic knots and a symbolic parameter placed in an interval, and "
               "compared as functions. Branches depend only on the degree, the index and the order of the knots and the parameter and are "
               "decided from that order. Knots are symbolic; degrees 1 to 3 and all intervals of a clamped knot vector with interior "
               "and boundary intervals are enumerated.")
BA = "bgem.bspline.bspline.SplineBasis"
R = S.Fraction


class Basis:
    """Values of SplineBasis methods for degree p, size n and the parameter in (or at the start of) interval m, or at the end."""

    def __init__(self, ctx, p, n, m, at=None):
        self.ctx, self.p, self.n, self.m = ctx, p, n, m
        self.k = [S.sym(("k", min(max(j, p), n))) for j in range(n + p + 1)]
        self.t = S.sym(("t",)) if at is None else at
        self.memo = {}
        self.cls = ctx.prog.cls(BA)

    def pos(self, e):
        """Position of a knot or of the parameter in their order."""
        if len(e.t) == 1:
            (m, c), = e.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "s":
                s = m[0][0][1]
                if s[0] == "k":
                    return R(s[1])
                if s[0] == "t":
                    return R(self.m + self.p) + R(1, 2)
        return None

    def compare(self, op, a, b):
        if a.is_const() and b.is_const():
            x, y = a.const(), b.const()
        else:
            x, y = self.pos(a), self.pos(b)
            if x is None or y is None:
                d = S.add(a, b, -1)
                if op in ("==", "!="):
                    return S.zero(d) == (op == "==")
                if d.is_const():
                    x, y = d.const(), 0
                else:
                    return None
        return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}.get(op)

    def attr(self, name):
        if name == "knots":
            return self.k
        if name == "degree":
            return S.num(self.p)
        if name == "size":
            return S.num(self.n)
        if name == "n_intervals":
            return S.num(self.n - self.p)
        if name == "domain":
            return [self.k[self.p], self.k[self.n]]
        if name == "domain_size":
            return S.add(self.k[self.n], self.k[self.p], -1)
        if name == "knots_idx_range":
            return [S.num(self.p), S.num(self.n)]
        return None

    def outcomes(self, f):
        c = self.ctx.__dict__.setdefault("_p32", {})
        if f.qual not in c:
            c[f.qual] = list(self.ctx.run(f, keep_conds=True, carry=True,
                                          policy=lambda g: "opaque" if getattr(g, "cls", None) and g.cls.qual == BA and g.qual != f.qual or g.qual == f.qual else None))
        return c[f.qual]

    def method(self, name, *args):
        key = (name, tuple(a.key() for a in args))
        if key not in self.memo:
            f = self.ctx.prog.find_method(self.cls, name)
            if f is None:
                raise S.Unknown(name)
            self.memo[key] = self._method(f, args)
        v = self.memo[key]
        if isinstance(v, Exception):
            raise v
        return v

    def evaluator(self, f, args, o=None):
        ps = [p for p in f.pos_params() if p != "self"]
        env = dict(zip(ps, args))
        return BEv(self, env, o)

    def _method(self, f, args):
        vals, err = [], None
        for o in self.outcomes(f):
            ev = self.evaluator(f, args, o)
            try:
                ok = self.feasible(o.events(), ev)
            except S.Unknown as e:
                ok, err = False, e
            if ok is False or o.flow != "return":
                continue
            try:
                v = ev(o.val)
            except S.Unknown as e:
                err = e
                continue
            if v not in vals:
                vals.append(v)
        if len(vals) == 1 and err is None:
            return vals[0]
        return err or S.Unknown(f.name)

    def feasible(self, evs, ev):
        for e in evs:
            if e.kind == "cond" and isinstance(e.recv, Tok):
                t, want = canon(e.recv), str(e.name) == "True"
                while t.op == "op" and t.args[0] == "not":
                    t, want = canon(t.args[1]), not want
                if t.op == "op" and len(t.args) == 3 and t.args[0] in ("==", "!=", "<", "<=", ">", ">="):
                    a, b = ev(t.args[1]), ev(t.args[2])
                    if isinstance(a, S.E) and isinstance(b, S.E):
                        r = self.compare(t.args[0], a, b)
                        if r is not None and r != want:
                            return False
                        if r is None:
                            continue
        return True


class BEv(S.Ev):
    def __init__(self, b, env, o):
        super().__init__()
        self.b, self.penv, self.o = b, env, o

    def ev(self, t):
        o, a = t.op, t.args
        if o == "param" and a[0] in self.penv:
            return self.penv[a[0]]
        if o == "attr" and canon(a[0]).op == "param" and canon(a[0]).args[0] == "self":
            v = self.b.attr(a[1])
            if v is not None:
                return v
        if o in ("call", "pcall"):
            n = a[0]
            if n in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full") and self.o is not None:
                return self.filled(t)
            if n == "numpy.searchsorted":
                return self.search(a)
            if isinstance(n, str) and n in self.b.ctx.prog.funcs:
                f = self.b.ctx.prog.funcs[n]
                args = [x for x in a[1:] if isinstance(x, Tok) and x.op not in ("uid", "clk", "ver", "v0", "site")]
                if f.cls is not None and f.cls.qual == BA and args and canon(args[0]).op == "param" and canon(args[0]).args[0] == "self":
                    return self.b.method(f.name, *[self(x) for x in args[1:]])
        return super().ev(t)

    def filled(self, t):
        """Array filled by assignments to its constant positions."""
        n = S.idx(self(t.args[1]))
        out = [S.num(0)] * n
        for e in self.o.events():
            if e.kind == "loop":
                for b, fl in bodies(e):
                    if any(x.kind in ("setitem", "aug", "mut") and x.recv is not None and canon(x.recv) == canon(t) for x in walk(b)):
                        raise S.Unknown("filled in a loop")
            if e.kind == "setitem" and canon(e.recv) == canon(t):
                i = S.idx(self(e.args[0]))
                if not 0 <= i < n:
                    raise S.Unknown("position")
                out[i] = self(e.args[1])
            elif e.kind in ("aug", "mut") and e.recv is not None and canon(e.recv) == canon(t):
                raise S.Unknown("updated in place")
        return out

    def search(self, a):
        args = [x for x in a[1:] if isinstance(x, Tok) and x.op not in ("uid", "clk", "ver", "v0", "site")]
        side = "left"
        for x in args:
            if x.op == "kw" and x.args[0] == "side":
                side = cval(x.args[1])
        pos = [x for x in args if x.op != "kw"]
        if len(pos) > 2 and is_const(canon(pos[2])):
            side = cval(canon(pos[2]))
        arr, val = self(pos[0]), self(pos[1])

        def one(v):
            r = [self.b.compare("<=" if side == "right" else "<", x, v) for x in arr]
            if None in r:
                raise S.Unknown("order")
            return S.num(sum(r))
        return [one(v) for v in val] if S.isarr(val) else one(val)

    def fcall(self, t):
        n = t.args[0]
        if n in ("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum"):
            xs = [self(x) for x in t.args[1:] if isinstance(x, Tok) and x.op not in ("uid", "clk", "ver", "v0", "site", "kw")]
            if len(xs) == 2 and all(isinstance(x, S.E) for x in xs):
                r = self.b.compare("<=", xs[0], xs[1])
                if r is not None:
                    return xs[0] if r == ("min" in n) else xs[1]
        return super().fcall(t)


def same(a, b):
    return S.zero(S.add(a, b, -1))


def run(ctx):
    ctx.rule("sizes", "size, number of intervals and domain follow from the knots and the degree")
    ctx.rule("interval", "the interval of a parameter is the one whose bounds enclose it, closed from below, the last one at the end")
    ctx.rule("unity", "the basis functions add up to one and vanish outside of their support")
    ctx.rule("closed", "the closed form values equal the recursive basis functions")
    ctx.rule("derivative", "derivatives are derivatives of the values")
    ctx.rule("ends", "values and derivatives at the end of the domain are the limits from inside")
    ctx.rule("window", "vectors of values hold the nonzero functions of the interval in order")
    ctx.rule("clip", "a parameter out of the domain is moved to the end it exceeds")
    ctx.rule("linear", "poles of the identity reproduce the parameter")
    ctx.rule("equidistant", "equidistant knots meet both ends of the range")
    cls = ctx.prog.classes.get(BA)
    if cls is None:
        raise AnalysisError("no class " + BA)
    T_ = ("t",)
    F = lambda n: ctx.prog.find_method(cls, n)
    for need in ("_basis", "eval", "eval_diff", "find_knot_interval"):
        if F(need) is None:
            ctx.notes.append("no method " + need)
    fails, done = {}, set()

    def note(rule, name, ok, text):
        f = F(name)
        done.add((rule, name))
        if not ok:
            fails.setdefault((rule, name), set()).add(text)

    def attempt(rule, name, fn):
        if F(name) is None:
            return
        try:
            fn()
            ctx.saw("compared functions", "%s: %s" % (rule, name))
        except S.DivZero:
            note(rule, name, False, "a difference of equal knots is divided by")
        except S.Unknown as e:
            ctx.notes.append("%s: %s is not evaluated (%s)" % (rule, name, e))
    for p in (1, 2, 3):
        n = p + 4
        deg = "degree %d" % p
        for m in range(n - p):
            B = Basis(ctx, p, n, m)
            num = S.num

            def unity():
                v = [B.method("eval", num(i), B.t) for i in range(n)]
                note("unity", "_basis", same(S.total(v), num(1)), "%s: the sum of the basis functions in an interval is not one" % deg)
                note("unity", "_basis", all(not v[i].t for i in range(n) if not m <= i <= m + p),
                     "%s: a function is not zero outside of the knots of its support" % deg)
            attempt("unity", "eval", unity)

            def deriv():
                for i in range(n):
                    d = B.method("eval_diff", num(i), B.t)
                    v = B.method("eval", num(i), B.t)
                    note("derivative", "eval_diff", same(d, S.derive(v, T_)), "%s: derivative of function %s differs from the derivative of its value"
                         % (deg, where_(i, n)))
            attempt("derivative", "eval_diff", deriv)

            def bounds():
                v = B.method("knot_interval_bounds", num(m))
                note("interval", "knot_interval_bounds", S.isarr(v) and len(v) == 2 and v[0] == B.k[m + p] and v[1] == B.k[m + p + 1],
                     "the bounds of an interval are not its knots")
            attempt("interval", "knot_interval_bounds", bounds)

            def find():
                v = B.method("find_knot_interval", B.t)
                note("interval", "find_knot_interval", v == num(m), "the interval found does not contain the parameter")
                A = Basis(ctx, p, n, m, at=B.k[m + p])
                v = A.method("find_knot_interval", A.t)
                note("interval", "find_knot_interval", v == num(m), "a parameter equal to a knot is not found in the interval starting there")
                if m == n - p - 1:
                    A = Basis(ctx, p, n, m, at=B.k[n])
                    v = A.method("find_knot_interval", A.t)
                    note("interval", "find_knot_interval", v == num(m), "the end of the domain is not in the last interval")
            attempt("interval", "find_knot_interval", find)

            def supp():
                for i in range(n):
                    v = B.method("fn_supp", num(i))
                    note("unity", "fn_supp", S.isarr(v) and len(v) == 2 and v[0] == B.k[i] and v[1] == B.k[i + p + 1],
                         "the support of a function is not between its knots")
            attempt("unity", "fn_supp", supp)
            if p == 2:
                def closed():
                    v = B.method("_eval_vector_deg_2", num(m), B.t)
                    for j in range(3):
                        note("closed", "_eval_vector_deg_2", same(v[j], B.method("eval", num(m + j), B.t)),
                             "value %d differs from the basis function of the interval" % j)
                attempt("closed", "_eval_vector_deg_2", closed)

                def cdiff():
                    v = B.method("_eval_diff_vector_deg_2", num(m), B.t)
                    for j in range(3):
                        note("derivative", "_eval_diff_vector_deg_2", same(v[j], S.derive(B.method("eval", num(m + j), B.t), T_)),
                             "value %d differs from the derivative of the basis function" % j)
                attempt("derivative", "_eval_diff_vector_deg_2", cdiff)
        last = Basis(ctx, p, n, n - p - 1)
        end = Basis(ctx, p, n, n - p - 1, at=last.k[n])

        def ends():
            for i in range(n):
                v = S.substitute(last.method("eval", S.num(i), last.t), T_, last.k[n])
                note("ends", "eval", same(end.method("eval", S.num(i), end.t), v), "%s: the value of function %s at the end of the domain is not its limit" % (deg, where_(i, n)))
        attempt("ends", "eval", ends)

        def dends():
            for i in range(n):
                v = S.substitute(S.derive(last.method("eval", S.num(i), last.t), T_), T_, last.k[n])
                note("ends", "eval_diff", same(end.method("eval_diff", S.num(i), end.t), v),
                     "%s: the derivative of function %s at the end of the domain is not its limit" % (deg, where_(i, n)))
        attempt("ends", "eval_diff", dends)
        sizes(ctx, p, n, note)
        clip(ctx, p, n, note)
        linear(ctx, p, n, note, attempt)
    window(ctx, note)
    equidistant(ctx, note)
    for rule, name in sorted(done):
        f = F(name)
        bad = sorted(fails.get((rule, name), ()))
        ctx.check(not bad, rule, "%s.%s" % (fname(BA), name), "; ".join(bad[:4]), where(f))
    ctx.expect("compared functions", 7)


def where_(i, n):
    return "%d" % i if i < 2 else "last" if i == n - 1 else "last but one" if i == n - 2 else "inside"


def sizes(ctx, p, n, note):
    f = ctx.prog.func(BA + ".__init__")
    B = Basis(ctx, p, n, 0)
    ps = [x for x in f.pos_params() if x != "self"]
    for o in B.outcomes(f):
        if o.flow == "raise":
            continue
        vals = {e.name: e for e in o.events() if e.kind == "write" and e.recv is not None and canon(e.recv).op in ("param", "new") and e.args}
        for name in ("size", "n_intervals", "domain", "domain_size"):
            e = vals.get(name)
            if e is None:
                continue
            ev = BEv(B, {ps[0]: S.num(p), ps[1]: B.k}, o)
            try:
                v = ev(e.args[0])
            except S.Unknown as err:
                ctx.notes.append("%s of a new basis is not evaluated (%s)" % (name, err))
                continue
            want = B.attr(name)
            note("sizes", "__init__", v == want, "%s does not follow from the knots" % name)


def clip(ctx, p, n, note):
    f = ctx.prog.funcs.get(BA + ".check")
    if f is None:
        return
    B = Basis(ctx, p, n, 0)
    for pos, want in ((p - 1, B.k[p]), (n + 1, B.k[n]), (p, S.sym(("t",)))):
        A = Basis(ctx, p, n, 0)
        A.pos_t = R(pos) + R(1, 2)
        A.pos = lambda e, A=A, q=A.pos: A.pos_t if e == S.sym(("t",)) else q(e)
        for o in A.outcomes(f):
            if o.flow != "return":
                continue
            ev = A.evaluator(f, [A.t], o)
            try:
                if partial(A, o.events(), ev):
                    v = ev(o.val)
                    note("clip", "check", v == want, "a parameter %s the domain is changed to the wrong value"
                         % ("below" if pos < p else "above" if pos > n else "inside"))
            except S.Unknown:
                continue


def partial(B, evs, ev):
    """Feasible as far as the branches can be decided."""
    for e in evs:
        if e.kind == "cond" and isinstance(e.recv, Tok):
            try:
                if not B.feasible([e], ev):
                    return False
            except S.Unknown:
                continue
    return True


def linear(ctx, p, n, note, attempt):
    """poles[0] = start of the domain, poles[i+1] = poles[i] + step(i): sum of poles times functions is the parameter."""
    f = ctx.prog.funcs.get(BA + ".make_linear_poles")
    if f is None:
        return
    for m in range(n - p):
        B = Basis(ctx, p, n, m)
        for o in B.outcomes(f):
            if o.flow != "return" or o.val is None:
                continue
            lst = canon(o.val)
            while lst.op in ("call", "pcall") and lst.args[0] in ("numpy.array", "numpy.asarray"):
                lst = canon(lst.args[1])
            loops = [e for e in o.events() if e.kind == "loop"]
            if lst.op != "list" or len(lst.args) != 2 or len(loops) != 1:
                return
            rng = canon(loops[0].recv)
            bs = [b for b, fl in bodies(loops[0])]
            if rng.op not in ("call", "pcall") or rng.args[0] != "builtins.range" or len(bs) != 1:
                return
            app = [e for e in bs[0] if e.kind == "mut" and e.name == "append" and canon(e.recv) == lst]
            if len(app) != 1:
                return
            try:
                ev = BEv(B, {}, o)
                idxs = [S.idx(x) for x in ev(rng)]
                poles = [ev(lst.args[1])]
                last = S.sym(("P",))
                for i in idxs:
                    ev = LastEv(B, lst, last)
                    ev.env = {T("elem", rng, T("v0")): S.num(i)}
                    step = ev(app[0].args[0])
                    poles.append(S.substitute(step, ("P",), poles[-1]))
                note("linear", "make_linear_poles", len(poles) == n, "the number of poles is not the number of functions")
                if len(poles) != n:
                    return
                v = S.total(S.mul(poles[i], B.method("eval", S.num(i), B.t)) for i in range(n))
                note("linear", "make_linear_poles", same(v, B.t), "the function with these poles is not the identity"
                     + (" (it differs by the start of the domain)" if same(S.add(v, B.k[p]), B.t) else ""))
                ctx.saw("compared functions", "linear: make_linear_poles")
            except S.Unknown as e:
                ctx.notes.append("make_linear_poles is not evaluated (%s)" % e)


class LastEv(BEv):
    """Evaluation where the last item of the list being built is a symbol."""

    def __init__(self, b, lst, last):
        super().__init__(b, {}, None)
        self.lst, self.last = lst, last

    def ev(self, t):
        if t.op == "item" and canon(t.args[0]) == self.lst and is_const(canon(t.args[1])) and cval(canon(t.args[1])) == -1:
            return self.last
        if t.op == "elem":
            for k, v in self.env.items():
                if k.op == "elem" and canon(k.args[0]) == canon(t.args[0]):
                    return v
        return super().ev(t)


def window(ctx, note):
    """Vectors of values: functions i, .., i + degree in order."""
    for name, one in (("eval_vector", "eval"), ("eval_diff_vector", "eval_diff")):
        f = ctx.prog.funcs.get(BA + "." + name)
        if f is None:
            continue
        ps = [x for x in f.pos_params() if x != "self"]
        p, n = 2, 6
        B = Basis(ctx, p, n, 1)
        for o in B.outcomes(f):
            if o.flow != "return" or o.val is None:
                continue
            v = canon(o.val)
            while v.op in ("call", "pcall") and v.args[0] in ("numpy.array", "numpy.asarray") or v.op == "copyof":
                v = canon(v.args[1])
            rng = elt = None
            if v.op == "comp":
                rng, elt = canon(v.args[2]), canon(v.args[1])
            elif v.op == "list" and len(v.args) == 1:
                loops = [e for e in o.events() if e.kind == "loop"]
                if len(loops) == 1 and len(bodies(loops[0])) == 1:
                    app = [e for e in bodies(loops[0])[0][0] if e.kind == "mut" and e.name == "append" and canon(e.recv) == v]
                    if len(app) == 1:
                        rng, elt = canon(loops[0].recv), canon(app[0].args[0])
            if rng is None or elt.op not in ("call", "pcall"):
                continue
            try:
                ev = BEv(B, {ps[0]: S.num(1), ps[1]: B.t}, o)
                idxs = [S.idx(x) for x in ev(rng)]
                got = []
                for i in idxs:
                    w = LastEv(B, T("none"), None)
                    w.penv = {ps[0]: S.num(1), ps[1]: B.t}
                    w.env = {T("elem", rng, T("v0")): S.num(i)}
                    args = [x for x in elt.args[1:] if isinstance(x, Tok) and x.op not in ("uid", "clk", "ver", "v0", "site")]
                    got.append((elt.args[0], S.idx(w(args[1])), w(args[2])))
                want = [(BA + "." + one, 1 + j, B.t) for j in range(p + 1)]
                note("window", name, [g[1:] for g in got] == [g[1:] for g in want] and all(g[0] == BA + "." + one for g in got),
                     "the vector holds %s of functions %s instead of i, .., i + degree" % (elt.args[0].split(".")[-1], [g[1] - 1 for g in got]))
                ctx.saw("compared functions", "window: " + name)
            except S.Unknown as e:
                ctx.notes.append("%s is not evaluated (%s)" % (name, e))


def equidistant(ctx, note):
    """knots[i] = value(i) for interior i: the value is linear in i, the range start at i = degree and its end at the last interior i + 1."""
    f = ctx.prog.funcs.get(BA + ".make_equidistant")
    if f is None:
        return
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        for e in o.events():
            if e.kind != "loop" or e.recv is None:
                continue
            rng = canon(e.recv)
            if rng.op not in ("call", "pcall") or rng.args[0] != "builtins.range" or len(bodies(e)) != 1:
                continue
            st = [x for x in bodies(e)[0][0] if x.kind == "setitem"]
            if len(st) != 1:
                continue
            arr = canon(st[0].recv)
            if arr.op in ("call", "pcall") and arr.args[0] in ("numpy.array", "numpy.full", "numpy.asarray", "numpy.zeros", "numpy.ones", "numpy.empty"):
                kws = {x.args[0]: canon(x.args[1]) for x in arr.args[1:] if isinstance(x, Tok) and x.op == "kw"}
                pos = [x for x in arr.args[1:] if isinstance(x, Tok) and x.op not in ("kw", "uid", "clk", "ver", "v0", "site")]
                short = arr.args[0].split(".")[-1]
                dt = kws.get("dtype") or (pos[2] if short == "full" and len(pos) > 2 else pos[1] if short != "full" and len(pos) > 1 else None)
                src = pos[1] if short == "full" and len(pos) > 1 else pos[0] if short in ("array", "asarray") and pos else None
                inherits = dt is None and src is not None and any(x.op == "param" for x in subtoks(canon(src))) and \
                    not any(x.op == "const" and isinstance(cval(x), float) or x.op in ("call", "pcall") and x.args[0] == "builtins.float"
                            or x.op == "op" and x.args[0] == "/" for x in subtoks(canon(src)))
                isint = dt is not None and any(str(x.args[0]).split(".")[-1].startswith("int") for x in subtoks(dt) if x.args)
                note("equidistant", "make_equidistant", not inherits and not isint,
                     "the array of knots takes the type of the given range: knots of an integer range are truncated")
            for p in (1, 2, 3):
                N = 5
                ev = RangeEv({"degree": S.num(p), "n_intervals": S.num(N), "knot_range": [S.sym("a"), S.sym("b")]})
                try:
                    idxs = [S.idx(x) for x in ev(rng)]
                    note("equidistant", "make_equidistant", idxs in (list(range(p + 1, p + N)), list(range(p + 1, p + N + 1))), "interior knots are assigned to other positions")
                    for i in (p, p + 1, p + N - 1, p + N):
                        ev.env = {T("elem", rng, T("v0")): S.num(i)}
                        want = S.add(S.mul(S.sym("a"), S.num(R(N - i + p, N))), S.mul(S.sym("b"), S.num(R(i - p, N))))
                        note("equidistant", "make_equidistant", S.idx(ev(st[0].args[0])) == i and same(ev(st[0].args[1]), want),
                             "interior knots do not divide the range into equal parts")
                    ctx.saw("compared functions", "equidistant: make_equidistant")
                except S.Unknown as err:
                    ctx.notes.append("make_equidistant is not evaluated (%s)" % err)
        break


class RangeEv(S.Ev):
    def __init__(self, penv):
        super().__init__(param=lambda n: penv.get(n))

    def ev(self, t):
        if t.op == "elem":
            for k, v in self.env.items():
                if canon(k.args[0]) == canon(t.args[0]):
                    return v
        return super().ev(t)
