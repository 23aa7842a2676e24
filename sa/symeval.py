"""Symbolic evaluation of value tokens over constant tables and symbolic coordinates.

Expressions are kept in a normal form: polynomials with rational coefficients over atoms with rational exponents, where an atom is a
symbol or an opaque function of normal forms (roots of sums, absolute values, extrema). Equality of normal forms is equality of the
expressions (as algebraic identities); the converse is not needed, callers stay quiet on anything not evaluated."""
from fractions import Fraction
from math import prod, sqrt, isclose
from .tok import T, Tok, NONE, is_const, cval
from .rl import canon


class Unknown(Exception):
    pass


class OutOfTable(Unknown):
    """An index outside of the indexed table."""


class DivZero(Unknown):
    """A division by what is identically zero."""


class E:
    """Normal form: {monomial: coefficient}; monomial = tuple of (atom, exponent) sorted by repr."""
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((tuple((akey(a), e) for a, e in m), c) for m, c in self.t.items()), key=repr))
        return self._k

    def __eq__(self, o):
        return isinstance(o, E) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def is_const(self):
        return all(not m for m in self.t)

    def const(self):
        return self.t.get((), Fraction(0))


def akey(a):
    return tuple(x.key() if isinstance(x, E) else tuple(y.key() if isinstance(y, E) else y for y in x) if isinstance(x, tuple) else x for x in a)


def num(c):
    if isinstance(c, float):
        f = Fraction(c)
        g = f.limit_denominator(1000)
        f = g if abs(c) > 1e-6 and abs(float(g) - c) < 1e-14 * max(1, abs(c)) else f
        return E({(): f})
    return E({(): Fraction(c)})


def sym(name):
    return E({((("s", name), Fraction(1)),): Fraction(1)})


def add(a, b, k=1):
    r = dict(a.t)
    for m, c in b.t.items():
        r[m] = r.get(m, 0) + k * c
    return E(r)


def mono(m, n):
    d = {}
    for a, e in m + n:
        k = akey(a)
        if k in d:
            d[k] = (a, d[k][1] + e)
        else:
            d[k] = (a, e)
    return tuple(sorted((x for x in d.values() if x[1]), key=lambda x: repr(akey(x[0]))))


def fold(m):
    """Whole powers of numbers out of a monomial."""
    if not any(a[0] == "n" and not 0 <= e < 1 for a, e in m):
        return m, 1
    out, q = [], Fraction(1)
    for a, e in m:
        if a[0] == "n":
            i = e.numerator // e.denominator
            q *= a[1] ** i
            e -= i
        if e:
            out.append((a, e))
    return tuple(out), q


def primes(c):
    """Prime factorisation of a positive rational; None when it is too long."""
    d = {}
    for x, s in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        while f * f <= x and f < 2000:
            while x % f == 0:
                d[f] = d.get(f, 0) + s
                x //= f
            f += 1
        if x > 1:
            d[x] = d.get(x, 0) + s
    return d


def mul(a, b):
    r = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k, q = fold(mono(m, n)) if m and n else (m or n, 1)
            r[k] = r.get(k, 0) + c * d * q
    return E(r)


def power(a, p):
    p = Fraction(p).limit_denominator(1000) if isinstance(p, float) else Fraction(p)
    if p == 0:
        return num(1)
    if not a.t:
        if p > 0:
            return a
        raise DivZero("division by zero")
    if p.denominator == 1 and 0 < p <= 12:
        r = a
        for _ in range(int(p) - 1):
            r = mul(r, a)
        return r
    if len(a.t) == 1:
        (m, c), = a.t.items()
        m2 = tuple((x, e * p) for x, e in m)
        if p.denominator == 1:
            return E({m2: c ** int(p)})
        if c < 0:
            return E({((("root", a), p),): Fraction(1)})
        if c == 1:
            return E({m2: Fraction(1)})
        r = E({m2: Fraction(1)})
        for f, k in primes(c).items():
            mm, q = fold(((("n", Fraction(f)), k * p),))
            r = mul(r, E({mm: q}))
        return r
    # sum: leading coefficient out
    lead = sorted(a.t.items(), key=lambda x: repr([(akey(y), e) for y, e in x[0]]))[0][1]
    if p.denominator == 1:
        s = E({m: c / lead for m, c in a.t.items()})
        return E({((("sum", s), p),): Fraction(1) * lead ** int(p)})
    s = E({m: c / abs(lead) for m, c in a.t.items()})
    r = E({((("sum", s), p),): Fraction(1)})
    return mul(r, power(num(abs(lead)), p)) if abs(lead) != 1 else r


def neg(a):
    return E({m: -c for m, c in a.t.items()})


def absval(a):
    if a.is_const():
        return num(abs(a.const()))
    lead = sorted(a.t.items(), key=lambda x: repr([(akey(y), e) for y, e in x[0]]))[0][1]
    s = E({m: c / lead for m, c in a.t.items()})
    if len(s.t) == 1:
        (m, c), = s.t.items()
        if all(at[0] in ("sum", "abs", "n", "ext") and e.denominator != 1 or at[0] in ("abs",) for at, e in m):
            return mul(num(abs(lead)), s)
    return mul(num(abs(lead)), E({((("abs", s), Fraction(1)),): Fraction(1)}))


def nonneg(e):
    """Provably not negative; symbols named ("l", ..) and ("S", ..) are lengths and areas."""
    def atom(a, p):
        if p % 2 == 0 or p.denominator != 1:
            return True
        if a[0] == "s":
            return isinstance(a[1], tuple) and a[1][0] in ("l", "S")
        return a[0] == "abs" or a[0] == "n" and a[1] > 0 or a[0] in ("sum", "root") and nonneg(a[1]) or \
            a[0] == "ext" and all(nonneg(x) for x in a[2])
    return all(c > 0 and all(atom(a, p) for a, p in m) for m, c in e.t.items())


def extremum(kind, xs):
    u = []
    for x in xs:
        if x not in u:
            u.append(x)
    if len(u) == 1:
        return u[0]
    if all(x.is_const() for x in u):
        return num((max if kind == "max" else min)(x.const() for x in u))
    return E({((("ext", kind, tuple(sorted(u, key=lambda x: repr(x.key())))), Fraction(1)),): Fraction(1)})


# ---------------------------------------------------------------- arrays (nested lists of E)
def isarr(v):
    return isinstance(v, list)


def bc(f, a, b):
    if isarr(a) and isarr(b):
        if depth(a) > depth(b):
            return [bc(f, x, b) for x in a]
        if depth(b) > depth(a):
            return [bc(f, a, y) for y in b]
        if len(a) == 1 and len(b) > 1:
            a = a * len(b)
        elif len(b) == 1 and len(a) > 1:
            b = b * len(a)
        if len(a) != len(b):
            raise Unknown("shapes")
        return [bc(f, x, y) for x, y in zip(a, b)]
    if isarr(a):
        return [bc(f, x, b) for x in a]
    if isarr(b):
        return [bc(f, a, y) for y in b]
    return f(a, b)


def depth(a):
    return 1 + depth(a[0]) if isarr(a) and a else 0 if not isarr(a) else 1


def amap(f, a):
    return [amap(f, x) for x in a] if isarr(a) else f(a)


def leaves(a):
    if isarr(a):
        for x in a:
            yield from leaves(x)
    else:
        yield a


def total(xs):
    r = num(0)
    for x in xs:
        r = add(r, x)
    return r


def cross(a, b):
    return [add(mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3]), -1) for i in range(3)]


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = num(0)
    for j in range(n):
        r = add(r, mul(m[0][j], det([row[:j] + row[j + 1:] for row in m[1:]])), (-1) ** j)
    return r


def lift(v):
    """Python constant to a value."""
    if isinstance(v, bool):
        raise Unknown("bool")
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, (list, tuple)):
        return [lift(x) for x in v]
    raise Unknown(repr(v))


def idx(v):
    if isinstance(v, E) and v.is_const() and v.const().denominator == 1:
        return int(v.const())
    raise Unknown("index")


class Ev:
    """Evaluator; attr(base, name) and call(token, args) are the hooks for what depends on the analysed objects."""

    def __init__(self, attr=None, call=None, clsattr=None, param=None, phi_info=None):
        self.attr, self.call, self.clsattr, self.param = attr, call, clsattr, param
        self.env, self.phi_info = {}, phi_info or {}

    def __call__(self, t):
        t = canon(t)
        if t in self.env:
            return self.env[t]
        r = self.ev(t)
        return r

    def ev(self, t):
        o, a = t.op, t.args
        if o == "const":
            return lift(cval(t))
        if o == "tuple":
            return [self(x) for x in a]
        if o == "list":
            return [self(x) for x in a[1:]]
        if o == "copyof":
            r = self(a[1])
            if a[0] == "builtins.reversed" and isarr(r):
                return r[::-1]
            if a[0] in ("builtins.sorted", "builtins.set", "builtins.frozenset", "numpy.sort", "numpy.unique") and isarr(r):
                if len(r) > 1 and not all(isinstance(x, E) and x.is_const() for x in r) or len(a) > 3:
                    # an order known only at run time
                    return [sym((a[0], t, k)) for k in range(len(r))]
                if a[0] in ("builtins.sorted", "numpy.sort"):
                    return sorted(r, key=lambda x: x.const())
            return r
        if o == "param":
            if self.param is not None:
                r = self.param(a[0])
                if r is not None:
                    return r
            raise Unknown("param " + str(a[0]))
        if o == "clsattr":
            if self.clsattr is not None:
                return self.clsattr(a[0], a[1])
        if o == "attr":
            if self.attr is not None:
                r = self.attr(a[0], a[1], self)
                if r is not None:
                    return r
            raise Unknown("attr " + str(a[1]))
        if o == "item":
            return self.item(self(a[0]), a[1])
        if o == "op":
            return self.op(a)
        if o == "aug" and len(a) > 2 and a[0] in ("+", "-", "*", "/", "**", "@"):
            return self.op(a[:3])
        if o == "comp":
            return self.comp(t)
        if o in ("pcall", "call"):
            return self.fcall(t)
        raise Unknown(o)

    def item(self, base, k):
        k = canon(k)
        if k.op == "tuple":
            return self.items(base, list(k.args))
        return self.items(base, [k])

    def items(self, base, keys):
        if not keys:
            return base
        k, rest = keys[0], keys[1:]
        if k is NONE:
            return [self.items(base, rest)]
        if not isarr(base):
            raise Unknown("item of scalar")
        if k.op == "slice":
            s = slice(*[None if x is NONE else idx(self(x)) for x in k.args])
            return [self.items(x, rest) for x in base[s]]
        kv = self(k)
        if isarr(kv):
            return [self.items(self.at(base, idx(x)), rest) if not isarr(x) else [self.items(self.at(base, idx(y)), rest) for y in x] for x in kv]
        return self.items(self.at(base, idx(kv)), rest)

    def at(self, base, i):
        if not -len(base) <= i < len(base):
            raise OutOfTable("index out of table")
        return base[i]

    def op(self, a):
        n = a[0]
        if n == "neg":
            return amap(neg, self(a[1]))
        if n == "len":
            return num(len(self(a[1])))
        if len(a) < 3:
            raise Unknown(n)
        x, y = self(a[1]), self(a[2])
        if n == "+":
            return bc(add, x, y)
        if n == "-":
            return bc(lambda p, q: add(p, q, -1), x, y)
        if n == "*":
            return bc(mul, x, y)
        if n == "/":
            return bc(lambda p, q: mul(p, power(q, -1)), x, y)
        if n == "**":
            if isarr(y) or not y.is_const():
                raise Unknown("power")
            return amap(lambda p: power(p, y.const()), x)
        if n == "@":
            return self.dot(x, y)
        if n == "%" and not isarr(x) and not isarr(y):
            return num(idx(x) % idx(y))
        raise Unknown(n)

    def dot(self, x, y):
        if depth(x) == 1 and depth(y) == 1:
            return total(mul(p, q) for p, q in zip(x, y))
        if depth(x) == 2 and depth(y) == 1:
            return [self.dot(r, y) for r in x]
        if depth(x) == 1 and depth(y) == 2:
            return [self.dot(x, [r[j] for r in y]) for j in range(len(y[0]))]
        return [[self.dot(r, [q[j] for q in y]) for j in range(len(y[0]))] for r in x]

    def comp(self, t):
        kind, elt, coll, elem, conds = t.args[:5]
        coll = canon(coll)
        n = self.length(coll)
        if conds is not None and isinstance(conds, Tok) and conds.args:
            raise Unknown("filter")
        out = []
        for k in range(n):
            saved = dict(self.env)
            self.bind(elem, coll, k)
            out.append(self(elt))
            self.env = saved
        return out

    def length(self, coll):
        if coll.op == "zip":
            return min(self.length(canon(x)) for x in coll.args)
        if coll.op == "enum":
            return self.length(canon(coll.args[0]))
        return len(self(coll))

    def bind(self, elem, coll, k):
        """Let the loop element be item k of the collection."""
        if not isinstance(elem, Tok):
            return
        elem, coll = canon(elem), canon(coll)
        if coll.op in ("pcall", "call") and coll.args[0] in ("builtins.enumerate",):
            coll = T("enum", coll.args[1])
        if coll.op == "zip":
            subs = elem.args if elem.op == "tuple" else [T("item", elem, i) for i in range(len(coll.args))]
            for s, c in zip(subs, coll.args):
                self.bind(s, c, k)
            return
        if coll.op == "enum":
            if elem.op == "tuple" and len(elem.args) == 2:
                self.env[canon(elem.args[0])] = num(k)
                self.bind(elem.args[1], coll.args[0], k)
            return
        c = coll
        while c.op in ("pcall", "call") and c.args[0] in ("numpy.array", "numpy.asarray") or c.op == "copyof":
            c = canon(c.args[1])
        val = self(coll)[k]
        if elem.op in ("elem", "phi", "lphi", "idx"):
            self.env[elem] = val
        if elem.op == "tuple" and isarr(val) and len(val) == len(elem.args):
            for s, v in zip(elem.args, val):
                if isinstance(s, Tok) and canon(s).op in ("elem", "phi", "item"):
                    self.env[canon(s)] = v
        self.env[T("elem", coll, T("v0"))] = val
        if c.op == "comp" and canon(c.args[1]) is elem or c.op == "comp":
            # the element was replaced by the expression of the inner comprehension
            if isinstance(c.args[3], Tok):
                self.bind(c.args[3], c.args[2], k)

    def fcall(self, t):
        n = t.args[0]
        args = [x for x in t.args[1:] if isinstance(x, Tok) and x.op not in ("site", "uid", "ver", "v0", "clk")]
        if self.call is not None:
            r = self.call(t, args, self)
            if r is not None:
                return r
        kws = {x.args[0]: x.args[1] for x in args if x.op == "kw"}
        args = [x for x in args if x.op != "kw"]
        short = n.split(".")[-1] if isinstance(n, str) else None
        if n in ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple", "builtins.float", "builtins.int", ".copy", ".tolist", "numpy.squeeze"):
            return self(args[0])
        if n in ("numpy.stack", "numpy.column_stack", "numpy.vstack") and not set(kws) - {"axis"}:
            v = self(args[0])
            ax = idx(self(kws["axis"])) if "axis" in kws else 1 if "column" in n else 0
            if depth(v) == 2 and ax in (1, -1):
                return [list(c) for c in zip(*v)]
            if ax == 0:
                return v
            raise Unknown("stack")
        if kws and set(kws) - {"dtype"}:
            raise Unknown("keyword arguments")
        if n in ("numpy.abs", "builtins.abs", "numpy.absolute", "numpy.fabs", "math.fabs"):
            return amap(absval, self(args[0]))
        if n in ("numpy.sqrt", "math.sqrt"):
            return amap(lambda x: power(x, Fraction(1, 2)), self(args[0]))
        if n in ("numpy.sum", "builtins.sum", ".sum", "math.fsum"):
            return total(leaves(self(args[0])))
        if n in ("numpy.prod", ".prod", "math.prod"):
            r = num(1)
            for x in leaves(self(args[0])):
                r = mul(r, x)
            return r
        if n in ("numpy.max", "numpy.amax", "builtins.max", ".max", "numpy.maximum", "numpy.min", "numpy.amin", "builtins.min", ".min", "numpy.minimum"):
            xs = [x for a in args for x in leaves(self(a))]
            kind = "max" if "max" in short else "min"
            if kind == "max":
                rest = [x for x in xs if not (x.is_const() and 0 < x.const() < Fraction(1, 10 ** 100))]
                if rest and all(nonneg(x) for x in rest):
                    xs = rest
            return extremum(kind, xs)
        if n == "numpy.linalg.norm":
            v = self(args[0])
            if depth(v) != 1:
                raise Unknown("norm")
            return power(total(mul(x, x) for x in v), Fraction(1, 2))
        if n == "numpy.cross":
            x, y = self(args[0]), self(args[1])
            if depth(x) == 1 and depth(y) == 1 and len(x) == len(y) == 3:
                return cross(x, y)
            raise Unknown("cross")
        if n == "numpy.linalg.det":
            return det(self(args[0]))
        if n in ("numpy.dot", ".dot", "numpy.inner", "numpy.vdot"):
            return self.dot(self(args[0]), self(args[1]))
        if n in ("builtins.range", "numpy.arange"):
            return [num(i) for i in range(*[idx(self(x)) for x in args])]
        if n == "builtins.len":
            return num(len(self(args[0])))
        if n in ("numpy.argmax", "numpy.argmin"):
            xs = self(args[0])
            if all(isinstance(x, E) and x.is_const() for x in xs):
                vs = [x.const() for x in xs]
                return num(vs.index((max if n.endswith("max") else min)(vs)))
        raise Unknown("call " + str(n))


# ---------------------------------------------------------------- measures of normal forms
def degree(e, deg):
    """Homogeneous degree of a normal form; None when its terms differ; deg(symbol) gives the degree of a symbol."""
    ds = set()
    for m in e.t:
        d = Fraction(0)
        for a, p in m:
            x = adegree(a, deg)
            if x is None:
                return None
            d += x * p
        ds.add(d)
    return ds.pop() if len(ds) == 1 else Fraction(0) if not ds else None


def adegree(a, deg):
    if a[0] == "s":
        return Fraction(deg(a[1]))
    if a[0] == "n":
        return Fraction(0)
    if a[0] in ("sum", "root", "abs"):
        return degree(a[1], deg)
    if a[0] == "ext":
        ds = {degree(x, deg) for x in a[2]}
        return ds.pop() if len(ds) == 1 else None
    return None


def value(e, val):
    """Number for given values of the symbols."""
    s = 0.0
    for m, c in e.t.items():
        s += float(c) * prod(avalue(a, val) ** float(p) for a, p in m)
    return s


def avalue(a, val):
    if a[0] == "s":
        return val(a[1])
    if a[0] == "n":
        return float(a[1])
    if a[0] in ("sum", "root"):
        return value(a[1], val)
    if a[0] == "abs":
        return abs(value(a[1], val))
    return (max if a[1] == "max" else min)(value(x, val) for x in a[2])


def rename(e, f):
    """Normal form with symbols replaced by other symbols."""
    r = num(0)
    for m, c in e.t.items():
        p = num(c)
        for a, x in m:
            p = mul(p, power(arename(a, f), x))
        r = add(r, p)
    return r


def arename(a, f):
    if a[0] == "s":
        return sym(f(a[1]))
    if a[0] == "n":
        return num(a[1])
    if a[0] in ("sum", "root"):
        return rename(a[1], f)
    if a[0] == "abs":
        return absval(rename(a[1], f))
    return extremum(a[1], [rename(x, f) for x in a[2]])


def clear(e):
    """The normal form multiplied by the denominators (sums with negative exponents), expanded; zero iff e is zero."""
    for _ in range(12):
        low = {}
        for m in e.t:
            for a, x in m:
                if a[0] in ("sum", "root"):
                    low.setdefault(akey(a), [a, []])[1].append(x)
        todo = None
        for k, (a, xs) in low.items():
            if len(xs) < len(e.t):
                xs = xs + [Fraction(0)]
            if len({x % 1 for x in xs}) == 1 and (min(xs) != max(xs) or min(xs) < 0 or max(xs) >= 1):
                todo = (k, a, min(xs))
                break
        if todo is None:
            return e
        k, a, lo = todo
        r = num(0)
        for m, c in e.t.items():
            x = next((y for b, y in m if akey(b) == k), Fraction(0))
            rest = E({tuple((b, y) for b, y in m if akey(b) != k): c})
            d = x - lo
            if d:
                if d.denominator != 1 or d > 6:
                    raise Unknown("power")
                rest = mul(rest, power(a[1], int(d)))
            r = add(r, rest)
        e = r
    return e


def zero(e):
    """Is it identically zero?  (False also when undecided.)"""
    return not clear(e).t


def derive(e, s):
    """Derivative of a normal form with respect to a symbol."""
    r = num(0)
    for m, c in e.t.items():
        for i, (a, p) in enumerate(m):
            d = aderive(a, s)
            if not d.t:
                continue
            q = E({tuple(x for j, x in enumerate(m) if j != i): c * p})
            r = add(r, mul(mul(q, d), E({((a, p - 1),) if p != 1 else (): Fraction(1)})))
    return r


def aderive(a, s):
    if a[0] == "s":
        return num(1 if a[1] == s else 0)
    if a[0] in ("sum", "root"):
        return derive(a[1], s)
    if a[0] == "n":
        return num(0)
    raise Unknown("derivative")


def substitute(e, s, v):
    """Normal form with a symbol replaced by a normal form."""
    def at(a):
        if a[0] == "s":
            return v if a[1] == s else sym(a[1])
        if a[0] == "n":
            return num(a[1])
        if a[0] in ("sum", "root"):
            return substitute(a[1], s, v)
        if a[0] == "abs":
            return absval(substitute(a[1], s, v))
        return extremum(a[1], [substitute(x, s, v) for x in a[2]])
    r = num(0)
    for m, c in e.t.items():
        x = num(c)
        for a, p in m:
            x = mul(x, power(at(a), p))
        r = add(r, x)
    return r
