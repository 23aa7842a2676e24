"""Normal forms of array expressions: symeval extended by the array operations of numpy over tables of known shape.

`label` prepares a token: reads of fields and of arrays changed in place keep the part of their version that matters (before or after a
change), everything else is reduced by canon as usual."""
from itertools import product

from . import symeval as S
from .symeval import E, Unknown, Fraction, isarr, depth, amap, idx, num
from .tok import T, Tok, NONE
from .rl import canon


def label(t, memo=None):
    """Token with attr reads labelled 'pre'/'post' and arguments changed in place before the call wrapped as current values."""
    memo = {} if memo is None else memo
    if not isinstance(t, Tok):
        return t
    if t in memo:
        return memo[t]
    if t.op == "attr" and len(t.args) > 2 and isinstance(t.args[2], Tok) and t.args[2].op == "clk":
        r = T("attr", label(t.args[0], memo), t.args[1] + "'")
    elif t.op == "item" and isinstance(t.args[1], Tok) and t.args[1].op == "copyof" and t.args[1].args[0] == "builtins.list" \
            and isinstance(t.args[1].args[1], Tok) and t.args[1].args[1].op == "tuple":
        # a list of indices, not an index per axis
        r = T("item", label(t.args[0], memo), T("list", 0, *[label(a, memo) for a in t.args[1].args[1].args]))
    elif t.op in ("pcall", "call"):
        changed = {a.args[0] for a in t.args[1:] if isinstance(a, Tok) and a.op == "ver" and len(a.args) == 2 and isinstance(a.args[0], Tok)}
        fv = any(isinstance(a, Tok) and a.op == "ver" and any(isinstance(b, Tok) and b.op == "fv" for b in a.args) for a in t.args[1:])
        args = [T("current", label(a, memo)) if a in changed else label(a, memo) for a in t.args[1:]
                if not (isinstance(a, Tok) and a.op in ("ver", "v0"))]
        n = t.args[0]
        r = T(t.op, n + "'" if fv and isinstance(n, str) else n, *args)
    elif any(isinstance(a, Tok) for a in t.args) and t.op not in ("clk", "uid", "site"):
        r = T(t.op, *[label(a, memo) for a in t.args])
    else:
        r = t
    memo[t] = r
    return r


def shape(a):
    s = []
    while isarr(a):
        s.append(len(a))
        if not a:
            break
        a = a[0]
    return s


def ravel(a):
    return list(S.leaves(a))


def reshape(flat, dims):
    if len([d for d in dims if d == -1]) > 1:
        raise Unknown("reshape")
    if -1 in dims:
        p = 1
        for d in dims:
            p *= d if d != -1 else 1
        if p == 0 or len(flat) % p:
            raise Unknown("reshape")
        dims = [len(flat) // p if d == -1 else d for d in dims]
    n = 1
    for d in dims:
        n *= d
    if n != len(flat):
        raise Unknown("reshape")
    if len(dims) == 1:
        return list(flat)
    k = len(flat) // dims[0] if dims[0] else 0
    return [reshape(flat[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])]


def transpose(a):
    d = depth(a)
    if d < 2:
        return a
    if d == 2:
        return [list(c) for c in zip(*a)]
    raise Unknown("transpose")


def concat(parts, ax):
    if ax < 0:
        ax += depth(parts[0])
    if ax == 0:
        return [x for p in parts for x in p]
    if len({len(p) for p in parts}) != 1:
        raise Unknown("concatenate")
    return [concat([p[i] for p in parts], ax - 1) for i in range(len(parts[0]))]


def stack(parts, ax):
    if ax < 0:
        ax += depth(parts[0]) + 1
    if ax == 0:
        return list(parts)
    if len({len(p) for p in parts}) != 1:
        raise Unknown("stack")
    return [stack([p[i] for p in parts], ax - 1) for i in range(len(parts[0]))]


def reduce(a, axes, f):
    """f over the items along the axes."""
    if axes is None:
        return f(ravel(a))
    sh = shape(a)
    axes = {x % len(sh) for x in axes}
    keep = [i for i in range(len(sh)) if i not in axes]

    def at(ix):
        r = a
        for i in ix:
            r = r[i]
        return r

    def build(fixed):
        if len(fixed) < len(keep):
            return [build(fixed + [i]) for i in range(sh[keep[len(fixed)]])]
        d = dict(zip(keep, fixed))
        return f([at(ix) for ix in product(*[[d[i]] if i in d else range(sh[i]) for i in range(len(sh))])])
    return build([])


def inverse(m):
    if depth(m) != 2 or len(m) != 2 or len(m[0]) != 2:
        raise Unknown("inverse")
    (a, b), (c, d) = m
    k = S.power(S.det(m), -1)
    return [[S.mul(d, k), S.mul(S.neg(b), k)], [S.mul(S.neg(c), k), S.mul(a, k)]]


class Arr(S.Ev):
    """cur: current values of arrays changed in place, by token."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.cur = {}

    def ev(self, t):
        if t.op == "current":
            b = canon(t.args[0])
            if b in self.cur:
                return self.cur[b]
            raise Unknown("changed array")
        if t.op == "attr" and t.args[1] in ("T", "shape", "size", "ndim"):
            try:
                v = self(t.args[0])
            except Unknown as x:
                if t.args[1] != "size":
                    raise
                v = None
            if isarr(v):
                return transpose(v) if t.args[1] == "T" else [num(x) for x in shape(v)] if t.args[1] == "shape" else \
                    num(depth(v)) if t.args[1] == "ndim" else num(len(ravel(v)))
        return super().ev(t)

    def axes(self, kws, args, pos):
        k = kws.get("axis")
        if k is None and len(args) > pos:
            k = args[pos]
        if k is None or k is NONE:
            return None
        v = self(k)
        return [idx(x) for x in v] if isarr(v) else [idx(v)]

    def fcall(self, t):
        n = t.args[0]
        args = [x for x in t.args[1:] if isinstance(x, Tok) and x.op not in ("site", "uid", "ver", "v0", "clk")]
        if self.call is not None:
            r = self.call(t, args, self)
            if r is not None:
                return r
        kws = {x.args[0]: x.args[1] for x in args if x.op == "kw"}
        args = [x for x in args if x.op != "kw"]
        m = n.split(".")[-1] if isinstance(n, str) else None
        np_ = isinstance(n, str) and (n.startswith("numpy.") or n.startswith("."))
        if np_ and not set(kws) - {"axis", "dtype", "indexing"}:
            if m in ("array", "asarray", "copy", "tolist", "astype", "atleast_1d", "ascontiguousarray", "deepcopy") and args:
                return self(args[0])
            if m in ("mean", "average") and args:
                return reduce(self(args[0]), self.axes(kws, args, 1), lambda xs: S.mul(S.total(xs), num(Fraction(1, len(xs)))))
            if m == "sum" and args and depth(self(args[0])):
                return reduce(self(args[0]), self.axes(kws, args, 1), S.total)
            if m in ("amin", "amax", "min", "max") and len(args) == 1 + (len(args) > 1 and "axis" not in kws) and depth(self(args[0])):
                k = m[-3:]
                return reduce(self(args[0]), self.axes(kws, args, 1), lambda xs: S.extremum(k, xs))
            if m == "roll" and len(args) >= 2:
                ax = self.axes(kws, args, 2)
                a, s = self(args[0]), idx(self(args[1]))
                if ax == [0] or ax is None and depth(a) == 1:
                    return a[-s % len(a):] + a[:-s % len(a)]
                raise Unknown("roll")
            if m in ("concatenate", "hstack", "vstack", "append") and args:
                parts = [self(a) for a in args[:2]] if m == "append" else self(args[0])
                ax = self.axes(kws, args, 2 if m == "append" else 1)
                if m == "vstack":
                    parts, ax = [p if depth(p) > 1 else [p] for p in parts], [0]
                if m == "hstack":
                    ax = [1 if depth(parts[0]) > 1 else 0]
                return concat(parts, (ax or [0])[0])
            if m == "stack" and args:
                return stack(self(args[0]), (self.axes(kws, args, 1) or [0])[0])
            if m == "column_stack":
                return concat([p if depth(p) > 1 else [[x] for x in p] for p in self(args[0])], 1)
            if m == "meshgrid" and len(args) == 2:
                x, y = self(args[0]), self(args[1])
                ij = kws.get("indexing")
                if ij is not None and "ij" in repr(ij):
                    return [[[a for b in y] for a in x], [list(y) for a in x]]
                return [[list(x) for b in y], [[b for a in x] for b in y]]
            if m in ("ravel", "flatten") and len(args) == 1:
                return ravel(self(args[0]))
            if m == "reshape" and len(args) >= 2:
                dims = [self(a) for a in args[1:]]
                if len(dims) == 1 and isarr(dims[0]):
                    dims = dims[0]
                return reshape(ravel(self(args[0])), [idx(d) for d in dims])
            if m == "transpose" and len(args) == 1:
                return transpose(self(args[0]))
            if m == "inv" and len(args) == 1:
                return inverse(self(args[0]))
            if m in ("repeat", "tile") and len(args) == 2 and not kws:
                a, k = self(args[0]), idx(self(args[1]))
                a = a if isarr(a) else [a]
                if depth(a) == 1:
                    return [x for x in a for _ in range(k)] if m == "repeat" else a * k
            if m == "outer" and len(args) == 2:
                return [[S.mul(x, y) for y in ravel(self(args[1]))] for x in ravel(self(args[0]))]
            if m == "linspace" and len(args) == 3:
                a, b, k = self(args[0]), self(args[1]), idx(self(args[2]))
                return [S.add(a, S.mul(S.add(b, a, -1), num(Fraction(i, k - 1)))) for i in range(k)]
            if m in ("dot", "matmul") and len(args) == 2:
                return self.dot(self(args[0]), self(args[1]))
            if m in ("ones", "zeros") and args:
                d = self(args[0])
                d = [idx(x) for x in d] if isarr(d) else [idx(d)]
                k = 1
                for x in d:
                    k *= x
                return reshape([num(1 if m == "ones" else 0)] * k, d)
        return super().fcall(t)

    def play(self, e):
        """Follow an in-place change of an array: events in order of execution."""
        if e.recv is None or e.kind not in ("setitem", "aug"):
            return
        raw = label(e.recv)
        b = canon(raw)
        try:
            a = self.cur[b] if b in self.cur else self(raw)
        except Unknown:
            return
        try:
            if e.kind == "aug":
                v = self.apply(e.name, a, self(label(e.args[0])))
            else:
                v = self.put(a, canon(label(e.args[0])), self(label(e.args[1])))
            self.cur[b] = v
        except Unknown:
            self.cur.pop(b, None)

    def apply(self, op, x, y):
        self.env[T("lhs")], self.env[T("rhs")] = x, y
        return self.op((op, T("lhs"), T("rhs")))

    def put(self, a, k, v):
        keys = list(k.args) if k.op == "tuple" else [k]
        return self.puts(a, keys, v)

    def puts(self, a, keys, v):
        if not keys:
            return S.bc(lambda p, q: q, a, v) if isarr(a) else v
        k, rest = keys[0], keys[1:]
        a = list(a)
        if k.op == "slice":
            r = range(len(a))[slice(*[None if x is NONE else idx(self(x)) for x in k.args])]
            deep = isarr(v) and depth(v) > depth(a) - 1 - len(rest) if isarr(a) else False
            for j, i in enumerate(r):
                a[i] = self.puts(a[i], rest, v[j] if deep and len(v) == len(r) else v)
            return a
        i = idx(self(k))
        a[i] = self.puts(self.at(a, i), rest, v)
        return a
