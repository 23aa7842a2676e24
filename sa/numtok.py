"""Polynomial normal forms of numeric value tokens."""
from .tok import Tok, T, is_const, cval
from .rl import canon

PASS = {".copy", ".reshape", ".ravel", ".flatten", ".squeeze", ".astype", ".tolist", ".transpose", ".T", "numpy.array", "numpy.asarray", "numpy.copy",
        "numpy.ravel", "numpy.squeeze", "numpy.reshape", "numpy.transpose", "numpy.ascontiguousarray", "numpy.atleast_1d", "copy.copy",
        "copy.deepcopy", "builtins.float", "numpy.asfarray", "numpy.float64", ".view", ".item", "numpy.expand_dims", "numpy.atleast_2d"}
SORT = {"numpy.sort", "builtins.sorted"}
LINEAR = {"numpy.dot", ".dot", "numpy.inner", "numpy.matmul"}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=str))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def pconst(c):
    return {(): c} if c else {}


def psym(s):
    return {(s,): 1}


def psub(p, sym, q):
    """Substitute polynomial q for the symbol."""
    r = {}
    for m, c in p.items():
        x = pconst(c)
        for s in m:
            x = pmul(x, q if s == sym else psym(s))
        r = padd(r, x)
    return r


def syms(p):
    return {s for m in p for s in m}


def operands(t):
    """(op, a, b) of an arithmetic token, in place updates and ufunc calls included."""
    if t.op in ("op", "aug") and len(t.args) >= 3 and t.args[0] in ("+", "-", "*", "/", "@", "**"):
        return t.args[0], t.args[1], t.args[2]
    if t.op == "pcall" and len(t.args) >= 3:
        o = {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.matmul": "@"}.get(t.args[0])
        if o:
            return o, t.args[1], t.args[2]
    return None


def poly(t, atom):
    """Polynomial of a token; atom(token) gives a polynomial for recognised tokens, None to look inside.
    Unrecognised operations become opaque symbols ('?', token)."""
    p = atom(t)
    if p is not None:
        return p
    if is_const(t):
        v = cval(t)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return pconst(v)
        return psym(("?", t.h))
    ab = operands(t)
    if ab and ab[0] in "+-*":
        a, b = poly(ab[1], atom), poly(ab[2], atom)
        return pmul(a, b) if ab[0] == "*" else padd(a, b, 1 if ab[0] == "+" else -1)
    if ab and ab[0] == "/" and is_const(ab[2]) and cval(ab[2]):
        return pmul(poly(ab[1], atom), pconst(1.0 / cval(ab[2])))
    if ab and ab[0] == "**" and is_const(ab[2]) and cval(ab[2]) in (1, 2, 3):
        a = poly(ab[1], atom)
        r = a
        for _ in range(int(cval(ab[2])) - 1):
            r = pmul(r, a)
        return r
    if t.op == "op" and t.args[0] == "neg":
        return pmul(poly(t.args[1], atom), pconst(-1))
    if t.op in ("pcall", "call") and t.args[0] in PASS and len(t.args) > 1 and isinstance(t.args[1], Tok):
        return poly(t.args[1], atom)
    if t.op == "attr" and t.args[1] == "T":
        return poly(t.args[0], atom)
    if t.op == "copyof":
        return poly(t.args[1], atom)
    return psym(("?", canon(t).h))
