"""P19: parameters are checked and located before evaluation."""
import ast
from ..loader import AnalysisError
from ..tok import Tok, T, subtoks, is_const, cval
from ..rl import canon, flat, fname, where
from ..numtok import poly, psym, padd, pconst, syms

LEVEL = "other"
TECHNIQUE = "value-flow analysis of evaluation paths and path conditions of the domain check"
EXPLANATION = ("On every abstract path of every public evaluation the value given to a basis is the result of the domain check of the same "
               "basis for the parameter of that direction, the interval is the one found by the same basis for the same checked "
               "value, and the pole ranges start at these intervals and have the length of the basis; every path of the domain "
               "check returns the value inside, the nearest end within the tolerance, and raises otherwise.")
MOD = "bgem.bspline.bspline"
SB = MOD + ".SplineBasis"
EVALS = ("eval_vector", "eval_diff_vector", "eval_base_vector", "eval_diff_base_vector", "_eval_vector_deg_2", "_eval_diff_vector_deg_2")
CHECK, FIND = SB + ".check", SB + ".find_knot_interval"


def run(ctx):
    ctx.rule("checked", "values passed to a basis are checked by the same basis and belong to its direction")
    ctx.rule("located", "the interval used is found by the same basis for the same checked value")
    ctx.rule("poles", "pole ranges start at the interval of their axis and have degree+1 items")
    ctx.rule("check", "the domain check: inside as given, nearest end within the tolerance, error otherwise")
    ctx.rule("find", "the interval search includes both domain ends")
    for n in ("check", "find_knot_interval", "eval_vector"):
        ctx.prog.func(SB + "." + n)
    dims = {"Curve": 1, "Surface": 2, "Z_Surface": 2}
    for cn in dims:
        c = ctx.prog.cls(MOD + "." + cn)
        for m in c.methods.values():
            if m.name.startswith("_") or any(m.deco_is(ctx.prog, d) for d in ("builtins.staticmethod", "builtins.classmethod")):
                continue
            if cn == "Z_Surface" and m.name == "transform":
                continue
            method(ctx, m)
    ctx.expect("evaluations", 4)
    ctx.expect("pole ranges", 4)
    for f in ctx.prog.funcs.values():
        if f.mod.name.startswith("bgem.bspline.") and f.mod.name != MOD and uses_find(f):
            others(ctx, f)
    check(ctx)
    find(ctx)


def pol(g):
    return "opaque" if (getattr(g, "cls", None) or g).qual == SB else None


def uses_find(f):
    return any(isinstance(x, ast.Attribute) and x.attr == "find_knot_interval" for x in ast.walk(f.node))


def scall(t, names):
    """(method, basis, args) of a call of a basis method."""
    if t.op in ("pcall", "call") and isinstance(t.args[0], str):
        n = t.args[0]
        s = n.split(".")[-1]
        if s in names and (n.startswith(SB + ".") or n == "." + s):
            a = [x for x in t.args[1:] if isinstance(x, Tok) and x.op not in ("ver", "v0", "uid", "site", "clk")]
            if a:
                return s, a[0], a[1:]
    return None


def bindex(b):
    """Direction of a basis token: 0 for the basis of a curve, 0/1 for U/V; None when unknown."""
    b = canon(b)
    if b.op == "item" and is_const(b.args[1]) and cval(b.args[1]) in (0, 1) and b.args[0].op == "attr" and b.args[0].args[1] == "basis":
        return cval(b.args[1])
    if b.op == "attr":
        return {"basis": 0, "u_basis": 0, "v_basis": 1, "_u_basis": 0, "_v_basis": 1}.get(b.args[1])
    return None


def eval_events(o):
    for e, loops in flat(o.events()):
        if e.kind == "call" and e.name and e.name.split(".")[-1] in EVALS and (e.name.startswith(SB + ".") or e.name.startswith(".")):
            a = list(e.args)
            if e.name.startswith(SB + "."):
                a = a[1:] if len(a) > 2 else a
            yield e, e.recv if e.recv is not None else e.args[0], a


def method(ctx, m):
    n = fname(m.qual)
    names = [p for p in m.pos_params() if p != "self"]
    for o in ctx.run(m, keep_conds=True, policy=pol):
        for e, b, a in eval_events(o):
            i, t = e.arg(1 if e.name.startswith(SB) else 0, "i_base"), e.arg(2 if e.name.startswith(SB) else 1, "t")
            if i is None or t is None:
                continue
            i, t, b = canon(i), canon(t), canon(b)
            k = bindex(b)
            ck, fd = scall(t, ("check",)), scall(i, ("find_knot_interval",))
            loc = where(e)
            ctx.saw("evaluations", n)
            if i.op == "param":
                # located by the caller: positions must agree
                h = len(names) // 2
                ctx.check(t.op == "param" and len(names) == 2 * h and t.args[0] in names[:h] and
                          names.index(i.args[0]) == names.index(t.args[0]) + h, "located", "pair:" + n,
                          "%s evaluates a value with the interval of another one" % n, loc)
                if t.op == "param" and k is not None and t.args[0] in names[:h]:
                    ctx.check(names.index(t.args[0]) == k, "checked", "direction:" + n,
                              "%s evaluates a parameter in the basis of the other direction" % n, loc)
                continue
            if ck is None and not any(x.op == "param" or x.op == "elem" for x in subtoks(t)):
                continue            # not a given parameter
            ctx.check(ck is not None, "checked", "unchecked:" + n, "%s evaluates a parameter that is not checked" % n, loc)
            if ck is not None:
                ctx.check(canon(ck[1]) is b, "checked", "basis:" + n, "%s checks a parameter in one basis and evaluates it in another one" % n, loc)
                d = pindex(canon(ck[2][0]), names) if ck[2] else None
                if d is not None and k is not None:
                    ctx.check(d == k, "checked", "direction:" + n, "%s evaluates a parameter in the basis of the other direction" % n, loc)
            if fd is not None:
                ctx.check(canon(fd[1]) is b, "located", "basis:" + n, "%s uses an interval found in another basis" % n, loc)
                ctx.check(fd[2] and canon(fd[2][0]) is t, "located", "value:" + n,
                          "%s uses the interval found for another value than the one evaluated" % n, loc)
            elif i.op != "const" and not scall(i, ()):
                ctx.notes.append("%s: interval of unknown origin" % n)
        if o.flow == "return" and o.val is not None:
            ranges(ctx, m, n, names, o)


def pindex(t, names):
    """Direction of the parameter: by the position of the argument or of the column."""
    if t.op == "param" and t.args[0] in names:
        i = names.index(t.args[0])
        return i if i < 2 and len(names) in (1, 2) else None
    if t.op == "item" and is_const(t.args[1]) and cval(t.args[1]) in (0, 1):
        if any(x.op in ("param", "elem") for x in subtoks(t.args[0])):
            return cval(t.args[1])
    if t.op == "item" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and is_const(t.args[1].args[1]) and cval(t.args[1].args[1]) in (0, 1):
        return cval(t.args[1].args[1])
    return None


def ranges(ctx, m, n, names, o):
    for x in subtoks(o.val):
        if x.op != "item":
            continue
        b = x.args[0]
        if b.op != "attr" or b.args[1] not in ("poles", "_poles", "_weights"):
            continue
        owner = canon(b.args[0])
        keys = list(x.args[1].args) if x.args[1].op == "tuple" else [x.args[1]]
        for axis, k in enumerate(keys[:2]):
            if k.op != "slice":
                continue
            lo, hi = canon(k.args[0]), canon(k.args[1])
            if lo.op == "const" and cval(lo) in (None, 0):
                continue
            fd = scall(lo, ("find_knot_interval",))
            ctx.saw("pole ranges", n)
            loc = m.loc(m.node)
            if fd is not None:
                bi = bindex(fd[1])
                ctx.check(bi is None or bi == axis, "poles", "axis:" + n, "%s takes the poles of one axis by the interval of the other one" % n, loc)
            elif lo.op == "param":
                h = len(names) // 2
                if lo.args[0] in names:
                    ctx.check(names.index(lo.args[0]) == axis + h, "poles", "axis:" + n,
                              "%s takes the poles of one axis by the interval of the other one" % n, loc)
            else:
                continue

            def atom(t):
                t = canon(t)
                if t is lo:
                    return psym("i")
                if t.op == "attr" and t.args[1] == "degree":
                    bi = bindex(t.args[0])
                    return psym("degree%s" % ("" if bi is None else bi))
                return None
            p = poly(hi, atom)
            if not any(isinstance(s, tuple) for s in syms(p)) and "i" in syms(p):
                one = {("i",): 1, ("degree%d" % axis,): 1, (): 1}
                ctx.check(p == one, "poles", "length:" + n, "%s takes a wrong number of poles along axis %d" % (n, axis), loc)


def others(ctx, f):
    """Users of located intervals outside of the evaluation."""
    n = fname(f.qual)
    for o in ctx.run(f, keep_conds=True, policy=pol):
        for e, b, a in eval_events(o):
            a = [x for x in a if isinstance(x, Tok)]
            if len(a) < 2:
                continue
            i, t, b = canon(a[-2]), canon(a[-1]), canon(b)
            fd = scall(i, ("find_knot_interval",))
            if fd is None:
                continue
            ctx.saw("evaluations", n)
            ctx.check(canon(fd[1]) is b, "located", "basis:" + n, "%s uses an interval found in another basis" % n, where(e))
            ctx.check(fd[2] and canon(fd[2][0]) is t, "located", "value:" + n,
                      "%s uses the interval found for another value than the one evaluated" % n, where(e))


# ---- the domain check -----------------------------------------------------------------------------------------------
def dom(t):
    """'lo'/'hi' for the ends of the domain."""
    t = canon(t)
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "domain":
        i = canon(t.args[1])
        while i.op in ("pcall", "call") and i.args[0] in ("builtins.int", "builtins.bool"):
            i = canon(i.args[1] if isinstance(i.args[1], Tok) else i.args[2])
        if is_const(i):
            return {0: "lo", 1: "hi", -1: "hi", -2: "lo"}.get(cval(i))
    return None


def check(ctx):
    f = ctx.prog.func(CHECK)
    par = [p for p in f.pos_params() if p != "self"]
    tn = par[0]

    def atom(t):
        d = dom(t)
        if d:
            return psym(d)
        if t.op == "param" and t.args[0] == tn:
            return psym("t")
        return None
    n_ret = n_raise = 0
    tols = {"lo": set(), "hi": set()}
    unknown = False
    outs = ctx.run(f, keep_conds=True)
    infos = []
    for o in outs:
        known = {}
        for e, l in flat(o.events()):
            if e.kind != "cond" or e.recv is None:
                continue
            t, v = canon(e.recv), e.name
            while t.op == "op" and t.args[0] == "not":
                t, v = t.args[1], not v
            if t.op == "op" and t.args[0] in ("<", "<=", ">", ">=") and len(t.args) == 3:
                p = padd(poly(t.args[1], atom), poly(t.args[2], atom), -1)
                if t.args[0] in (">", ">="):
                    p = {m: -c for m, c in p.items()}
                strict = t.args[0] in ("<", ">")
                k = kind(p)
                if k:
                    side, tol, sg = k
                    # p < 0 with sg=1: t below the bound; sg=-1: t above the bound
                    if tol:
                        tols[side].add(tuple(sorted(tol.items(), key=str)))
                    if (side == "lo") == (sg == 1):
                        known[(side, bool(tol))] = v             # outside on this side is v
                        if not strict and not tol and v:
                            known[(side, "eq")] = True
                    elif v:
                        # inside test written the other way (bound < t)
                        known[(side, bool(tol))] = False
                    else:
                        known[(side, bool(tol))] = True
                        if strict and not tol:
                            known[(side, "eq")] = True
                else:
                    unknown = True
            elif t.op not in ("const",):
                unknown = True
        infos.append((o, known))
    if unknown:
        ctx.notes.append("the domain check has a condition of unrecognised form")
    loc = f.loc(f.node)
    for o, known in infos:
        if o.flow == "raise":
            n_raise += 1
            if not unknown:
                out = known.get(("lo", True)) is True or known.get(("hi", True)) is True
                ctx.check(out, "check", "raise", "the domain check raises for a value within the tolerance", loc)
            continue
        n_ret += 1
        v = canon(o.val) if o.val is not None else None
        if v is None or is_const(v) and cval(v) is None:
            ctx.bad("check", "value", "the domain check returns nothing on some path", loc)
            continue
        d = dom(v)
        intol = {s: known.get((s, True)) is False or known.get((s, False)) is False for s in ("lo", "hi")}
        if v.op == "param":
            ctx.check(v.args[0] == tn and (unknown or known.get(("lo", False)) is False and known.get(("hi", False)) is False), "check", "inside",
                      "the domain check returns a value as given although it can be outside of the domain", loc)
        elif d:
            other = "hi" if d == "lo" else "lo"
            near = known.get((d, False)) is True or known.get((other, False)) is False and known.get((d, False)) is not False and \
                known.get((other, "eq")) is None
            ctx.check(unknown or near, "check", "nearest", "the domain check replaces a value by the other end of the domain", loc)
            ctx.check(unknown or intol[d] and (intol[other] or near), "check", "tolerance",
                      "the domain check accepts values outside of the domain beyond the tolerance", loc)
        else:
            c = clip(v)
            if c:
                ctx.check(unknown or intol["lo"] and intol["hi"], "check", "tolerance",
                          "the domain check accepts values outside of the domain beyond the tolerance", loc)
            elif v.op == "item" and v.args[0].op == "attr" and v.args[0].args[1] == "domain" and selector(v.args[1], tn) is not None:
                below, above = selector(v.args[1], tn)
                for side, got, want in (("lo", below, (0, -2)), ("hi", above, (1, -1))):
                    if known.get((side, False)) is not False:
                        ctx.check(got in want, "check", "nearest", "the end of the domain replacing a value is not selected by the nearest end", loc)
                ctx.check(unknown or intol["lo"] and intol["hi"], "check", "tolerance",
                          "the domain check accepts values outside of the domain beyond the tolerance", loc)
            else:
                ctx.notes.append("the domain check returns a value of unrecognised form")
    for s, ts in tols.items():
        for t in ts:
            d = dict(t)
            ok = all(x > 0 for x in d.values()) and any(isinstance(y, tuple) or True for m in d for y in m)
            ctx.check(ok, "check", "sign:" + s, "the tolerance of the domain check has a wrong sign", loc)
    if tols["lo"] and tols["hi"]:
        ctx.check(tols["lo"] == tols["hi"], "check", "same", "the domain check uses different tolerances at the two ends", loc)
    ctx.check(n_raise > 0 or unknown, "check", "error", "the domain check never raises", loc)
    ctx.saw("paths of the domain check", "%d returns, %d errors" % (n_ret, n_raise))


def kind(p):
    """(side, tolerance polynomial, sign of t) of the difference t - bound (+- tolerance)."""
    ct = p.get(("t",), 0)
    for side in ("lo", "hi"):
        cb = p.get((side,), 0)
        if ct in (1, -1) and cb == -ct:
            rest = {m: c for m, c in p.items() if m not in (("t",), (side,))}
            if any(s in m for m in rest for s in ("lo", "hi")):
                return None
            # t - lo + tol < 0 (below), hi + tol - t < 0 (above): outside means tol enters with +
            outside = 1 if side == "lo" else -1
            if ct != outside:
                rest = {m: -c for m, c in rest.items()}
            return side, rest, ct
    return None


def selector(i, tn):
    """Index of the domain end given by a comparison: its values for t below and above the domain (None: not one of that form)."""
    i = canon(i)
    neg = False
    while True:
        if i.op in ("pcall", "call") and i.args[0] in ("builtins.int", "builtins.bool", "numpy.int_"):
            i = canon(i.args[1] if isinstance(i.args[1], Tok) else i.args[2])
        elif i.op == "op" and i.args[0] == "not":
            i, neg = canon(i.args[1]), not neg
        elif i.op == "op" and i.args[0] == "neg":
            r = selector(i.args[1], tn)
            return None if r is None else tuple(None if x is None else -x for x in r)
        else:
            break
    if i.op != "op" or i.args[0] not in ("<", "<=", ">", ">=") or len(i.args) != 3:
        return None
    a, b = canon(i.args[1]), canon(i.args[2])
    gt = i.args[0] in (">", ">=")
    is_t = [x.op == "param" and x.args[0] == tn for x in (a, b)]
    if is_t == [False, True]:
        a, b, gt = b, a, not gt
    elif is_t != [True, False]:
        return None
    if is_const(b):
        return None, None        # a fixed number tells nothing about the position against the domain
    if dom(b) is None:
        return None
    above = 1 if gt else 0       # t after the domain: t > end holds
    r = (1 - above, above)
    return tuple(1 - x for x in r) if neg else r


def clip(v):
    if v.op in ("pcall", "call") and v.args[0] in ("numpy.clip", ".clip"):
        return True
    s = {dom(x) for x in subtoks(v)} - {None}
    ops = {x.args[0].split(".")[-1] for x in subtoks(v) if x.op in ("pcall", "call") and isinstance(x.args[0], str)}
    return s == {"lo", "hi"} and bool(ops & {"min", "minimum"}) and bool(ops & {"max", "maximum"})


def find(ctx):
    f = ctx.prog.func(FIND)
    n = fname(f.qual)
    tn = [p for p in f.pos_params() if p != "self"][0]
    loc = f.loc(f.node)
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return" or o.val is None:
            continue
        v = canon(o.val)
        ss = [x for x in subtoks(v) if x.op in ("pcall", "call") and x.args[0] in ("numpy.searchsorted", "bisect.bisect_right", "bisect.bisect",
                                                                                 ".searchsorted", "bisect.bisect_left")]
        if len(ss) != 1:
            ctx.notes.append("the interval search has an unrecognised form")
            continue
        s = ss[0]
        a = [x for x in s.args[1:] if isinstance(x, Tok) and x.op != "kw"]
        kw = {x.args[0]: x.args[1] for x in s.args[1:] if isinstance(x, Tok) and x.op == "kw"}
        side = cval(kw["side"]) if "side" in kw and is_const(kw["side"]) else "right" if "bisect" in s.args[0] and "left" not in s.args[0] else "left"
        if len(a) > 2 and is_const(a[2]) and "bisect" not in s.args[0]:
            side = cval(a[2])
        ctx.saw("evaluations", n)
        ctx.check(side == "right", "find", "side", "the interval search gives the interval before the start of the domain for its first value", loc)
        kn = a[0]
        start = None
        if kn.op == "item" and kn.args[1].op == "slice" and kn.args[0].op == "attr" and kn.args[0].args[1] == "knots":
            def atom(t):
                if t.op == "attr" and t.args[1] == "degree":
                    return psym("d")
                if t.op == "op" and t.args[0] == "len" or t.op == "pcall" and t.args[0] == "builtins.len":
                    return psym("n")
                if t.op == "attr" and t.args[1] == "size":
                    return padd(padd(psym("n"), psym("d"), -1), pconst(1), -1)
                return None
            lo, hi = kn.args[1].args[0], kn.args[1].args[1]
            start = poly(lo, atom) if not (is_const(lo) and cval(lo) is None) else pconst(0)
            end = poly(hi, atom) if not (is_const(hi) and cval(hi) is None) else psym("n")
            if "n" in syms(end):
                end = padd(end, psym("n"), -1)
            last = end == {("d",): -1}                   # the last knot of the domain included
            inner = end == {("d",): -1, (): -1}
            # value = count - 1 - (degree - start)
            off = offset(v, s, atom)
            if off is not None and start is not None and not any(isinstance(x, tuple) for x in syms(off) | syms(start)):
                want = padd(padd(psym("d"), start, -1), pconst(1))     # number of leading knots not counted as intervals
                ctx.check(padd(off, want) == {}, "find", "offset",
                          "the interval search is shifted against the intervals of the domain", loc)
            if last or not inner and end != {("d",): -1, (): -1}:
                ctx.check(capped(v) or not last, "find", "end", "the interval search gives an interval after the end of the domain for its last value", loc)
        vals = {x for y in a[1:2] for x in subtoks(y) if x.op == "param"}
        ctx.check(vals == {T("param", tn)}, "find", "value", "the interval search looks for another value than the one given", loc)


def offset(v, s, atom):
    """Polynomial added to the count found by the search (caps ignored)."""
    while v.op in ("pcall", "call") and v.args[0] in ("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum", "builtins.int", "numpy.clip"):
        c = [x for x in v.args[1:] if isinstance(x, Tok) and s in subtoks(x)]
        if len(c) != 1:
            return None
        v = c[0]

    def at(t):
        if t is s or t.op == "item" and t.args[0] is s:
            return psym("count")
        return atom(t)
    p = poly(v, at)
    if p.get(("count",)) != 1:
        return None
    return padd(p, psym("count"), -1)


def capped(v):
    return v.op in ("pcall", "call") and v.args[0] in ("builtins.min", "numpy.minimum", "numpy.clip") or \
        v.op in ("pcall", "call") and v.args[0] in ("builtins.max", "numpy.maximum", "builtins.int") and any(
            capped(x) for x in v.args[1:] if isinstance(x, Tok))
