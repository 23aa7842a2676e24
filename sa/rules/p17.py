"""P17: copies and conversions keep every defining attribute."""
import ast
from ..loader import AnalysisError
from ..tok import Tok, T, subtoks, is_const, cval
from ..rl import canon, flat, fname, where

LEVEL = "other"
TECHNIQUE = "value-flow analysis of constructor arguments in copies and conversions, ownership of copied state"
EXPLANATION = ("Every object built by a copy or a conversion receives each constructor argument from the corresponding attribute of its "
               "source on every path (basis or knots of each direction, degree, poles, rational flag, regions); state that methods "
               "change in place is not shared by a shallow copy, methods stored on the object are bound again to the copy, and "
               "no copy or conversion modifies its source; poles replaced in a finished spline refresh the data derived from them.")
BS = "bgem.bspline.bspline"
BW = "bgem.bspline.brep_writer"
SPL = {BS + ".Curve": 1, BS + ".Surface": 2, BW + ".Surface": 2, BW + ".Curve2D": 1, BW + ".Curve3D": 1}
OBJ = "bgem.gmsh.gmsh.ObjectSet"
SEEDS = [BS + ".Surface.deep_copy", BS + ".Z_Surface.get_copy", BS + ".Z_Surface.make_full_surface", BW + ".curve_from_bs",
         BW + ".surface_from_bs", OBJ + ".copy"]


def run(ctx):
    ctx.rule("carried", "constructor arguments of copies and conversions come from the attributes of the source")
    ctx.rule("direction", "U and V data keep their places")
    ctx.rule("own", "a shallow copy gets its own instance of all state changed in place by the methods")
    ctx.rule("bound", "methods stored on the object are bound to the copy")
    ctx.rule("source", "copying and converting do not modify the source")
    ctx.rule("derived", "poles of a finished spline are not replaced without the data computed from them")
    for q in SEEDS:
        ctx.prog.func(q)
    for f in list(ctx.prog.funcs.values()):
        if f.parent is not None and f.cls is None:
            continue
        if f.mod.name in (BS, BW) or f.cls is not None and f.cls.qual == OBJ:
            if f.qual in SEEDS or f.cls is None or f.cls.qual in (BS + ".Curve", BS + ".Surface", BS + ".Z_Surface", BS + ".SplineBasis", OBJ):
                function(ctx, f)
    derived(ctx)
    ctx.expect("constructed", 5)
    ctx.expect("shallow copies", 1)


def pol(g):
    c = getattr(g, "cls", None)
    q = (c or g).qual
    if c is not None and any(isinstance(d, ast.Name) and d.id == "property" for d in g.node.decorator_list):
        return None
    return "opaque" if q in SPL or q in (BS + ".SplineBasis", OBJ) else None


def deps(t):
    """Attribute chains read in the token: set of (owner token, attribute)."""
    res = set()
    for y in expand(t):
        for x in subtoks(canon(y)):
            if x.op == "attr":
                res.add((x.args[0], x.args[1]))
    return res


NEWS = {}


def expand(t, seen=None):
    """The token and the constructor arguments of the objects in it."""
    seen = set() if seen is None else seen
    yield t
    for x in list(subtoks(t)):
        if x.op == "new" and x in NEWS and x not in seen:
            seen.add(x)
            for a in list(NEWS[x].args) + list((NEWS[x].kw or {}).values()):
                if isinstance(a, Tok):
                    yield from expand(a, seen)


def is_copyish(f):
    n = f.name.lower()
    return "copy" in n or f.qual in SEEDS or "_from_bs" in n or n.startswith("make_full")


def function(ctx, f):
    if f.name == "__init__":
        return
    mk = [x for x in ast.walk(f.node) if isinstance(x, ast.Call)]
    if not mk:
        return
    if not is_copyish(f) and not any(isinstance(x.func, ast.Name) and x.func.id in ("Surface", "Curve", "Curve2D", "Curve3D") for x in mk):
        return
    n = fname(f.qual)
    any_new = False
    for o in ctx.run(f, keep_conds=True, policy=pol):
        if o.flow == "raise":
            continue
        news = [e for e, l in flat(o.events()) if e.kind == "new" and (e.name in SPL or e.name == OBJ)]
        for e in news:
            NEWS.clear()
            NEWS.update({x.res: x for x, l in flat(o.events()) if x.kind == "new"})
            src = sources(ctx, e)
            if not src and is_copyish(f) and (e.name == OBJ or e.res is o.val):
                src = {T("param", f.pos_params()[0])}
            if len(src) != 1:
                continue
            if e.name == OBJ and not is_copyish(f):
                continue
            any_new = True
            constructed(ctx, f, n, e, src.pop(), o)
        if is_copyish(f) and f.cls is not None and o.val is not None:
            v = canon(o.val)
            if v.op in ("pcall", "call") and v.args[0] in ("copy.copy",) and canon(v.args[1]) is T("param", "self") or \
                    v.op == "copyof" and canon(v.args[1]) is T("param", "self"):
                shallow(ctx, f, n, v, o)
                any_new = True
    if is_copyish(f):
        ctx.saw("copies and conversions", n)
        src = [p for p in f.pos_params()][:1]
        for (loc, how), (fq, node, h) in ctx.own.sum[f.qual].mod.items():
            if loc[0] == "P" and loc[1] in src:
                path = tuple(str(x) for x in loc[2])
                if any("factory" in x for x in path[:1]):
                    continue
                ctx.bad("source", "%s:%s" % (n, "".join(path)), "%s modifies %s of its source" % (n, "".join(path)), fq)
        ctx.check(True, "source", n, "", "")


def sources(ctx, e):
    """Objects whose poles or regions are passed to the constructor."""
    want = "regions" if e.name == OBJ else "poles"
    res = set()
    for a in list(e.args) + list((e.kw or {}).values()):
        if isinstance(a, Tok):
            for o, at in deps(a):
                if at == want and not (want == "poles" and o.op == "new"):
                    res.add(owner(o))
    return res


def owner(o):
    """The object converted: of a Z surface and its 1D surface the 1D surface; copies stand for their originals."""
    while o.op in ("pcall", "call", "copyof") and len(o.args) > 1 and isinstance(o.args[1], Tok) and (
            o.op == "copyof" or str(o.args[0]).split(".")[-1] in ("copy", "deepcopy", "deep_copy", "get_copy")):
        o = o.args[1]
    return o


def bound_args(ctx, e):
    c = ctx.prog.classes[e.name]
    init = ctx.prog.find_method(c, "__init__")
    if init is None:
        raise AnalysisError("class %s has no constructor" % e.name)
    names = [p for p in init.pos_params() if p != "self"]
    res = {}
    for i, a in enumerate(e.args):
        if i < len(names):
            res[names[i]] = a
    res.update(e.kw or {})
    return names, res


def written(o, tok):
    return {e.name: e.args[0] for e, l in flat(o.events()) if e.kind == "write" and e.recv is tok}


def basis_of(t, src):
    """Directions of the bases of src (or of its Z surface) read in the token: ordered list."""
    res = []

    def rec(x):
        if not isinstance(x, Tok):
            return
        if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "basis" and is_const(x.args[1]):
            res.append(cval(x.args[1]))
            return
        if x.op == "attr" and x.args[1] in ("u_basis", "_u_basis"):
            res.append(0)
            return
        if x.op == "attr" and x.args[1] in ("v_basis", "_v_basis"):
            res.append(1)
            return
        if x.op == "attr" and x.args[1] == "basis":
            res.extend([0, 1] if TWO[0] else [0])
            return
        if x.op == "comp":
            rec(x.args[2])
            return
        if x.op == "item" and x.args[0].op == "comp" and is_const(x.args[1]):
            if basis_of(x.args[0].args[2], src) == [0, 1]:
                res.append(cval(x.args[1]))
            return
        if x.op == "new" and x in NEWS:
            for a in list(NEWS[x].args) + list((NEWS[x].kw or {}).values()):
                rec(a)
            return
        for a in x.args:
            rec(a)
    rec(t)
    out = []
    for d in res:
        if not out or out[-1] != d:
            out.append(d)
    return out


TWO = [False]


def constructed(ctx, f, n, e, src, o):
    names, args = bound_args(ctx, e)
    wr = written(o, e.res)
    short = e.name.split(".")[-1]
    ctx.saw("constructed", "%s in %s" % (short, n))
    loc = where(e)
    TWO[0] = SPL.get(e.name) == 2
    # the parameters that define the object
    if e.name == OBJ:
        need = {"regions": {"regions"}, "dim_tags": {"dim_tags"}, "factory": {"factory"}}
    else:
        need = {"poles": {"poles"}}
        if "rational" in names:
            need["rational"] = {"rational"}
        for p in ("basis", "knots", "degree"):
            if p in names:
                need[p] = {"basis", "u_basis", "v_basis", "_u_basis", "_v_basis"}
    for p, at in need.items():
        a = args.get(p)
        if a is None:
            a = wr.get(p)
        if a is None and p not in names:
            continue
        if a is None:
            ctx.bad("carried", "%s:%s:%s" % (n, short, p), "%s builds a %s without the %s of its source" % (n, short, p), loc)
            continue
        d = {x for oo, x in deps(a)}
        if p == "rational" and is_const(canon(a)) and known_flag(o, a):
            continue
        ctx.check(bool(d & at), "carried", "%s:%s:%s" % (n, short, p), "%s builds a %s whose %s does not come from its source" % (n, short, p), loc)
        if p in ("basis", "knots", "degree") and d & at:
            ds = basis_of(a, src)
            if TWO[0]:
                ctx.check(ds == [0, 1] or len(ds) > 2, "direction", "%s:%s:%s" % (n, short, p),
                          "%s passes the %s of the directions %s in place of U, V" % (n, p, "".join("UV"[x] for x in ds)), loc)
            leafs = {x for oo, x in deps(a)}
            if p == "basis":
                ok = all(whole_basis(x) for x in components(a))
                ctx.check(ok, "carried", "%s:%s:basis-value" % (n, short), "%s builds a %s with other knots than those of its source" % (n, short), loc)
            if p == "degree":
                ctx.check("degree" in leafs, "carried", "%s:%s:degree-value" % (n, short),
                          "%s builds a %s with another degree than that of its source" % (n, short), loc)
            elif p == "knots":
                calls = {str(x.args[0]).split(".")[-1] for x in subtoks(a) if x.op in ("pcall", "call")}
                ctx.check("pack_knots" in calls or "knots" in leafs, "carried", "%s:%s:knots-value" % (n, short),
                          "%s builds a %s with other knots than those of its source" % (n, short), loc)
        if e.name == OBJ and is_copyish(f) and isinstance(canon(a), Tok) and canon(a) is T("attr", T("param", "self"), p):
            ip = inplace_of(ctx, ctx.prog.classes[OBJ])
            ctx.check(p not in ip, "own", "%s:%s" % (n, p), "%s shares %s with the original, %s changes it in place" %
                      (n, p, fname(ip[p][0]) if p in ip else ""), loc)
        if p == "poles":
            cut = [x for x in subtoks(canon(a)) if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "poles" and
                   not (is_const(x.args[1]) and cval(x.args[1]) is Ellipsis)]
            cut = [x for x in cut if not full_slice(x.args[1])]
            if is_copyish(f) and f.name != "make_full_surface":
                ctx.check(not cut, "carried", "%s:%s:poles-part" % (n, short), "%s passes only a part of the poles" % n, loc)


def components(a):
    if a.op in ("tuple", "list"):
        return [x for x in a.args if isinstance(x, Tok)]
    return [a]


def whole_basis(x):
    """The basis of the source, its copy, or one built from its degree and knots."""
    while x.op in ("pcall", "call", "copyof") and len(x.args) > 1 and isinstance(x.args[1], Tok) and (
            x.op == "copyof" or str(x.args[0]).split(".")[-1] in ("copy", "deepcopy")):
        x = x.args[1]
    if x.op == "item" and x.args[0].op == "comp":
        x = x.args[0]
    if x.op == "comp":
        return whole_basis(x.args[1])
    if x.op in ("attr", "item", "elem", "param"):
        return True
    if x.op == "new" or x.op in ("pcall", "call") and "SplineBasis" in str(x.args[0]):
        at = {b for a, b in deps(x)}
        return "knots" in at and "degree" in at
    return True


def full_slice(k):
    ks = k.args if k.op == "tuple" else [k]
    return all(x.op == "slice" and all(is_const(y) and cval(y) is None for y in x.args) for x in ks)


def known_flag(o, a):
    v = cval(canon(a))
    return any(e.kind == "cond" and e.recv is not None and e.recv.op == "attr" and e.recv.args[1] == "rational" and e.name is v
               for e, l in flat(o.events()))


def inplace_of(ctx, c):
    """Attributes whose value is changed in place by the methods of the class."""
    inplace = res = {}
    for k in [c] + [x for x in ctx.prog.mro(c)[0] if x is not c]:
        for m in k.methods.values():
            if m.name == "__init__":
                continue
            for (loc, how), (fq, node, h) in ctx.own.sum[m.qual].mod.items():
                if loc[0] == "P" and loc[1] == "self" and (len(loc[2]) > 1 and c.qual != OBJ or how == "in" and len(loc[2]) == 1):
                    inplace.setdefault(str(loc[2][0]).lstrip("."), (m.qual, fq))
    return res


def shallow(ctx, f, n, v, o):
    """copy.copy(self): replaced state and rebound methods."""
    ctx.saw("shallow copies", n)
    c = f.cls
    inplace = inplace_of(ctx, c)
    bound = {}
    for m in c.methods.values():
        for x in ast.walk(m.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and \
                    x.value.value.id == "self" and ctx.prog.find_method(c, x.value.attr) is not None:
                for t in x.targets:
                    if isinstance(t, ast.Attribute):
                        bound.setdefault(t.attr, m.qual)
    wr = {}
    for e, l in flat(o.events()):
        if e.kind == "write" and canon(e.recv) is v:
            wr[e.name] = e.args[0]
    for a, (mq, fq) in sorted(inplace.items()):
        ctx.saw("state changed in place", a)
        x = wr.get(a)
        good = x is not None and not (x.op == "attr" and x.args[1] == a)
        ctx.check(good, "own", "%s:%s" % (n, a), "%s shares %s with the original, %s changes it in place" % (n, a, fname(mq)), f.loc(f.node))
        if good:
            ctx.check(any(y == a for oo, y in deps(x)), "carried", "%s:%s" % (n, a), "%s sets %s of the copy from something else" % (n, a), f.loc(f.node))
    for a, mq in sorted(bound.items()):
        ctx.saw("stored methods", a)
        x = wr.get(a)
        ok = x is not None and any(y is v for y in subtoks(canon(x)))
        ctx.check(ok, "bound", "%s:%s" % (n, a), "%s leaves %s bound to the original object" % (n, a), f.loc(f.node))
    # nothing else defining is overwritten by something foreign
    for a, x in sorted(wr.items()):
        if a not in inplace and a not in bound:
            ctx.check(any(y == a for oo, y in deps(x)), "carried", "%s:%s" % (n, a), "%s sets %s of the copy from something else" % (n, a),
                      f.loc(f.node))


def derived(ctx):
    """Replacing poles of an existing spline leaves the fields its constructor computed from them."""
    for cq in (BS + ".Curve", BS + ".Surface"):
        c = ctx.prog.cls(cq)
        ctx.prog.find_method(c, "__init__")
    for f in ctx.prog.funcs.values():
        if not f.mod.name.startswith("bgem.bspline."):
            continue
        hit = False
        for x in ast.walk(f.node):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
            for t in ts:
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Attribute) and t.attr == "poles":
                    hit = hit or not (f.name == "__init__" and isinstance(t.value, ast.Name) and t.value.id == "self")
        ctx.saw("functions examined for pole changes", f.qual)
        if not hit:
            continue
        for o in ctx.run(f, keep_conds=True, policy=pol):
            for e, l in flat(o.events()):
                if e.kind == "write" and e.name == "poles" and e.recv.op != "new" and any(
                        q in (BS + ".Curve", BS + ".Surface") for q in classes_of(ctx, e)):
                    later = {x.name for x, l2 in flat(o.events()) if x.kind == "write" and x.recv is e.recv}
                    if e.recv is T("param", "self") and f.name == "__init__":
                        continue
                    ctx.check({"_poles", "_weights"} <= later or flagged(o, e), "derived", fname(f.qual),
                              "%s replaces the poles of a spline without the data computed from them" % fname(f.qual), where(e))


def classes_of(ctx, e):
    t = canon(e.recv)
    if t.op in ("pcall", "call") and str(t.args[0]) == BS + ".Surface.deep_copy":
        return [BS + ".Surface"]
    if t.op == "attr" and t.args[1] == "z_surface":
        return [BS + ".Surface"]
    try:
        return list(ctx.T.inst_classes(e.node.targets[0].value)) if hasattr(ctx, "T") else []
    except Exception:
        return []


def flagged(o, e):
    """The path knows the spline is not rational."""
    return any(x.kind == "cond" and x.recv is not None and x.recv.op == "attr" and x.recv.args[1] == "rational" and x.name is False
               for x, l in flat(o.events()))
