"""P26: mesh size fields pass each parameter to its own option."""
import ast
from ..loader import AnalysisError
from ..tok import T, Tok, NONE, subtoks, is_const, cval, const, show
from ..rl import fname, where, canon, flat

LEVEL = "other"
TECHNIQUE = "value-flow analysis from the parameters of each field constructor to the mesher options"
EXPLANATION = ("On every abstract path of every field constructor the created field, the options set on it and the values they get are "
               "traced to the parameters: each option has to get its own parameter (component), through the setter of its kind, on "
               "the created field only, exactly on the paths where the caller gave the value, and the id of the field is returned.")
MOD = "bgem.gmsh.field"
API = "gmsh.model.mesh.field."
ALIAS = {"LcMin": "SizeMin", "LcMax": "SizeMax", "IField": "InField", "NodesList": "PointsList", "VerticesList": "PointsList",
         "EdgesList": "CurvesList", "FacesList": "SurfacesList", "RegionsList": "VolumesList", "NNodesByEdge": "Sampling",
         "NumPointsPerCurve": "Sampling", "FieldX": "FieldX"}
LISTS = {"PointsList", "CurvesList", "SurfacesList", "VolumesList", "FieldsList"}


def P(n, i=None):
    t = T("param", n)
    return t if i is None else T("item", t, const(i))


# function -> (field type, {option: (value, parameter whose presence it needs or None)})
COORD = {"Field" + c: (("coordinate_fields", i), "coordinate_fields") for i, c in enumerate("XYZ")}
SPEC = {
    "distance_nodes": ("Distance", dict(COORD, PointsList=(("nodes", None), None))),
    "distance_edges": ("Distance", dict(COORD, CurvesList=(("curves", None), None), Sampling=(("nodes_per_edge", None), None))),
    "threshold": ("Threshold", {"InField": (("field", None), None), "DistMin": (("lower_bound", 0), None), "SizeMin": (("lower_bound", 1), None),
                                "DistMax": (("upper_bound", 0), "upper_bound"), "SizeMax": (("upper_bound", 1), "upper_bound"),
                                "StopAtDistMax": (True, "not upper_bound"), "Sigmoid": (True, "sigmoid")}),
    "min": ("Min", {"FieldsList": (("fields", None), None)}),
    "max": ("Max", {"FieldsList": (("fields", None), None)}),
    "box": ("Box", {"VIn": (("v_in", None), None), "VOut": (("v_out", None), None),
                    **{c + m: ((p, i), None) for i, c in enumerate("XYZ") for m, p in (("Min", "pt_min"), ("Max", "pt_max"))}}),
    "constant": ("Box", {"VIn": (("value", None), None), **{c + m: (("neg" if m == "Min" else "pos", "radius"), None)
                                                            for c in "XYZ" for m in ("Min", "Max")}}),
    "restrict": ("Restrict", {"InField": (("field", None), None), "PointsList": (("dim", 0), None), "CurvesList": (("dim", 1), None),
                              "SurfacesList": (("dim", 2), None), "VolumesList": (("dim", 3), None)}),
}
OPAQUE = ("bgem.gmsh.gmsh.ObjectSet.split_by_dimension", "bgem.gmsh.gmsh.ObjectSet.get_boundary", "bgem.gmsh.gmsh.GeometryOCC.group",
          "bgem.gmsh.gmsh.GeometryOCC.synchronize")


def run(ctx):
    ctx.rule("type", "the field created has the type of the constructor")
    ctx.rule("option", "every option gets the value of its own parameter by the setter of its kind")
    ctx.rule("given", "every value given by the caller is passed, and only then")
    ctx.rule("id", "options are set on the created field and its id is returned")
    ctx.rule("background", "the background field is the one given")
    for n, (typ, opts) in SPEC.items():
        one(ctx, ctx.prog.func(MOD + "." + n), typ, opts)
    f = ctx.prog.func(MOD + ".set_mesh_step_field")
    for o in ctx.run(f):
        if o.flow != "raise":
            ev = [e for e, l in flat(o.events()) if e.kind == "call" and e.name == API + "setAsBackgroundMesh"]
            ctx.check(len(ev) == 1 and canon(ev[0].args[0]).op == "param", "background", fname(f), "the background field is not set to the given one",
                      f.loc(f.node))
    ctx.expect("constructors", 8)
    ctx.expect("options", 25)


def pol(g):
    return "opaque" if getattr(g, "qual", None) in OPAQUE else None


def none_test(c):
    """Parameter compared with None by the condition."""
    while c.op == "op" and c.args[0] == "not" or c.op == "not":
        c = canon(c.args[-1])
    if c.op == "op" and c.args[0] in ("is", "is not", "==", "!=") and NONE in c.args:
        for x in c.args[1:]:
            if canon(x).op == "param":
                return canon(x).args[0]
    return None


def parts_of(t, var, depth=0):
    """What a grouped set holds: 'all' given sets, 'one' of them, ('boundary', of what); None when not recognised."""
    t = canon(t)
    if depth > 6:
        return None
    if t.op == "param" and t.args[0] == var:
        return {"all"}
    if t.op == "star":
        return parts_of(t.args[0], var, depth + 1)
    if t.op == "copyof":
        return parts_of(t.args[1], var, depth + 1)
    if t.op in ("tuple", "list"):
        out = set()
        for a in (t.args if t.op == "tuple" else t.args[1:]):
            p = parts_of(a, var, depth + 1)
            if p is None:
                return None
            out |= p
        return out
    if t.op == "op" and t.args[0] == "+":
        a, b = parts_of(t.args[1], var, depth + 1), parts_of(t.args[2], var, depth + 1)
        return None if a is None or b is None else a | b
    if t.op == "item":
        b = canon(t.args[0])
        return {"one"} if b.op == "param" and b.args[0] == var and is_const(t.args[1]) else None
    if t.op in ("call", "pcall"):
        if t.args[0] == "bgem.gmsh.gmsh.GeometryOCC.group":
            out = set()
            for a in t.args[2:]:
                if isinstance(a, Tok) and a.op not in ("uid", "ver", "v0", "clk", "site"):
                    p = parts_of(a, var, depth + 1)
                    if p is None:
                        return None
                    out |= p
            return out
        if t.args[0] == "bgem.gmsh.gmsh.ObjectSet.get_boundary":
            p = parts_of(t.args[1], var, depth + 1)
            return None if p is None else {"boundary of " + x for x in p}
    return None


def restricted(ctx, f, q, ev, given):
    """The field is restricted to all given sets, with their boundaries if asked for."""
    var = f.node.args.vararg.arg
    for e in ev:
        if e.kind == "call" and e.name == OPAQUE[0]:
            s = canon(e.recv if e.recv is not None else e.args[0])
            got = parts_of(s, var)
            if got is None:
                ctx.notes.append("%s: restricted set not recognised" % q)
                continue
            b = [v for k, v in given.items() if k != var and "bound" in k]
            want = {"all"} | ({"boundary of all"} if b and b[0] else set())
            ctx.check(got == want, "given", q + ":sets", "the field is restricted to %s instead of %s" % (sorted(got), sorted(want)), where(e),
                      key=q + ":sets")


def norm(t):
    """Number conversions and list copies do not change the value."""
    t = canon(t)
    while True:
        if t.op == "copyof" and t.args[0] in ("builtins.list", "builtins.tuple"):
            t = t.args[1]
        elif t.op in ("call", "pcall") and t.args[0] in ("builtins.float", "builtins.int") and len(t.args) > 1:
            t = t.args[1]
        elif t.op == "comp" and not isinstance(t.args[4], Tok) and t.args[1] is t.args[3]:
            t = t.args[2]
        else:
            return t


def expected(ctx, exp, v):
    """None when the value is the expected one, else a text."""
    v = norm(v)
    if exp is True:
        return None if is_const(v) and bool(cval(v)) or v.op == "param" else "is not switched on"
    name, i = exp
    if name == "dim":
        k = [cval(s.args[1]) for s in subtoks(v) if s.op == "item" and is_const(s.args[1]) and s.args[0].op == "call" and s.args[0].args[0] == OPAQUE[0]]
        if not k:
            return None if not any(s.op == "const" for s in subtoks(v)) else "is not taken from the split by dimensions"
        if set(k) != {i}:
            return "gets entities of dimension %s" % sorted(set(k))
        if v.op == "comp":
            e = v.args[1]
            if e.op == "item" and is_const(e.args[1]) and e.args[0].op == "elem" and cval(e.args[1]) != 1:
                return "gets dimensions instead of tags"
        return None
    if name in ("neg", "pos"):
        s = sign(v, i)
        return None if s == (-1 if name == "neg" else 1) else "gets %s" % show(v)
    want = P(name, i)
    return None if v is want else "gets %s" % show(v)


def sign(v, name):
    if v.op == "param" and v.args[0] == name:
        return 1
    if v.op == "op" and v.args[0] in ("neg", "-", "u-", "usub") and len(v.args) == 2:
        s = sign(v.args[1], name)
        return -s if s else None
    if v.op == "op" and v.args[0] == "*" and len(v.args) == 3:
        for a, b in ((v.args[1], v.args[2]), (v.args[2], v.args[1])):
            if is_const(a) and cval(a) in (1, -1):
                s = sign(norm(b), name)
                return s * cval(a) if s else None
    if v.op == "op" and v.args[0] == "-" and len(v.args) == 3 and is_const(v.args[1]) and cval(v.args[1]) == 0:
        s = sign(norm(v.args[2]), name)
        return -s if s else None
    return None


def presence(c, truth):
    """(parameter, given) implied by the condition, or None."""
    c = canon(c)
    neg = not truth
    while c.op == "op" and c.args[0] == "not":
        c, neg = c.args[1], not neg
    if c.op == "param":
        return c.args[0], not neg
    if c.op == "op" and c.args[0] in ("is", "==") and NONE in c.args:
        x = [a for a in c.args[1:] if a is not NONE]
        if x and x[0].op == "param":
            return x[0].args[0], neg
    if c.op == "op" and c.args[0] in ("is not", "!=") and NONE in c.args:
        x = [a for a in c.args[1:] if a is not NONE]
        if x and x[0].op == "param":
            return x[0].args[0], not neg
    if c.op == "nonempty" and c.args[0].op == "param":
        return c.args[0].args[0], not neg
    return None


def one(ctx, f, typ, opts):
    q = fname(f)
    ctx.saw("constructors", q)
    a = f.node.args
    pos = a.posonlyargs + a.args
    defs = {x.arg: d for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))}
    for o in ctx.run(f, keep_conds=True, policy=pol):
        if o.flow == "raise":
            continue
        ev = [e for e, l in flat(o.events())]
        adds = [e for e in ev if e.kind == "call" and e.name == API + "add"]
        sets = [e for e in ev if e.kind == "call" and e.name.startswith(API + "set") and e.name != API + "setAsBackgroundMesh"]
        given = dict(p for p in (presence(e.recv, bool(e.name)) for e in ev if e.kind == "cond" and e.recv is not None) if p)
        if f.node.args.vararg and given.get(f.node.args.vararg.arg) is False:
            continue                    # nothing to restrict to
        for e in ev:
            if e.kind == "cond" and e.recv is not None:
                p = none_test(canon(e.recv))
                if p in defs and isinstance(defs[p], ast.Constant) and defs[p].value is False:
                    ctx.bad("given", q + ":" + p, "%s is tested against None, but not given it is %s" % (p, defs[p].value), where(e), key=q + ":" + p + ":default")
        if f.node.args.vararg:
            restricted(ctx, f, q, ev, given)
        if not ctx.check(len(adds) == 1, "type", q, "a path creates %d fields" % len(adds), f.loc(f.node), key=q):
            continue
        t = canon(adds[0].args[0])
        ctx.check(is_const(t) and cval(t) == typ, "type", q, "the field created has type %s" % show(t), where(adds[0]), key=q)
        fid = canon(adds[0].res)
        done = {}
        for e in sets:
            a = [canon(x) for x in e.args] + [None] * 3
            kw = e.kw or {}
            tag, opt, val = kw.get("tag", a[0]), kw.get("option", a[1]), kw.get("value", kw.get("values", a[2]))
            if opt is None or not is_const(opt):
                ctx.notes.append("%s: option name not constant" % q) if hasattr(ctx, "notes") else None
                continue
            name = ALIAS.get(cval(opt), cval(opt))
            ctx.saw("options", q + ":" + name)
            ctx.check(tag is not None and canon(tag) is fid, "id", q, "option %s is set on another field" % cval(opt), where(e), key=q + ":" + name)
            kind = e.name[len(API) + 3:]
            ctx.check(kind == ("Numbers" if name in LISTS else "Number"), "option", q + ":" + name, "option %s is set by %s" % (cval(opt), kind),
                      where(e), key=q + ":" + name + ":kind")
            if name in opts and val is not None:
                w = expected(ctx, opts[name][0], val)
                ctx.check(w is None, "option", q + ":" + name, "option %s %s" % (cval(opt), w), where(e), key=q + ":" + name)
            done[name] = e
        for name, (exp, need) in opts.items():
            neg = need is not None and need.startswith("not ")
            p = need[4:] if neg else need
            if p is None:
                must, may = True, True
            else:
                g = given.get(p)
                must, may = (g is (not neg)), (g is None or g is (not neg))
            e = done.get(name)
            if must and e is None and not (need and given.get(p) is None):
                ctx.bad("given", q + ":" + name, "option %s is not set" % name, f.loc(f.node), key=q + ":" + name)
            elif e is not None and not may:
                ctx.bad("given", q + ":" + name, "option %s is set though the caller gave nothing" % name, where(e), key=q + ":" + name)
            elif e is not None and exp is True and need and given.get(p) is None and not (e.args and canon(e.args[-1]).op == "param"):
                ctx.bad("given", q + ":" + name, "option %s is set whatever the caller gave" % name, where(e), key=q + ":" + name)
            else:
                ctx.ok("given", q + ":" + name)
        ctx.check(o.val is not None and canon(o.val) is fid, "id", q, "the id of the created field is not returned", f.loc(f.node), key=q + ":return")
