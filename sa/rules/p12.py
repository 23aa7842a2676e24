"""P12: arguments supplied by the caller and default argument values are not modified."""
import ast
from ..loader import AnalysisError
from ..rl import fname
from ..own import show as oshow

LEVEL = "other"
TECHNIQUE = "interprocedural ownership and effect analysis (modified and retained parts of every parameter)"
EXPLANATION = ("Flow-sensitive ownership summaries of every function of the package, closed over calls and dynamic dispatch, "
               "decide for every parameter of every public function and constructor whether the container passed by the caller "
               "(or one nested in it) is modified, directly, by a callee, or later through an object that kept it; the same "
               "for default values.")
# the documented purpose of the call
PURPOSE = {("check_matrix", "shape"): "the list of dimensions is completed for the caller (documented)",
           ("setreceiver", "receiver"): "the container set as receiver of the actions"}
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)


def nested(path):
    """The location is the argument itself or a container nested in it (not a field of an object)."""
    return all(s == "[]" or s.startswith("#") for s in path)


def public(f):
    if f.parent is not None:
        return False
    if f.cls is not None and (f.cls.name.startswith("_")):
        return False
    return not f.name.startswith("_") or f.name in ("__init__", "__call__", "__new__")


def params(f):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if f.cls is not None and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list):
        ps = ps[1:]
    if a.kwarg or a.vararg:
        ps += [x.arg for x in (a.vararg, a.kwarg) if x]
    return ps


def work_container(ctx, f, p):
    """An output container of an internal step: nothing is returned and every caller passes its own fresh container."""
    if f.name == "__init__" or any(isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None)
                                   for x in ast.walk(f.node)):
        return False
    calls = ctx.own.calls.get(f.qual, {}).values()
    vals = [b.get(p) for b in calls if p in b]
    return bool(vals) and all(v and all(l[0] == "N" for l in v) for v in vals)


def direct(ctx):
    ctx.rule("argument", "no public function or constructor modifies a container passed by the caller, directly or through a callee")
    for q, f in sorted(ctx.prog.funcs.items()):
        if not isinstance(f.node, ast.FunctionDef) or not public(f):
            continue
        s = ctx.own.sum.get(q)
        if s is None:
            continue
        ctx.saw("public function", fname(f))
        ps = params(f)
        own = {a.arg for a in (f.node.args.vararg, f.node.args.kwarg) if a}
        for p in ps:
            bad = None
            for (loc, mode), (fq, node, how) in sorted(s.mod.items(), key=str):
                if loc[0] == "P" and loc[1] == p and mode == "in" and nested(loc[2]):
                    if p in own and not loc[2]:
                        continue        # the tuple / dict of the call itself
                    if not containerish(ctx, f, p, loc[2]):
                        continue
                    bad = (loc, fq, node, how)
            if bad and (f.name, p) in PURPOSE:
                ctx.saw("documented output", "%s(%s)" % (fname(f), p))
                continue
            if bad and work_container(ctx, f, p):
                ctx.saw("work container", "%s(%s)" % (fname(f), p))
                continue
            ctx.check(not bad, "argument", "%s/%s" % (fname(f), p), "the argument %s is modified (%s in %s)" %
                      ((oshow(bad[0]), bad[3], bad[1]) if bad else ("", "", "")),
                      "%s:%s" % (bad[1], getattr(bad[2], "lineno", 0)) if bad else "")


def containerish(ctx, f, p, path):
    """Not known to be an object of a class (whose modification is the purpose of the call), stream or number."""
    atoms = ctx.types.param_atoms(f, p)
    kinds = {a[0] for a in atoms}
    if path:
        return True
    return not kinds or bool(kinds - {"I", "C", "num", "str", "None", "F", "B"})


def defaults(ctx):
    ctx.rule("default", "a default argument value is modified neither by the function nor by anything that keeps it")
    for q, f in sorted(ctx.prog.funcs.items()):
        if not isinstance(f.node, ast.FunctionDef):
            continue
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        pairs += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        s = ctx.own.sum.get(q)
        for p, d in pairs:
            shared = isinstance(d, MUTABLE) or (isinstance(d, (ast.Name, ast.Attribute)) and container_value(ctx, d))
            if not shared or s is None:
                continue
            ctx.saw("mutable default", "%s(%s=%s)" % (fname(f), p, ast.unparse(d)[:40]))
            bad = None
            for (loc, mode), (fq, node, how) in sorted(s.mod.items(), key=str):
                if loc[0] == "P" and loc[1] == p and (mode == "in" and nested(loc[2])
                                                      or isinstance(d, ast.Call) and own_object(ctx, d) and real_field(ctx, f, d, loc, mode, fq, node)):
                    bad = (loc, fq, node, how)
            ctx.check(not bad, "default", "%s/%s" % (fname(f), p), "the default value of %s is modified (%s in %s)" %
                      ((p, oshow(bad[0]), bad[1]) if bad else ("", "", "")),
                      "%s:%s" % (bad[1], getattr(bad[2], "lineno", 0)) if bad else "")
            if f.cls is not None and isinstance(d, MUTABLE) and not isinstance(d, ast.Call):
                for dst, src in s.stores:
                    if src == ("P", p, ()) and dst[0] == "P" and dst[1] == f.pos_params()[0]:
                        m = later(ctx, f.cls, dst)
                        ctx.check(m is None, "default", "%s/%s/kept" % (fname(f), p), "the default value of %s is kept in %s and modified by %s" %
                                  (p, oshow(dst), m), f.loc(f.node))


def container_value(ctx, d):
    return bool({a[0] for a in ctx.types.atoms(d)} & {"ls", "dc", "st"})


def own_object(ctx, d):
    return any(a[0] == "C" for a in ctx.types.atoms(d.func))


def real_field(ctx, f, d, loc, mode, fq, node):
    """Setting a field of a default object: judged only where the field is set unconditionally for such an object."""
    return False


def family(ctx, cls):
    out = {cls.qual}
    grow = True
    while grow:
        grow = False
        for c in ctx.prog.classes.values():
            for b in ctx.prog.mro(c)[0]:
                if b.qual in out and c.qual not in out:
                    out.add(c.qual)
                    grow = True
    return out


def later(ctx, cls, dst):
    """A function that modifies the kept container in place: its name, or None."""
    for q, s in sorted(ctx.own.sum.items()):
        f = ctx.prog.funcs[q]
        if f.cls is None or f.cls.qual not in family(ctx, cls) or f.name == "__init__":
            continue
        ps = f.pos_params()
        for (loc, mode), (fq, node, how) in s.mod.items():
            if mode == "in" and loc[0] == "P" and ps and loc[1] == ps[0] and loc[2] == dst[2]:
                return "%s (%s:%s)" % (f.qual, fq, getattr(node, "lineno", 0))
    return None


def kept(ctx):
    ctx.rule("kept", "a container of the caller kept by an object is not modified later through the object")
    n = 0
    for q, f in sorted(ctx.prog.funcs.items()):
        if f.cls is None or not isinstance(f.node, ast.FunctionDef) or not public(f):
            continue
        s = ctx.own.sum.get(q)
        ps = f.pos_params()
        if s is None or not ps:
            continue
        for dst, src in sorted(s.stores, key=str):
            if dst[0] != "P" or dst[1] != ps[0] or src[0] != "P" or src[1] == ps[0] or not nested(src[2]):
                continue
            if not containerish(ctx, f, src[1], src[2]) or len(dst[2]) > 2:
                continue
            n += 1
            m = later(ctx, f.cls, dst)
            if (f.name, src[1]) in PURPOSE:
                continue
            ctx.check(m is None, "kept", "%s/%s" % (fname(f), src[1]), "%s keeps %s of the caller, modified by %s" %
                      (oshow(dst), oshow(src), m), f.loc(f.node))
    ctx.saw("kept argument", "%d" % n)


def run(ctx):
    direct(ctx)
    defaults(ctx)
    kept(ctx)
    ctx.expect("public function", 60)
    ctx.assumptions.append("functions of numpy, scipy, gmsh and bih modify their arguments only where listed in sa/own.py")
