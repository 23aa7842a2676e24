"""P13: geometry objects own the data they are made from."""
import ast
from ..loader import AnalysisError
from ..rl import fname
from ..own import show as oshow

LEVEL = "other"
TECHNIQUE = "interprocedural ownership (alias and escape) analysis of constructor arguments"
EXPLANATION = ("Flow-sensitive ownership summaries of the constructors, closed over calls: no array or list of the caller, nor a "
               "view or element container of one, is reachable from the constructed object afterwards; arguments are not read "
               "through array-only attributes before they are converted.")
B, P = "bgem.bspline.", "bgem.polygons."
# class -> parameters that carry geometry data (others are objects or settings)
OWNERS = {B + "bspline.SplineBasis": {"knots"}, B + "bspline.Curve": {"poles"}, B + "bspline.Surface": {"poles"},
          B + "bspline.Z_Surface": {"xy_quad"}, B + "bspline.GridSurface": {"point_seq"}, B + "brep_writer.Vertex": {"point"},
          P + "point.Point": {"point"}, P + "segment.Segment": {"vtxs"}}
# operations that replace the geometry of an existing object
SETTERS = [(B + "bspline.Z_Surface.transform", {"xy_mat", "z_mat"}), (B + "bspline.Z_Surface._reset_transform_xy", {"xy_quad"}),
           (B + "bspline.GridSurface.transform", {"xy_mat", "z_mat"}), (P + "point.Point.move", {"move"})]
ARRAY_ONLY = {"shape", "ndim", "T", "dtype", "reshape", "astype", "ravel", "copy"}


def data_params(ctx, f, names):
    ps = f.pos_params()[1:]
    got = [p for p in ps if p in names]
    return got


def aliases(ctx, f, params, what):
    s = ctx.own.sum[f.qual]
    me = f.pos_params()[0]
    for p in params:
        bad = None
        for dst, src in sorted(s.stores, key=str):
            if src[0] == "P" and src[1] == p and dst[0] == "P" and dst[1] == me:
                if scalar_part(f, p, src[2], dst):
                    continue
                bad = (dst, src)
                break
        ctx.check(bad is None, "owned", "%s/%s" % (fname(f), p), "the object keeps %s of the caller in %s" %
                  ((oshow(bad[1]), oshow(bad[0])) if bad else ("", "")), f.loc(f.node))
        ctx.saw(what, "%s(%s)" % (fname(f), p))


def scalar_part(f, p, path, dst):
    """Elements of one-dimensional data are numbers; the vertices of a segment are objects."""
    if p in ("knots", "point", "move", "z_mat", "vtxs") and path and path[0] != "*":
        return True
    if len(path) >= 3 or (p in ("xy_quad", "xy_mat", "point_seq") and len(path) >= 2):
        return True
    return False


def sequences(ctx, f, params):
    """Array-only attributes of a data parameter are used only after it was converted."""
    for p in params:
        bad = first_array_use(f, p)
        ctx.check(bad is None, "sequence", "%s/%s" % (fname(f), p), "the argument is used as an array (%s) before it is converted" %
                  (ast.unparse(bad) if bad is not None else ""), f.loc(bad) if bad is not None else "")


def first_array_use(f, p):
    """First use of an array-only attribute or operation of the parameter while it still holds the caller's value."""
    def names(e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}

    def scan(body, live):
        """live: names that hold the caller's value; returns (violation, live)"""
        for st in body:
            exprs = [st.test] if isinstance(st, (ast.If, ast.While)) else [st.iter] if isinstance(st, ast.For) else \
                [] if isinstance(st, (ast.With, ast.Try)) else [st]
            for e in exprs:
                for x in ast.walk(e):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in live and x.attr in ARRAY_ONLY \
                            and isinstance(x.ctx, ast.Load):
                        return x, live
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in live and isinstance(x.slice, ast.Tuple):
                        return x, live
                    if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Sub, ast.Div, ast.Pow)) and \
                            any(isinstance(y, ast.Name) and y.id in live for y in (x.left, x.right)) and \
                            not any(converted(y) for y in (x.left, x.right)):
                        return x, live
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(st.value, ast.Name) and st.value.id in live:
                            live = live | {t.id}
                        else:
                            live = live - {t.id}
            if isinstance(st, (ast.If,)):
                guard = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "hasattr") for x in ast.walk(st.test))
                b, l1 = (None, live) if guard else scan(st.body, live)
                if b is not None:
                    return b, live
                if guard:
                    _, l1 = scan(st.body, live)
                b, l2 = scan(st.orelse, live)
                if b is not None:
                    return b, live
                live = l1 | l2
            elif isinstance(st, (ast.For, ast.While, ast.With, ast.Try)):
                b, live2 = scan(st.body, live)
                if b is not None:
                    return b, live
                live = live | live2
        return None, live
    return scan(f.node.body, {p})[0]


def converted(e):
    return isinstance(e, ast.Call) or isinstance(e, ast.Attribute)


def run(ctx):
    ctx.rule("owned", "no part of the geometry data passed by the caller is reachable from the object after the call")
    ctx.rule("sequence", "the data are converted before an array-only operation is applied to them")
    for c, names in OWNERS.items():
        cls = ctx.prog.cls(c)
        f = ctx.prog.find_method(cls, "__init__")
        if f is None:
            raise AnalysisError("no constructor of %s" % c)
        ps = data_params(ctx, f, names)
        if not ps:
            # renamed: judge every positional parameter that is not an object of the package
            ps = [p for p in f.pos_params()[1:] if not any(a[0] == "I" for a in ctx.types.param_atoms(f, p))
                  and {a[0] for a in ctx.types.param_atoms(f, p)} & {"np", "ls", "tp"}]
            ctx.saw("renamed data parameter", "%s(%s)" % (fname(f), ",".join(ps)))
        aliases(ctx, f, ps, "constructor data")
        if not c.endswith("GridSurface"):       # documented to take an array
            sequences(ctx, f, ps)
    for q, names in SETTERS:
        f = ctx.prog.funcs.get(q)
        if f is None:
            continue
        aliases(ctx, f, data_params(ctx, f, names), "setter data")
    # alternative constructors
    for q, f in sorted(ctx.prog.funcs.items()):
        if f.cls is not None and f.cls.qual in OWNERS and any(isinstance(d, ast.Name) and d.id == "classmethod" for d in f.node.decorator_list):
            s = ctx.own.sum[q]
            for p in f.pos_params()[1:]:
                bad = [(path, loc) for path, loc in s.ret if loc[0] == "P" and loc[1] == p and any(x.startswith(".") for x in path)
                       and len(loc[2]) < 1]
                bad = [b for b in bad if not b[1][2] and {a[0] for a in ctx.types.param_atoms(f, p)} & {"np", "ls", "tp"} or
                       (not b[1][2] and p in ("poles", "knots"))]
                ctx.check(not bad, "owned", "%s/%s" % (fname(f), p), "the created object keeps the argument in %s" %
                          ("".join(bad[0][0]) if bad else ""), f.loc(f.node))
    ctx.expect("constructor data", 7)
