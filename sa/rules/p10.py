"""P10: merging leaves its inputs and the tolerance of the receiving decomposition as they were."""
import ast
from ..loader import AnalysisError
from ..rl import canon, flat, fname, where
from ..tok import T, show
from ..own import show as oshow
from ..dc import POLY

LEVEL = "other"
TECHNIQUE = "interprocedural ownership and effect analysis, path-sensitive save/restore dataflow with exceptional paths"
EXPLANATION = ("Ownership summaries (modified and aliased parts of every parameter, through all callees) of the merge functions "
               "show that nothing reachable from the merged-in decompositions is modified or shared; a path analysis that "
               "includes exceptional exits shows that every path leaving a function that sets a tolerance of another object "
               "puts back the value read at entry.")
# derived values recomputed on demand and marks of the plotting
SCRATCH = {"_get_child_passed", "displayed"}


def merge_functions(ctx):
    mod = ctx.prog.mods.get(POLY + "merge")
    if mod is None:
        raise AnalysisError("module %smerge not found" % POLY)
    return [f for q, f in sorted(ctx.prog.funcs.items()) if q.startswith(POLY + "merge.")]


def receiver(ctx, f):
    """Parameters of a merge function that receive the pieces: the first one, unless it is a collection of inputs."""
    ps = f.pos_params()
    return ps[:1]


def inputs(ctx):
    """Entry points and their input parameters."""
    yield ctx.prog.func(POLY + "merge.intersect_single"), [1]
    yield ctx.prog.func(POLY + "merge.intersect_decompositions"), [0]


def untouched(ctx):
    ctx.rule("untouched", "no object reachable from a merged-in decomposition is modified, through any callee")
    ctx.rule("no-sharing", "no mutable part of a merged-in decomposition becomes a part of the receiving one")
    for f, idx in inputs(ctx):
        s = ctx.own.sum.get(f.qual)
        if s is None:
            raise AnalysisError("no ownership summary of %s" % f.qual)
        for i in idx:
            p = f.pos_params()[i]
            bad = []
            for (loc, mode), (fq, node, how) in s.mod.items():
                if loc[0] != "P" or loc[1] != p:
                    continue
                fld = how[1:] if how.startswith(".") else None
                if mode == "set" and fld in SCRATCH:
                    continue
                bad.append((oshow(loc), fq, node, how))
            key = "%s/%s" % (fname(f), p)
            ctx.check(not bad, "untouched", key, "merging modifies %s of an input (%s in %s)" %
                      ((bad[0][0], bad[0][3], bad[0][1]) if bad else ("", "", "")),
                      "%s:%s" % (bad[0][1], getattr(bad[0][2], "lineno", 0)) if bad else "")
            sh = []
            for dst, src in s.stores:
                if src[0] == "P" and src[1] == p and dst[0] == "P" and dst[1] != p and mutable(ctx, src):
                    sh.append((oshow(dst), oshow(src)))
            ctx.check(not sh, "no-sharing", key, "the result keeps %s of an input in %s" % (sh[0][1], sh[0][0]) if sh else "", f.loc(f.node))
            ctx.saw("input", key)


ARRAYS = {"xy", "_vector"}
CONTAINERS = {"points", "segments", "wires", "polygons", "childs", "free_points", "next", "wire", "vtxs", "pt_to_seg", "_free_ids"}
OBJ = {"points", "segments", "wires", "polygons"}


def mutable(ctx, src):
    path = src[2]
    if not path:
        return True
    last = path[-1]
    if last.startswith(".") and last[1:] in ARRAYS | CONTAINERS:
        return True
    if last == "[]" and len(path) > 1 and path[-2].startswith(".") and path[-2][1:] in OBJ:
        return True
    return False


def tolerance(ctx):
    ctx.rule("restore", "every path, also exceptional, out of a function that sets the tolerance of another object ends with the "
                        "tolerance read at entry")
    ctx.rule("in-force", "the tolerance in force while the pieces are added is the merge tolerance passed by the caller")
    n = 0
    for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.qual):
        if not isinstance(f.node, ast.FunctionDef):
            continue
        sets = [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "tolerance"
                and not (isinstance(x.value, ast.Name) and x.value.id in ("self",))]
        if not sets or any(x is not f and x.parent is f for x in ctx.prog.funcs.values() if x.node in sets):
            continue
        own = [x for x in sets if enclosing(ctx, f, x)]
        if not own:
            continue
        opaque = [c.qual for c in callees(ctx, f)]
        runs = ctx.run(f, opaque=opaque, track_exc=True, keep_conds=True)
        for o in runs:
            if o.flow not in ("return", "raise", "next"):
                continue
            last = {}
            first = {}
            for e, l in flat(o.events()):
                if e.kind == "write" and e.name == "tolerance":
                    r = canon(e.recv)
                    first.setdefault(r, e)
                    last[r] = e
            for r, e in last.items():
                if r.op not in ("param", "attr"):
                    continue        # an object made here
                v = canon(e.args[0])
                n += 1
                ctx.check(v is T("attr", r, "tolerance"), "restore", "%s/%s" % (fname(f), "exception" if o.flow == "raise" else "return"),
                          "the tolerance of %s is %s when the function ends by %s, not the value it had before" %
                          (show(r), show(v), "an exception" if o.flow == "raise" else "return"), where(e))
                v0 = canon(first[r].args[0])
                ctx.check(v0.op == "param", "in-force", fname(f), "the tolerance during the merge is %s, not the requested one" % show(v0),
                          where(first[r]))
        ctx.saw("tolerance setter", fname(f))
    return n


def callees(ctx, f):
    out = []
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            for q in ctx.types.callees.get(x, ()):
                c = ctx.prog.funcs.get(q if isinstance(q, str) else q.qual)
                if c is not None and c.qual != f.qual and not ctxman(c) and not sets_tol(c):
                    out.append(c)
    return out


def ctxman(f):
    return any("contextmanager" in ast.dump(d) for d in getattr(f.node, "decorator_list", ()))


def sets_tol(f):
    return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "tolerance" for x in ast.walk(f.node))


def enclosing(ctx, f, node):
    """Is the node directly in f (not in a nested function)?"""
    for g in ctx.prog.funcs.values():
        if g.parent is f and any(n is node for n in ast.walk(g.node)):
            return False
    return True


def passed(ctx):
    """The caller's merge tolerance reaches the function that sets it."""
    ctx.rule("passed-on", "merging a list of decompositions uses the merge tolerance passed by the caller for every one of them")
    f = ctx.prog.func(POLY + "merge.intersect_decompositions")
    g = ctx.prog.func(POLY + "merge.intersect_single")
    ps, gp = f.pos_params(), g.pos_params()
    tolp = next((p for p in ps if "tol" in p), None)
    gtol = next((p for p in gp if "tol" in p), None)
    if tolp is None or gtol is None:
        return
    n = 0
    for o in ctx.run(f, opaque=[g.qual], keep_conds=True):
        for e, l in flat(o.events()):
            if e.kind == "call" and e.name == g.qual:
                n += 1
                i = gp.index(gtol)
                v = canon(e.args[i]) if len(e.args) > i else None
                if v is None:
                    v = dict(getattr(e, "kw", None) or {}).get(gtol)
                    v = canon(v) if v is not None else None
                ctx.check(v is T("param", tolp), "passed-on", fname(f), "a decomposition is merged with the tolerance %s" %
                          (show(v) if v is not None else "by default"), where(e))
    if not n:
        # other structure of the merge: nothing to match
        ctx.saw("unmatched", fname(f))


def run(ctx):
    for f in merge_functions(ctx):
        ctx.saw("function", f.qual)
    untouched(ctx)
    if not tolerance(ctx):
        ctx.saw("tolerance setter", "none")
    passed(ctx)
