"""P23: the CAD model is synchronized before it is queried."""
from ..loader import AnalysisError
from ..tok import subtoks, is_const, cval
from ..rl import bodies, fname, where

LEVEL = "other"
TECHNIQUE = "typestate analysis of the synchronization state on all abstract paths"
EXPLANATION = ("Every public method of the geometry interface is interpreted with all helpers inlined and each of its abstract paths is run "
               "through the automaton (pending change, mark): a kernel call that changes the geometry sets pending, the kernel "
               "synchronization clears it, writes of the mark set the mark. Assuming 'pending implies marked' at the entry, a "
               "query with a pending change or a normal exit with an unmarked pending change is reported.")
MOD = "bgem.gmsh.gmsh"
FLAG = "_need_synchronize"
MESH_Q = ("generate", "setSize", "setTransfinite", "embed", "setRecombine", "setSmoothing", "setAlgorithm", "createGeometry", "setPeriodic",
          "setCompound", "setOrder")
SHAPE_EXT = (".brep", ".step", ".stp", ".xao", ".geo_unrolled", ".iges", ".igs")


def run(ctx):
    ctx.rule("marked", "a change of the geometry is marked as unsynchronized before the method returns")
    ctx.rule("synced", "a query of the model comes after a synchronization of every change")
    ctx.rule("clear", "the mark is cleared only when no change is pending")
    ctx.prog.func(MOD + ".GeometryOCC.synchronize")
    n = 0
    for cn in ("GeometryOCC", "ObjectSet"):
        c = ctx.prog.cls(MOD + "." + cn)
        for m in c.methods.values():
            if m.name.startswith("_") and m.name != "__init__":
                continue
            method(ctx, m)
    for f in ctx.prog.funcs.values():
        if f.mod.name == MOD and f.cls is None and f.parent is None:
            method(ctx, f)
    ctx.expect("changing calls", 12)
    ctx.expect("queries", 7)
    ctx.expect("kernel synchronization", 1)


def kind(e):
    """'change' / 'sync' / 'query' / ('flag', v) / ('cond', truth) / None"""
    if e.kind == "write" and e.name == FLAG:
        v = e.args[0]
        return ("flag", bool(cval(v)) if is_const(v) else None)
    if e.kind == "cond":
        r = e.recv
        neg = False
        while r is not None and r.op == "op" and r.args[0] == "not":
            r, neg = r.args[1], not neg
        if r is not None and (r.op == "attr" and r.args[1] == FLAG or r.op in ("lphi", "phi") and FLAG in r.args):
            return ("cond", bool(e.name) != neg)
        return None
    if e.kind != "call":
        return None
    n = None
    if e.name.startswith(".") and e.recv is not None and e.recv.op == "attr" and e.recv.args[1] == "model":
        n = e.name[1:]
    elif e.name.startswith(("gmsh.model.occ.", "gmsh.model.geo.")):
        n = e.name.split(".", 3)[3]
    elif e.name.startswith("gmsh.model."):
        s = e.name[len("gmsh.model."):]
        if s.startswith("mesh."):
            s = s[5:]
            return "query" if s.startswith(MESH_Q) and "." not in s else None
        return "query" if s.startswith("get") and s not in ("getCurrent", "getFileName", "getDimension") or s == "addPhysicalGroup" else None
    elif e.name == "gmsh.write" and e.args:
        for t in subtoks(e.args[0]):
            if is_const(t) and isinstance(cval(t), str) and cval(t).endswith(SHAPE_EXT):
                return "query"
        return None
    if n is None:
        return None
    if n == "synchronize":
        return "sync"
    if n.startswith("get") or "." in n:
        return None
    return "change"


def label(e):
    return (e.name or "").split(".")[-1] or "?"


def method(ctx, f):
    outs = ctx.run(f, keep_conds=True)
    q = fname(f)
    ctx.saw("methods", q)
    entry = {(False, False)} if f.name == "__init__" else {(False, False), (True, True), (False, True)}
    seen = {"changed": None}
    for o in outs:
        if o.flow == "raise":
            continue
        last = [None]
        st = {(p, fl, None) for p, fl in entry}
        st = run_events(ctx, q, o.events(), st)
        for p, fl, who in st:
            if p and not fl:
                ctx.bad("marked", q, "%s changes the geometry, but the method returns without marking it as unsynchronized"
                        % (who[0] if who else "a call"), who[1] if who else f.loc(f.node), key=q)
                break
        else:
            ctx.ok("marked", q)


def run_events(ctx, q, events, st):
    for e in events:
        if e.kind == "loop":
            acc = set(st)
            front = set(st)
            for _ in range(6):
                new = set()
                for body, flow in bodies(e):
                    if flow == "raise":
                        continue
                    new |= run_events(ctx, q, body, set(front))
                front = new - acc
                acc |= new
                if not front:
                    break
            st = acc
            continue
        k = kind(e)
        if k is None:
            continue
        if k == "change":
            ctx.saw("changing calls", q + ":" + label(e))
            st = {(True, fl, (label(e), where(e))) for p, fl, who in st}
        elif k == "sync":
            ctx.saw("kernel synchronization", q)
            st = {(False, fl, None) for p, fl, who in st}
        elif k == "query":
            ctx.saw("queries", q + ":" + label(e))
            pend = [who for p, fl, who in st if p]
            ctx.check(not pend, "synced", q + ":" + label(e), "%s is called while a change of the geometry%s is not synchronized"
                      % (label(e), " by " + pend[0][0] if pend and pend[0] else ""), where(e), key=q + ":" + label(e))
        elif k[0] == "flag":
            if k[1] is not None:
                bad = [1 for p, fl, who in st if p] if k[1] is False else []
                ctx.check(not bad, "clear", q, "the mark is cleared while a change is not synchronized yet", where(e), key=q)
                st = {(p, k[1], who) for p, fl, who in st}
            else:
                st = {(p, b, who) for p, fl, who in st for b in (True, False)}
        elif k[0] == "cond":
            st = {x for x in st if x[1] == k[1]}
    return st
