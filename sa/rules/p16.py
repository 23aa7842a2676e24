"""P16: the two parametric directions are never mixed."""
from ..dirs import Dirs
from ..loader import AnalysisError
from ..rl import fname

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the syntax trees in a domain of parametric directions (units of indices, counts, parameters, array axes, pairs, corners)"
EXPLANATION = ("Every function of the bspline package is interpreted over a domain that tells for each value the parametric direction it "
               "belongs to: bases, knots, interval indices, counts, parameter values, axes of pole arrays, components of (u, v) pairs, "
               "corners of the parametric square and the edges between them. Directions start from the documented names of parameters and "
               "attributes; local variables, tuples, slices, helpers and numpy calls are followed. A combination of two values of known and "
               "contradicting direction is reported; values of unknown direction are never reported.")

PKG = "bgem.bspline."
RULES = {
    "basis argument": "a basis of one direction is evaluated at indices and parameters of the same direction",
    "basis construction": "a basis is built of the degree, knots and interval count of one direction",
    "index": "an axis of a pole array is indexed and sliced only in its own direction",
    "contraction": "basis vectors are contracted with the pole axis of their own direction",
    "axes": "arrays combined element by element agree in the direction of their axes",
    "argument": "an argument goes to the parameter of its own direction",
    "attribute": "an attribute keeps values of its own direction",
    "pair order": "pairs indexed by direction are ordered (U, V)",
    "element": "an element of a pair or array is set from its own direction",
    "bound": "indices and parameters are bounded by counts and parameters of their own direction",
    "arithmetic": "parameter values of different directions are not added or subtracted",
    "range": "a range of parameters uses bounds and counts of one direction",
    "reshape": "flattened values are reshaped in the order they were flattened",
    "flat index": "the stride of a flat index is the number of items in the other direction, as used by the added index",
    "flat order": "the flat indices of one class (patch numbers, matrix columns, Kronecker products, reshapes) have one order",
    "kronecker": "a Kronecker product combines factors of both directions",
    "curve basis": "a curve cut from a surface gets the basis of its own direction",
    "step": "a grid step is the edge of one direction over the number of steps in it",
    "edge": "edges are compared with edges of the same direction",
    "grid step": "the neighbours of a point of a row-major grid are one and Nv items back",
    "grid corner": "the corners of a row-major grid are taken at multiples of the row length Nv",
    "bilinear weights": "each corner of the quadrilateral gets the weight that is one at that corner",
}


def run(ctx):
    for n, t in RULES.items():
        ctx.rule(n, t)
    found = {}

    def report(f, node, rule, what):
        found.setdefault((f.qual, rule, what), (f, node))
    d = Dirs(ctx, report, None)
    done = {}
    for f in sorted(ctx.prog.funcs.values(), key=lambda x: x.qual):
        if not f.qual.startswith(PKG) or f.node is None or not hasattr(f.node, "body") or not isinstance(f.node.body, list):
            continue
        if f.parent is not None and not hasattr(f.parent, "methods") and f.cls is None and f.parent.__class__ is f.__class__:
            continue
        d.counts = {}
        d.run(f)
        done[f.qual] = dict(d.counts)
        ctx.saw("functions", fname(f))
    for q, c in sorted(done.items()):
        f = ctx.prog.funcs[q]
        for rule, n in sorted(c.items()):
            if not any(k[0] == q and k[1] == rule for k in found):
                ctx.ok(rule, "%s: %d" % (fname(f), n))
    for (q, rule, what), (f, node) in sorted(found.items(), key=lambda x: x[0]):
        ctx.bad(rule, fname(f), what, f.loc(node), key="%s:%s:%s" % (rule, fname(f), what))
    for owner, os in sorted(d.orders.items()):
        if len(os) == 1:
            o, us = next(iter(os.items()))
            ctx.ok("flat order", "%s: %s at %d places" % (owner, o, len(us)))
        else:
            best = max(os, key=lambda o: (len(os[o]), o))
            for o, us in os.items():
                if o != best:
                    for f, node, what in us:
                        ctx.bad("flat order", fname(f), "%s in the order %s, elsewhere in %s the order is %s (%s)" % (
                            what, o, owner, best, ", ".join(sorted({x[2] + " in " + fname(x[0]) for x in os[best]}))), f.loc(node),
                            key="flat order:%s:%s" % (fname(f), what))
    total = sum(sum(c.values()) for c in done.values())
    ctx.notes.append("%d directed combinations in %d functions" % (total, sum(1 for c in done.values() if c)))
    if total < 20:
        raise AnalysisError("only %d combinations of directed values were recognised: the names of bases and axes have vanished" % total)
