"""P07: the reported polygon change is the change that happened."""
from ..loader import AnalysisError
from ..rl import in_assert, canon, flat, bodies, fname, callers_of, where
from ..tok import T, show, is_const, cval, NONE, Tok, const, subtoks
from ..dc import *
from .p34 import is_pair, other, at, PREV, VII, DISC, DISW, CONN, CONF, INS
from .p06 import Same, learn, registry, SETP, CW, CP

LEVEL = "other"
EXPLANATION = ("Path-sensitive dataflow over the two segment operations with all their helpers inlined: the report stored last "
               "on each path is compared with the regions registered / removed and the segments changed on that path.")
TECHNIQUE = "path enumeration with effect matching"
FIELD = "last_polygon_change"


def kind_of(t):
    t = canon(t)
    for x in subtoks(t):
        if x.op in ("attr", "global", "enumval", "ref", "gattr", "cattr"):
            n = str(x.args[-1]).split(".")[-1]
            if n in ("none", "shape", "add", "remove", "split", "join"):
                return n
    return show(t).split(".")[-1]


def conds_of(o):
    return [(canon(e.recv), str(e.name) == "True", e) for e in o.events() if e.kind == "cond"]


def equal_cond(t):
    if t.op == "op" and len(t.args) == 3 and t.args[0] in ("==", "!=", "is", "is not"):
        return t.args[1], t.args[2], t.args[0] in ("==", "is")
    return None


def operation(ctx, f):
    c = fname(f)
    W, R = ctx.effects
    fields = {FIELD, "polygon", "outer_wire", "wire", "segment", "#polygons", "#segments", "#wires"}

    def touches(g):
        return bool((W.get(g.qual) or set()) & fields)

    def pol(g):
        q = g.qual
        if q in (IDA, IDR, SETP, PREV, VII, INS, DISC, DISW, CONN, CONF, CW, CP) or q.startswith((PT + ".", WIRE + ".")):
            return "opaque" if q not in ctx.prog.classes and g.name not in ("__init__", "is_free") else "inline"
        if q == SEG + ".is_dendrite":
            return "opaque"
        if q in ctx.prog.classes or q not in W:
            return None
        if g.cls is not None and g.cls.qual == DEC or g.name == "__init__":
            return "inline"
        return "inline" if touches(g) else "opaque"
    n = 0
    kinds = set()
    for o in ctx.run(f, policy=pol, keep_conds=True):
        if o.flow != "return":
            continue
        n += 1
        eq, maps = Same(), {}
        for e in o.events():
            learn(eq, e, maps)
        rep, first = None, None
        made, gone, segs = [], [], []
        cs = conds_of(o)
        for e, l in flat(o.events()):
            if e.kind == "write" and e.name == FIELD:
                rep = e
                if l:
                    ctx.bad("reset", c + "/loop", "the report depends on how often a loop runs", where(e))
            r = registry(e, maps)
            if r and r[1] == "polygons":
                (made if r[0] == "reg" else gone).append((eq.find(r[2]), e))
            if r and r[1] == "segments":
                segs.append((r[0], eq.find(r[2]), e))
        ctx.check(rep is not None, "reset", c + "/every path", "on a path the report of an earlier operation survives", f.loc(f.node))
        if rep is None:
            continue
        it = seq_items(rep.args[0])
        if it is None or len(it) != 3:
            continue
        k = kind_of(it[0])
        kinds.add(k)
        a, b = eq.find(it[1]), eq.find(it[2])
        loc = where(rep)
        con = "%s/%s" % (c, k)
        if made and not gone:
            P = made[-1][0]
            ctx.check(k in ("add", "split"), "kind", con, "a region was created and '%s' is reported" % k, loc)
            ctx.check(b is P, "operands", con + "/second", "the second operand %s is not the created region" % show(b), loc)
            ctx.check(a is not P and a is not NONE, "operands", con + "/first", "the first operand is not the original region", loc)
            if k in ("add", "split"):
                for t, val, e in cs:
                    x = equal_cond(t)
                    if x and not in_assert(ctx, e.node):
                        for p, q in ((x[0], x[1]), (x[1], x[0])):
                            # loop q is the outer loop of its own region
                            if p.op == "attr" and p.args[1] == "outer_wire" and p.args[0].op == "attr" and p.args[0].args[1] == "polygon" \
                                    and p.args[0].args[0] is q:
                                outer = val == x[2]
                                ctx.check(k == ("split" if outer else "add"), "kind", con + "/nesting",
                                          "'%s' is reported when the divided loop is %s" % (k, "the outer loop" if outer else "a hole"), loc)
                                ctx.check(eq(a, p.args[0]), "operands", con + "/original", "the first operand is %s" % show(a), loc)
                                break
                        else:
                            continue
                        break
        elif gone and not made:
            P = gone[-1][0]
            ctx.check(k in ("remove", "join"), "kind", con, "a region was deleted and '%s' is reported" % k, loc)
            ctx.check(b is P, "operands", con + "/second", "the second operand %s is not the deleted region" % show(b), loc)
            ctx.check(a is not P and a is not NONE, "operands", con + "/first", "the first operand is not the kept region", loc)
            sib = None
            for t, val, e in cs:
                x = equal_cond(t)
                if not x:
                    continue
                p, q = x[0], x[1]
                par = [y for y in (p, q) if y.op == "attr" and y.args[1] == "parent"]
                if len(par) == 2 and sib is None:
                    sib = val == x[2]
                    ctx.check(k == ("join" if sib else "remove"), "kind", con + "/nesting",
                              "'%s' is reported when the loops have %s parent" % (k, "the same" if sib else "a different"), loc)
                elif len(par) == 1 and val == x[2]:
                    inner = par[0].args[0]
                    outer = q if par[0] is p else p
                    ctx.check(eq(a, T("attr", outer, "polygon")), "operands", con + "/kept", "the first operand %s is not the "
                              "enclosing region" % show(a), loc)
                    ctx.check(eq(b, T("attr", inner, "polygon")), "operands", con + "/deleted", "the second operand %s is not the "
                              "enclosed region" % show(b), loc)
        elif made and gone:
            ctx.bad("kind", con, "a region is created and another deleted by one operation", loc)
        elif segs:
            lone = is_lone(ctx, cs, segs)
            if lone:
                ctx.check(k == "none", "kind", con + "/lone", "'%s' is reported for a lone segment" % k, loc)
            else:
                ctx.check(k == "shape", "kind", con, "a boundary changed and '%s' is reported" % k, loc)
            if k == "shape":
                regs = seq_items(it[1])
                if regs is None and canon(it[1]).op == "setlit":
                    regs = [x for x in canon(it[1]).args if isinstance(x, Tok)]
                if regs is not None:
                    ctx.check(len(regs) > 0, "operands", con + "/regions", "no changed region is reported", loc)
                    for r in regs:
                        rr = canon(r)
                        ctx.check(rr.op != "attr" or rr.args[1] in ("polygon", "poly"), "operands", con + "/regions",
                                  "%s is reported as a region" % show(rr), loc)
                else:
                    ctx.check(not (canon(it[1]).op == "attr" and canon(it[1]).args[1] in ("polygon", "poly")), "operands", con + "/list",
                              "changed regions are not reported as a list", loc)
                ctx.check(b is NONE, "operands", con + "/second", "a second operand is reported for a shape change", loc)
        else:
            ctx.check(k == "none", "kind", con + "/nothing", "'%s' is reported although nothing changed" % k, loc)
        if k == "none":
            ctx.check(a is NONE and b is NONE, "operands", con, "regions are reported with no change", loc)
    ctx.check(n > 0, "reset", c + "/returns", "no path returns", f.loc(f.node))
    return kinds


def is_lone(ctx, cs, segs):
    free_pts, free = set(), set()
    for t, val, e in cs:
        if val and t.op in ("call", "pcall") and str(t.args[0]).endswith(".is_free"):
            free_pts |= {x for x in t.args[1:] if isinstance(x, Tok)}
        x = equal_cond(t)
        if x and val == x[2]:
            for a, b in ((x[0], x[1]), (x[1], x[0])):
                if a.op == "item" and a.args[0].op == "attr" and a.args[0].args[1] == "next" and is_pair(b, a.args[0].args[0], other(a.args[1])):
                    free.add((a.args[0].args[0], a.args[1]))
                # is_free() inlined: point.segment[0] is None
                if b is NONE and a.op == "item" and a.args[0].op == "attr" and a.args[0].args[1] == "segment":
                    free_pts.add(a.args[0].args[0])
    for how, s, e in segs:
        if how == "reg" and len(free_pts) >= 2:
            return True
        if how == "unreg" and (s, const(0)) in free and (s, const(1)) in free:
            return True
    return False


def reader(ctx):
    f = ctx.prog.func(POLY + "polygons.PolygonDecomposition.get_last_polygon_changes")
    src = None
    c = fname(f)
    n = 0
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return" or o.val is None:
            continue
        n += 1
        it = seq_items(o.val)
        if it is None or len(it) != 3:
            continue
        rep = None
        for x in subtoks(canon(o.val)):
            if x.op == "attr" and x.args[1] == FIELD:
                rep = x
        if rep is None:
            continue
        null = {}
        shape = None
        for t, val, e in conds_of(o):
            x = equal_cond(t)
            if x:
                for a, b in ((x[0], x[1]), (x[1], x[0])):
                    if b is NONE:
                        null[a] = val == x[2]
                    if kind_of(b) == "shape" and a is T("item", rep, const(0)):
                        shape = val == x[2]
        ctx.check(canon(it[0]) is T("item", rep, const(0)), "reader", c + "/kind", "the kind %s is returned" % show(it[0]), f.loc(f.node))
        if shape:
            x = canon(it[1])
            src = T("item", rep, const(1))
            ok = any(y is src for y in subtoks(x)) and not (x is src)
            ctx.check(ok, "reader", c + "/regions", "ids of the changed regions are not taken from the report", f.loc(f.node))
            if x.op == "comp":
                ctx.check(x.args[4] is None, "reader", c + "/all regions", "some changed regions are left out", f.loc(f.node))
            continue
        for i in (1, 2):
            v, s = canon(it[i]), T("item", rep, const(i))
            if v is NONE:
                ctx.check(null.get(s) is True, "reader", c + "/operand %d" % i, "operand %d is not reported" % i, f.loc(f.node))
            else:
                ctx.check(v is T("attr", s, "id") or v.op not in ("attr",), "reader", c + "/operand %d" % i, "operand %d is returned as %s" % (i, show(v)), f.loc(f.node))
    ctx.check(n > 1, "reader", c + "/paths", "change kinds are not distinguished", f.loc(f.node))


def run(ctx):
    ctx.rule("reset", "every segment operation stores a report on every path")
    ctx.rule("kind", "the reported kind is the kind of change made on the path")
    ctx.rule("operands", "the report names kept region first and created / deleted region second, changed regions as a list")
    ctx.rule("reader", "ids are reported for the stored regions in the stored order")
    kinds = set()
    for q in (DEC + ".new_segment", DEC + ".delete_segment"):
        f = ctx.prog.func(q)
        ctx.saw("segment operations", q)
        kinds |= operation(ctx, f) or set()
    want = {"none", "shape", "add", "remove", "split", "join"}
    ctx.check(want <= kinds, "kind", "kinds", "never reported: %s" % ", ".join(sorted(want - kinds)))
    reader(ctx)
    for f in sorted(direct_writers(ctx, [FIELD]).values(), key=lambda g: g.qual):
        ctx.saw("functions storing the report", f.qual)
    ctx.expect("functions storing the report", 2)
