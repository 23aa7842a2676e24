"""P05: the direction stored with a segment is recomputed after every change of its endpoints."""
import ast
from ..loader import AnalysisError
from ..rl import canon, flat, bodies, fname, callers_of, where, cont_ops, root
from ..tok import T, show, subtoks, is_const, cval, NONE, Tok, const
from ..dc import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive dataflow over every function that stores a segment endpoint, a point position or the stored "
               "direction: each such store leaves an obligation for the affected segments that has to be discharged later "
               "on the same path by storing 'end minus start' of the current endpoints; aliasing rules keep the stored "
               "vector out of reach of callers.")
FIELDS = ["vtxs", "_vector", "xy"]
PTS = PT + ".segments"


def is_diff(v, fin, seg):
    """Is the value 'position of the end point minus position of the start point'?"""
    v = v
    while v.op == "copyof" or (v.op in ("call", "pcall") and str(v.args[0]).split(".")[-1] in ("array", "asarray", "subtract", "copy")):
        if v.op == "copyof":
            v = v.args[1]
        elif str(v.args[0]).split(".")[-1] == "subtract":
            a = [x for x in v.args[1:] if isinstance(x, Tok)]
            v = T("op", "-", a[0], a[1])
        else:
            v = v.args[1]
    v = canon(v)
    if v.op != "op" or v.args[0] != "-" or len(v.args) != 3:
        return False
    ends = [{T("attr", x, "xy")} for x in fin]
    return v.args[1] in ends[1] and v.args[2] in ends[0]


def in_place(f):
    """Is a value read from a position or direction changed in place through a local name?"""
    names = set()
    for n in own_nodes(f):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr in ("vector", "xy", "_vector") for x in ast.walk(n.value)):
            for t in n.targets:
                names |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    for n in own_nodes(f):
        t = n.target if isinstance(n, ast.AugAssign) else n if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) else None
        while isinstance(t, ast.Subscript):
            t = t.value
        if isinstance(t, ast.Name) and t.id in names:
            return True
        if isinstance(t, ast.Attribute) and t.attr in ("vector", "xy", "_vector"):
            return True
    return False


def examine_factory(ctx, alone=False):
    force = set()
    pol = field_policy(ctx, FIELDS, opaque=["PolygonDecomposition.add_line_for_points"], force=force)
    if alone:
        inlinable = pol

        def pol(f):
            if f.qual in force:
                return "inline"
            r = inlinable(f)
            return "opaque" if r == "inline" and not (f.cls is not None and f.cls.qual in (SEG, PT)) else r

    def examine(f):
        ctx.saw("functions with endpoint edits", f.qual)
        res = []
        c = fname(f)
        own = PT + ".__init__"
        for o in ctx.run(f, policy=pol):
            if o.flow != "return":
                continue
            cur, init = {}, {}
            need = {}           # segment -> event of the last change
            around = {}         # point -> event
            new = set()

            def pair(s):
                if s not in cur:
                    cur[s] = [vtx(s, 0), vtx(s, 1)]
                return cur[s]

            def handle(events, loop):
                upd = set()
                for e in events:
                    if e.kind == "yield" and not loop:
                        flush()
                        continue
                    if e.kind == "loop":
                        per = [handle(b, loop + (e,)) for b, fl in bodies(e) if fl != "raise"]
                        if per:
                            common = set.intersection(*per)
                            for s in common:
                                for p in list(around):
                                    if segment_of(s, p):
                                        del around[p]
                            upd |= common
                        continue
                    if e.kind == "new" and e.name == SEG:
                        s = canon(e.res)
                        cur[s] = pair_of_new(e) or pair(s)
                        need[s] = e
                        new.add(s)
                    elif e.kind == "setitem" and canon(e.recv).op == "attr" and canon(e.recv).args[1] == "vtxs":
                        s = canon(canon(e.recv).args[0])
                        pair(s)
                        if is_const(e.args[0]) and cval(e.args[0]) in (0, 1, -1):
                            cur[s][cval(e.args[0]) % 2] = canon(e.args[1])
                        else:
                            cur[s] = [vtx(s, 0), vtx(s, 1)]
                        need[s] = e
                    elif e.kind == "write" and e.name == "vtxs" and canon(e.recv) not in new:
                        s = canon(e.recv)
                        it = seq_items(e.args[0])
                        cur[s] = [canon(x) for x in it] if it and len(it) == 2 else [vtx(s, 0), vtx(s, 1)]
                        need[s] = e
                    elif (e.kind in ("write", "aug") and e.name == "xy" and e.recv.op != "new") or \
                            (e.kind in ("setitem",) and canon(e.recv).op == "attr" and canon(e.recv).args[1] == "xy"):
                        p = canon(e.recv) if e.kind != "setitem" else canon(canon(e.recv).args[0])
                        if not (f.qual == own or e.func.qual == own):
                            around[p] = e
                    elif e.kind == "aug" and e.recv is not None and canon(e.recv).op == "attr" and canon(e.recv).args[1] == "xy":
                        around[canon(canon(e.recv).args[0])] = e
                    elif e.kind == "write" and e.name == "_vector":
                        s = canon(e.recv)
                        p = pair(s)
                        if is_diff(e.args[0], p, s):
                            need.pop(s, None)
                            upd.add(s)
                            for q in list(around):
                                if not loop and False:
                                    pass
                        else:
                            res.append(("value", c, "the direction is stored as %s" % show(e.args[0]), where(e)))
                    elif e.kind in ("aug", "setitem", "mut") and e.recv is not None and canon(e.recv).op == "attr" and \
                            canon(e.recv).args[1] == "_vector":
                        res.append(("value", c + "/in place", "the stored direction is changed in place", where(e)))
                return upd

            def flush():
                for s, e in need.items():
                    res.append(("follows", c + "/segment", "the direction of segment %s is not recomputed after its endpoint was exchanged" % show(s), where(e)))
                for p, e in around.items():
                    res.append(("follows", c + "/point", "directions of the segments joined to %s are not recomputed after the move" % show(p), where(e)))
                need.clear()
                around.clear()

            def segment_of(s, p):
                for x in subtoks(s):
                    if x.op == "gen" or (x.op in ("call", "pcall") and "Point.segments" in str(x.args[0])):
                        if any(canon(y) is p for y in subtoks(x)):
                            return True
                r = s
                while r.op in ("item", "attr"):
                    r = r.args[0]
                if r.op == "elem":
                    for e, l in flat(o.events()):
                        if e.kind == "mut" and e.name in ("add", "append", "update", "extend") and canon(e.recv) is canon(r.args[0]) and e.args:
                            if any(segment_of(canon(a), p) for a in e.args if isinstance(a, Tok) and not (a.op == "elem" and a is r)):
                                return True
                return False
            handle(o.events(), ())
            flush()
            res.append(("follows", c, None, None))
        return res
    examine.force = force
    return examine


def run(ctx):
    P = ctx.prog
    ctx.rule("follows", "after an endpoint is exchanged or a point moved the direction of each affected segment is recomputed")
    ctx.rule("value", "the stored direction is always 'end minus start' of the current endpoints, never changed in place")
    ctx.rule("hidden", "the stored direction is never handed out")
    fs = direct_writers(ctx, FIELDS, pkg=PKG + ("bgem.polygons.",))
    for q in list(fs):
        if fs[q].name == "__init__" and fs[q].cls.qual != SEG:
            del fs[q]
        elif fs[q].cls is not None and fs[q].cls.qual == SEG and fs[q].name == "update_vector":
            pass
    # functions that use the vector in place (aliases)
    local = {}
    for f in P.funcs.values():
        if f.qual.startswith("bgem.polygons.") and f.qual not in fs:
            if any(isinstance(n, ast.Attribute) and n.attr in ("_vector",) for n in own_nodes(f)):
                fs[f.qual] = f
            elif in_place(f):
                local[f.qual] = f
    for need in (SEG + ".__init__", PT + ".move"):
        if need not in P.funcs:
            raise AnalysisError("%s not found" % need)
    ex = examine_factory(ctx)
    lex = examine_factory(ctx, True)
    for q in sorted(local):
        if q not in fs:
            settle(ctx, local[q], lex, set())
    seen = set()
    for q in sorted(fs):
        f = fs[q]
        if f.cls is not None and f.cls.qual == SEG and f.name == "__init__":
            init_vector(ctx, f)
            continue
        settle(ctx, f, ex, seen)
    ctx.expect("functions with endpoint edits", 4)
    hidden(ctx)


def init_vector(ctx, f):
    me = T("param", "self")
    v = T("param", f.pos_params()[1])
    n = 0
    for o in ctx.run(f, policy=field_policy(ctx, FIELDS)):
        if o.flow != "return":
            continue
        w = [e for e, l in flat(o.events()) if e.kind == "write" and e.name == "_vector"]
        n += 1
        ok = bool(w) and (is_diff(w[-1].args[0], [T("item", canon(v), const(0)), T("item", canon(v), const(1))], me))
        ctx.check(ok, "value", fname(f), "a new segment gets the direction %s" % (show(w[-1].args[0]) if w else "unset"),
                  where(w[-1]) if w else f.loc(f.node))
    if not n:
        raise AnalysisError("constructor of Segment has no normal path")


def hidden(ctx):
    P = ctx.prog
    n = 0
    for f in P.funcs.values():
        if not f.qual.startswith("bgem.polygons."):
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr == "_vector" and isinstance(x.ctx, ast.Load) for x in own_nodes(f)):
            continue
        n += 1
        ctx.saw("readers of the stored direction", f.qual)
        if f.is_gen:
            continue
        for o in ctx.run(f):
            if o.flow != "return" or o.val is None:
                continue
            vals = [o.val] + (seq_items(o.val) or [])
            for v in vals:
                v = canon(v) if v.op not in ("copyof",) else v
                raw = v.op == "attr" and v.args[1] == "_vector"
                if v.op == "item":
                    b = v
                    sl = False
                    while b.op == "item":
                        sl = sl or any(s.op == "slice" for s in subtoks(b.args[1]))
                        b = b.args[0]
                    raw = sl and b.op == "attr" and b.args[1] == "_vector"
                if v.op in ("call", "pcall") and str(v.args[0]).split(".")[-1] in ("asarray", "reshape", "ravel", "view", "atleast_1d"):
                    raw = any(s.op == "attr" and s.args[1] == "_vector" for s in subtoks(v))
                ctx.check(not raw, "hidden", fname(f), "the stored direction itself is handed out", f.loc(f.node))
    if not n:
        raise AnalysisError("no reader of the stored direction found")
