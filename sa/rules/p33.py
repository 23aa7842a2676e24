"""P33: a point is listed as free in exactly the region it refers to, or refers to one of its segments."""
import ast
from ..loader import AnalysisError
from ..rl import canon, flat, bodies, fname, callers_of, where, cont_ops, root
from ..tok import T, show, subtoks, is_const, cval, NONE, Tok, const
from ..dc import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive state simulation (typestate of points: free in region X / attached to segments) over every "
               "function that stores a point's region or segment or changes a list of free points; call-site rules tie "
               "attaching and detaching to the right end of the right segment, creation, destruction and endpoint exchange "
               "of segments to both, and creation and deletion of regions to the hand-over of their free points.")
JOIN, RMS, SETP = PT + ".join_segment", PT + ".rm_segment", PT + ".set_polygon"
FREE = PT + ".is_free"


def free_of(t):
    """Polygon token of a container '<polygon>.free_points'."""
    t = canon(t)
    return t.args[0] if t.op == "attr" and t.args[1] == "free_points" else None


def is_point(ctx, t):
    cs = {c.qual for c in ctx.last.classes_of(t, None)}
    return not cs or PT in cs


def none_pair(v):
    if is_const(v):
        return cval(v) == (None, None)
    it = seq_items(v)
    return it is not None and len(it) == 2 and it[0] is NONE


def states(ctx, f, force):
    """Simulate the points of one function."""
    res = []
    c = fname(f)
    pol = field_policy(ctx, ["poly", "free_points"], opaque=[], force=force)

    def policy(g):
        if g is not f and g.qual in (JOIN, RMS, SETP) and f.qual not in (JOIN, RMS, SETP):
            return "opaque"
        return pol(g)
    for o in ctx.run(f, policy=policy, keep_conds=True):
        if o.flow != "return":
            continue
        pts = {}

        def P(t):
            p = canon(t)
            if p not in pts:
                pts[p] = {"poly": None, "in": [], "home_rm": False, "home_none": False, "new": False, "seg": None,
                          "gone": False, "free": None, "ev": None, "touch": False, "ne": set(), "home_some": False}
            return pts[p]
        stop = []

        def walk(events, loops):
            for e in events:
                if e.kind == "loop":
                    for b, fl in bodies(e):
                        if fl not in ("raise", "return"):
                            # effects in a loop body concern its own element: simulated as one more path
                            walk(b, loops + (e,))
                    continue
                if e.kind == "new" and e.name == PT:
                    P(e.res)["new"] = True
                    P(e.res)["free"] = True
                elif e.kind == "write" and e.name == "poly" and is_point(ctx, e.recv):
                    s = P(e.recv)
                    s["poly"], s["ev"], s["touch"] = e.args[0], e, True
                elif e.kind == "write" and e.name == "segment" and is_point(ctx, e.recv) and \
                        {x.qual for x in ctx.last.classes_of(e.recv, None)} & {PT}:
                    s = P(e.recv)
                    s["seg"], s["ev"], s["touch"] = e.args[0], e, True
                elif e.kind == "cond":
                    t, val = canon(e.recv), str(e.name) == "True"
                    if t.op == "op" and t.args[0] in ("is", "==", "is not", "!=") and NONE in t.args:
                        x = t.args[1] if t.args[2] is NONE else t.args[2]
                        isnone = val == (t.args[0] in ("is", "=="))
                        if x.op == "attr" and x.args[1] == "poly":
                            P(x.args[0])["home_none" if isnone else "home_some"] = True
                        if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "segment":
                            P(x.args[0].args[0])["free"] = isnone
                    elif t.op in ("call", "pcall") and any(a == FREE or str(a).endswith(FREE) for a in t.args):
                        a = [x for x in t.args if isinstance(x, Tok)]
                        if a:
                            P(a[0])["free"] = val
                    elif t.op == "op" and t.args[0] in ("==", "!=") and len(t.args) == 3:
                        if val == (t.args[0] == "!=") and not loops:
                            for s in pts.values():
                                s["ne"].add((t.args[1], t.args[2]))
                        if not loops and val == (t.args[0] == "!="):
                            stop.append((t.args[1], t.args[2]))
                elif e.kind == "call" and e.name == SETP:
                    s = P(e.kw.get("self"))
                    s["poly"] = s["seg"] = None
                    s["touch"] = False
                    s["in"] = []
                    s["home_rm"] = False
                    s["free"] = True
                r = idmap_ops(e)
                if r and r[1] == "points" and r[0] == "unreg":
                    P(r[2])["gone"] = True
                    P(r[2])["touch"] = True
                    P(r[2])["ev"] = P(r[2])["ev"] or e
                for op, cont, item, _ in cont_ops(e):
                    X = free_of(cont)
                    if X is None:
                        continue
                    if item is None:
                        res.append(("listed", c, "a list of free points is changed as a whole (%s)" % e.name, where(e)))
                        continue
                    s = P(item)
                    s["touch"], s["ev"] = True, e
                    p = canon(item)
                    if op == "add":
                        s["in"].append(X)
                    elif op in ("rem", "del"):
                        if X in s["in"]:
                            s["in"].remove(X)
                        elif X is T("attr", p, "poly") or (s["poly"] is not None and X is canon(s["poly"])):
                            s["home_rm"] = True
                        else:
                            res.append(("listed", c + "/removed", "a point is taken off the free points of %s" % show(X), where(e)))
        walk(o.events(), ())
        for p, s in pts.items():
            if not s["touch"]:
                continue
            home = T("attr", p, "poly")
            listed = list(s["in"])
            if not s["new"] and not s["home_rm"] and not s["home_none"]:
                listed.append(home)
            V = canon(s["poly"]) if s["poly"] is not None else home
            seg = s["seg"]
            w = where(s["ev"])
            what = None
            attached = seg is not None and not none_pair(seg)
            if s["gone"]:
                if listed:
                    what = "a removed point stays in the free points of %s" % ", ".join(show(x) for x in listed)
            elif attached:
                it = seq_items(seg)
                if it is not None and len(it) == 2 and canon(it[1]).op == "op" and canon(it[0]).op == "param":
                    what = "the end %s is recorded for the segment %s" % (show(it[1]), show(it[0]))
                from_self = any(x.op == "gen" and p in [canon(y) for y in subtoks(x)] for x in subtoks(seg)) or \
                    any(x.op in ("elem",) and T("pcall", "x") is not None and any(
                        y.op in ("call", "pcall") and "segments" in str(y.args[0]) and p in [canon(z) for z in subtoks(y)]
                        for y in subtoks(x)) for x in subtoks(seg))
                if from_self or s["free"] is False:
                    # the point is attached already, is in no list
                    if s["poly"] is not None and not (V is NONE):
                        what = "an attached point is given a region"
                    if it is not None and len(it) == 2:
                        a, b = canon(it[0]), canon(it[1])
                        if a.op == "item" and b.op == "item" and (a.args[0] is not b.args[0] or
                                                                  (cval(a.args[1]), cval(b.args[1])) != (0, 1)):
                            what = "the end %s does not belong to the segment %s" % (show(b), show(a))
                        sp = [T("param", x) for x in f.pos_params()[1:]]
                        if f.qual == RMS and sp and not any({x, y} == {a, sp[0]} for x, y in s["ne"] | set(stop)):
                            what = "the point may keep referring to the removed segment"
                else:
                    if not (V is NONE or (s["poly"] is None and s["home_none"])):
                        what = "an attached point keeps its region %s" % show(V)
                    elif listed:
                        what = "an attached point stays in the free points of %s" % ", ".join(show(x) for x in listed)
                    elif it is not None and len(it) == 2:
                        ps = [T("param", x) for x in f.pos_params()]
                        if canon(it[0]) in ps and canon(it[1]) in ps and ps.index(canon(it[0])) > ps.index(canon(it[1])):
                            what = "the segment and its end are exchanged"
            elif V is NONE:
                if s["new"] and not listed:
                    pass
                elif seg is None and not (s["free"] is False):
                    what = "a point loses its region without being attached to a segment"
                elif seg is not None:
                    what = "a point is left without a region and a segment"
                elif listed and not (len(listed) == 1 and listed[0] is home and s["free"] is False):
                    what = "a point without a region stays in the free points of %s" % ", ".join(show(x) for x in listed)
            else:
                if len(listed) != 1 or listed[0] is not V:
                    what = "a free point of %s is listed in %s" % (show(V), ", ".join(show(x) for x in listed) or "no region")
                elif seg is None and not (s["free"] or (s["new"])):
                    what = "a point is made free of a region, but keeps its segment"
            res.append(("state", c + "/" + ("new point" if s["new"] else "point"), what, w))
        # completeness of attaching / detaching
        if f.qual in (JOIN, RMS) and not force:
            me = T("param", f.pos_params()[0])
            s = pts.get(me)
            sg = s["seg"] if s else None
            if f.qual == JOIN and sg is None:
                res.append(("state", c + "/attach", None if s and s["free"] is False else "a free point is not attached", f.loc(f.node)))
            if f.qual == RMS and sg is None:
                keeps = any(T("attr", me, "segment") in list(subtoks(x)) for ab in stop for x in ab)
                res.append(("state", c + "/detach", None if keeps else "the point keeps referring to the removed segment", f.loc(f.node)))
    return res


def call_sites(ctx):
    """Attaching and detaching is done at the right end of the right segment."""
    n = 0
    for q in (JOIN, RMS):
        for g in sorted({f.qual for f, node in callers_of(ctx, q)}):
            f = ctx.prog.func(g)
            for o in ctx.run(f, opaque=[JOIN, RMS, SETP, SEG + ".previous", SEG + "._set_next_side", SEG + ".connect_vtx", SEG + ".connect_free_vtx",
                                        SEG + ".disconnect_vtx", SEG + ".disconnect_wires", SEG + ".vtx_insert_info", IDA, IDR]):
                if o.flow != "return":
                    continue
                cur = {}
                for e, l in flat(o.events()):
                    if e.kind == "new" and e.name == SEG:
                        cur[canon(e.res)] = pair_of_new(e)
                    if e.kind == "call" and e.name == q:
                        ctx.saw("attach / detach sites", "%s:%s" % (g, q))
                        ps = ctx.prog.func(q).pos_params()
                        pt, seg, v = (canon(e.kw.get(x)) for x in ps[:3])
                        want = {T("item", T("attr", seg, "vtxs"), v)}
                        if seg in cur and cur[seg] and is_const(v):
                            want.add(cur[seg][cval(v)])
                        elem = not is_const(v) and any(x.op == "elem" for x in subtoks(pt)) and any(w.args[0] in list(subtoks(pt)) for w in want)
                        ctx.check(pt in want or elem, "site", "%s/%s" % (fname(f), q.split(".")[-1]),
                                  "%s is handled as end %s of %s" % (show(pt), show(v), show(seg)), where(e))
                        n += 1
    return n


def homes(ctx):
    """A point that loses its last segment is given the region beside that segment."""
    for g in sorted({f.qual for f, node in callers_of(ctx, SETP)} | {RMS}):
        f = ctx.prog.func(g)
        if f.cls is None or f.cls.qual not in (DEC, PT, SEG):
            continue
        for o in ctx.run(f, policy=field_policy(ctx, [], opaque=[SETP] + ([RMS, JOIN] if g != RMS else [])), keep_conds=True):
            if o.flow != "return":
                continue
            for e, l in flat(o.events()):
                if e.kind != "call" or e.name != SETP:
                    continue
                ps = ctx.prog.func(SETP).pos_params()
                p, r = canon(e.kw.get(ps[0])), canon(e.kw.get(ps[1]))
                if any(x.op == "attr" and x.args[1] == "free_points" for x in subtoks(p)):
                    continue            # moved between regions, decided by the rule of handing over
                ctx.saw("detached points", fname(f))
                ok = r.op in ("call", "pcall", "param") or r.op == "phi" or r.op == "attr" and r.args[1] == "polygon" or \
                    r.op == "item" and r.args[0].op in ("call", "pcall")
                ctx.check(ok, "state", fname(f) + "/home", "a detached point is given the region %s, not the one beside its segment" % show(r),
                          where(e))
    ctx.expect("detached points", 1)


def segments(ctx):
    """Created segments are attached at both ends, removed ones are detached at both ends, exchanged ends follow."""
    fs = direct_writers(ctx, ["vtxs"], idmaps=("segments",), classes=(SEG,))

    def examine(f):
        res = []
        c = fname(f)
        ctx.saw("functions creating, removing or re-attaching segments", f.qual)
        pol = field_policy(ctx, [], inline=[SEG + ".connect_vtx", SEG + ".connect_free_vtx", SEG + ".disconnect_vtx",
                                            DEC + "._make_segment", DEC + "._destroy_segment"],
                           opaque=[JOIN, RMS, SETP, SEG + ".previous", SEG + ".vtx_insert_info"], force=examine.force)
        for o in ctx.run(f, policy=pol):
            if o.flow != "return":
                continue
            cur, init = {}, {}
            join, rm, setp = set(), set(), set()
            need = []

            def pair(s):
                if s not in cur:
                    cur[s] = [vtx(s, 0), vtx(s, 1)]
                return cur[s]
            for e, l in flat(o.events()):
                if e.kind == "new" and e.name == SEG:
                    s = canon(e.res)
                    cur[s] = pair_of_new(e) or pair(s)
                    need += [("join", p, s, e) for p in cur[s]]
                elif e.kind == "call" and e.name in (JOIN, RMS):
                    ps = ctx.prog.func(e.name).pos_params()
                    pt, s, v = (canon(e.kw.get(x)) for x in ps[:3])
                    if is_const(v):
                        tgt = {pair(s)[cval(v)], pt}
                    else:
                        tgt = {pt}
                        if f.qual not in (JOIN, RMS):
                            # side given by a variable: the end of that side
                            tgt |= {("side", s, v)}
                    (join if e.name == JOIN else rm).update((x, s) if not isinstance(x, tuple) else x for x in tgt)
                    if any(x.op == "elem" for x in subtoks(pt)):
                        (join if e.name == JOIN else rm).update((x, s) for x in pair(s))
                elif e.kind == "call" and e.name == SETP:
                    setp.add(canon(e.kw["self"]))
                elif e.kind == "setitem" and canon(e.recv).op == "attr" and canon(e.recv).args[1] == "vtxs":
                    s = canon(canon(e.recv).args[0])
                    k = e.args[0]
                    p = pair(s)
                    new = canon(e.args[1])
                    if is_const(k) and cval(k) in (0, 1):
                        old = p[cval(k)]
                        p[cval(k)] = new
                    else:
                        old = T("item", T("attr", s, "vtxs"), canon(k))
                    need.append(("left", old, s, e, k))
                    need.append(("joinany", new, s, e))
                r = idmap_ops(e)
                if r and r[1] == "segments" and r[0] == "unreg":
                    s = canon(r[2])
                    need += [("rm", p, s, e) for p in pair(s)]
            for n in need:
                kind, p, s, e = n[:4]
                if kind == "join":
                    ok = (p, s) in join
                    w = "an end of a created segment is not attached"
                elif kind == "rm":
                    ok = (p, s) in rm or any(isinstance(x, tuple) and len(x) == 3 and x[1] is s for x in rm)
                    w = "an end of a removed segment is not detached"
                elif kind == "left":
                    ok = (p, s) in rm or p in setp or ("side", s, canon(n[4])) in rm or any(
                        x.op == "param" and x in setp for x in (p,)) or bool(setp)
                    w = "the replaced end of a segment is not detached"
                else:
                    ok = any(j[0] is p for j in join) or any(len(j) == 3 and j[1] is s for j in join)
                    w = "the new end of a segment is not attached to any segment"
                res.append(("ends", c + "/" + kind, None if ok else w, where(e)))
        return res
    examine.force = set()
    seen = set()
    for q in sorted(fs):
        if q.startswith(SEG + ".__init__"):
            continue
        settle(ctx, fs[q], examine, seen)


def regions(ctx):
    """Regions made or deleted by an operation take over / hand over free points."""
    fs = direct_writers(ctx, [], idmaps=("polygons",))

    def examine(f):
        res = []
        c = fname(f)
        pol = field_policy(ctx, ["outer_wire", "free_points", "poly"], opaque=[JOIN, RMS, SETP, "Wire.set_parent", "Segment.disconnect_wires"], force=examine.force)
        for o in ctx.run(f, policy=pol, keep_conds=True):
            if o.flow != "return":
                continue
            outer = {}
            made, gone = [], []
            moves = []
            for e in o.events():
                for x, l in flat([e]):
                    if x.kind == "write" and x.name == "outer_wire":
                        outer[canon(x.recv)] = canon(x.args[0])
                    r = idmap_ops(x)
                    if r and r[1] == "polygons":
                        (made if r[0] == "reg" else gone).append((canon(r[2]), x))
                it = iteration(e)
                if it:
                    P = free_of(it[0])
                    if P is not None:
                        moves.append((P, e))
            for p, e in gone:
                ctx.saw("region deletions", c)
                mv = [m for P, m in moves if P is p]
                ok = False
                why = "free points of a deleted region are not handed over"
                for m in mv:
                    ok = True
                    for b, fl in bodies(m):
                        if fl == "raise":
                            continue
                        sp = [x for x in b if x.kind == "call" and x.name == SETP]
                        if not sp or canon(sp[-1].kw["polygon"]) is p or iteration(m)[2]:
                            ok, why = False, "some free points stay in a deleted region"
                    if not iteration(m)[1]:
                        ok, why = False, "free points are iterated while they are moved"
                res.append(("handover", c + "/deleted", None if ok else why, where(e)))
            if f.cls is None or f.cls.qual != DEC or f.name == "__init__":
                continue
            for p, e in made:
                ctx.saw("region creations", c)
                ok, why = False, "free points of the split region are not distributed"
                for P, m in moves:
                    if P is p:
                        continue
                    ok = True
                    nmv = 0
                    for b, fl in bodies(m):
                        if fl == "raise":
                            continue
                        sp = [x for x in b if x.kind == "call" and x.name == SETP and canon(x.kw["polygon"]) is p]
                        cs = [(canon(x.recv), str(x.name) == "True") for x in b if x.kind == "cond"] + iteration(m)[2]
                        ins = [(t, v) for t, v in cs if any("contains_point" in str(y.args[0]) for y in subtoks(t) if y.op in ("call", "pcall", "op"))]
                        inside = None
                        for t, v in ins:
                            a = list(subtoks(t))
                            neg = sum(1 for y in a if y.op == "op" and y.args[0] == "not")
                            val = v if neg % 2 == 0 else not v
                            if p in a or outer.get(p) in a:
                                inside = val
                            elif P in a or outer.get(P) in a:
                                inside = not val
                        if sp:
                            nmv += 1
                            if inside is not True:
                                ok, why = False, "free points are moved to the new region without lying in it"
                        elif inside is True:
                            ok, why = False, "free points inside the new region are not moved to it"
                    if not nmv:
                        ok, why = False, "free points of the split region are not distributed"
                    if not iteration(m)[1]:
                        ok, why = False, "free points are iterated while they are moved"
                    if ok:
                        break
                res.append(("handover", c + "/created", None if ok else why, where(e)))
        return res
    examine.force = set()
    seen = set()
    for q in sorted(fs):
        settle(ctx, fs[q], examine, seen)


def queries(ctx):
    """is_free means 'no segment'; a new point is without a segment."""
    f = ctx.prog.func(FREE)
    me = T("param", "self")
    for o in ctx.run(f, keep_conds=True):
        v = canon(o.val)
        s0 = T("item", T("attr", me, "segment"), const(0))
        if is_const(v):
            cs = [(canon(e.recv), str(e.name) == "True") for e in o.events() if e.kind == "cond"]
            ok = any(s0 in list(subtoks(t)) and (val == (t.args[0] in ("is", "=="))) == cval(v) for t, val in cs if t.op == "op")
        else:
            ok = v.op == "op" and v.args[0] in ("is", "==") and {v.args[1], v.args[2]} == {s0, NONE}
            # via the region or the whole pair
            ok = ok or (v.op == "op" and v.args[0] in ("is not", "!=") and {v.args[1], v.args[2]} == {T("attr", me, "poly"), NONE}) or \
                (v.op == "op" and v.args[0] == "==" and T("attr", me, "segment") in v.args and any(none_pair(x) for x in v.args[1:]))
        ctx.check(ok, "query", fname(f), "a point is reported free when %s" % show(v), f.loc(f.node))
    f = ctx.prog.func(PT + ".__init__")
    for o in ctx.run(f):
        w = {e.name: e.args[0] for e, l in flat(o.events()) if e.kind == "write"}
        ctx.check("segment" in w and none_pair(w["segment"]), "query", fname(f) + "/segment", "a new point is attached", f.loc(f.node))
        ctx.check("poly" in w and canon(w["poly"]).op == "param", "query", fname(f) + "/poly", "a new point does not keep its region", f.loc(f.node))


def run(ctx):
    ctx.rule("state", "every path leaves a touched point free in exactly one region (and in its list only), attached and in no list, or unregistered and in no list")
    ctx.rule("listed", "a point is taken off the free points of the region it refers to")
    ctx.rule("site", "attaching / detaching concerns the end of the segment given")
    ctx.rule("ends", "both ends of a created / removed segment are attached / detached; exchanged ends follow")
    ctx.rule("handover", "free points are handed over when regions are created or deleted")
    ctx.rule("query", "a point is free when it refers to no segment; new points start so")
    fs = {f.qual: f for f in direct_writers(ctx, ["poly", "free_points"], idmaps=("points",), classes=(PT,)).values()}
    for q in (JOIN, RMS, SETP):
        if q in ctx.prog.funcs:
            fs[q] = ctx.prog.func(q)
    force = set()

    def examine(f):
        ctx.saw("functions with point state edits", f.qual)
        return states(ctx, f, examine.force)
    examine.force = force
    examine.final = (JOIN, RMS, SETP)
    seen = set()
    for q in sorted(fs):
        if q.endswith(".__init__"):
            continue
        settle(ctx, fs[q], examine, seen)
    ctx.expect("functions with point state edits", 3)
    n = call_sites(ctx)
    if n < 3:
        raise AnalysisError("attach / detach calls not found")
    homes(ctx)
    segments(ctx)
    regions(ctx)
    queries(ctx)
    ctx.expect("region deletions", 1)
    ctx.expect("region creations", 1)
