"""P06: loops and regions are registered, nested symmetrically and handed over."""
from ..rl import in_assert, canon, flat, bodies, fname, callers_of, where, cont_ops
from ..tok import T, show, is_const, cval, NONE, Tok, const, subtoks
from ..dc import *
from .p34 import wire_loop, is_pair, other, at, PREV, VII, DISC, DISW, CONN, CONF, INS

LEVEL = "other"
EXPLANATION = ("Path-sensitive dataflow over every function that creates, removes or re-links loops and regions: on each path "
               "a created loop/region is registered and completely linked before the operation ends, a removed one is "
               "detached, its children are handed over by a loop over a copy, and parent/child links change together.")
TECHNIQUE = "abstract interpretation of link-update paths with must-happen obligations"
SETP = WIRE + ".set_parent"
CW, CP = WIRE + ".contains_wire", WIRE + ".contains_point"


class Same:
    """Equalities known on a path."""

    def __init__(self):
        self.up = {}

    def find(self, t):
        t = canon(t)
        while t in self.up:
            t = self.up[t]
        if t.op == "attr":
            b = self.find(t.args[0])
            if b is not t.args[0]:
                return self.find(T("attr", b, t.args[1]))
        return t

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is not b:
            if is_const(a) and is_const(b):
                return
            if not is_const(a) and (is_const(b) or b.op == "new" or a.op == "attr" and b.op != "attr"):
                a, b = b, a
            self.up[b] = a

    def __call__(self, a, b):
        return self.find(a) is self.find(b)


def registry(e, maps):
    """idmap_ops, also for a registry created on the path."""
    r = idmap_ops(e)
    if r is None and e.kind == "call" and e.name in (IDA, IDR) and e.recv is not None and canon(e.recv) in maps:
        args = [a for k, a in e.kw.items() if k != "self"]
        if args:
            r = ("reg" if e.name == IDA else "unreg", maps[canon(e.recv)], args[0])
    return r


def learn(eq, e, maps):
    if e.kind == "write" and e.name in ("wires", "polygons", "points", "segments") and e.args and e.args[0].op == "new":
        maps[canon(e.args[0])] = e.name
    if e.kind == "cond":
        t, val = canon(e.recv), str(e.name) == "True"
        if t.op == "op" and len(t.args) == 3 and t.args[0] in ("==", "is", "!=", "is not") and val == (t.args[0] in ("==", "is")):
            eq.join(t.args[1], t.args[2])
    r = registry(e, maps)
    if r and r[0] == "reg" and e.res is not None:
        eq.join(e.res, r[2])


def child_loop(e):
    """Owner of the child set a loop iterates, and is the set copied."""
    it = iteration(e)
    if it is None:
        if e.kind == "loop" and e.name == "while":
            for b, fl in bodies(e):
                for x in b:
                    s = setp_of(x)
                    for t in subtoks(s[0]) if s else ():
                        if t.op == "attr" and t.args[1] == "childs":
                            return t.args[0], True, []
        return None
    c, copied, conds = it
    if c.op == "attr" and c.args[1] == "childs":
        return c.args[0], copied, conds
    return None


LOADERS = ("make_wire_from_segments", "make_polygon", "set_wire_parents")


def loading(f):
    return f.cls is not None and f.cls.name == "PolygonDecomposition" and f.name in LOADERS


def setp_of(e):
    if e.kind == "call" and e.name == SETP:
        ps = [k for k in e.kw if k != "self"]
        return canon(e.kw["self"]), canon(e.kw[ps[0]])
    return None


def own_parents(eq, loop, walked):
    """Loops met on the other side of the walked boundary: a dangling segment has the walked loop itself on both sides,
    it must not become its own parent."""
    for b, fl in bodies(loop):
        same_, differ = set(), set()
        for x, ll in flat(b):
            if x.kind == "cond" and x.recv is not None:
                t, val = canon(x.recv), str(x.name) == "True"
                if t.op == "op" and t.args[0] in ("==", "is", "!=", "is not") and len(t.args) == 3:
                    pos = val == (t.args[0] in ("==", "is"))
                    (same_ if pos else differ).add(frozenset(canon(y) for y in t.args[1:]))
            sp = setp_of(x)
            if sp and eq(sp[1], walked) and sp[0].op == "item" and sp[0].args[0].op == "attr" and sp[0].args[0].args[1] == "wire":
                pair = [k for k in differ if sp[0] in k and any(eq(y, walked) for y in k)]
                if not pair:
                    yield ("own parent", "the loop on the other side of a walked boundary can be the walked loop itself (dangling segment), "
                           "it becomes its own parent", where(x))


def examine_paths(ctx, f, force):
    res = []
    c = fname(f)

    def say(rule, con, what, loc):
        res.append((rule, c + "/" + con, what, loc))
    pol0 = field_policy(ctx, ["parent", "childs", "polygon", "outer_wire", "wire"],
                        opaque=[SETP, PREV, VII, INS, DISC, DISW, PT + ".join_segment", PT + ".rm_segment", PT + ".set_polygon",
                                CW, CP], inline=[DEC + "._destroy_segment", CONN, CONF, DEC + "._make_segment"], force=force)

    def pol(g):
        if g.qual != SETP and g.qual not in (CW, CP) and g is not f and any(h is g for h in setters(ctx)):
            return "inline"
        return pol0(g)
    for o in ctx.run(f, policy=pol, keep_conds=True):
        if o.flow != "return":
            continue
        eq, maps = Same(), {}
        for e in o.events():
            learn(eq, e, maps)
        new_w, new_p, reg, gone, gone_s = {}, {}, set(), {}, set()
        pw, ow, seg, par = {}, {}, {}, {}
        chw = []
        loops = []
        parts = {}
        free = set()
        order = 0
        for e, l in flat(o.events()):
            order += 1
            if not l and e.kind == "loop":
                wl = wire_loop(e)
                if wl is not None:
                    tgt = {eq.find(x.args[1]) for b, fl in bodies(e) for x in b
                           if x.kind == "setitem" and canon(x.recv).op == "attr" and canon(x.recv).args[1] == "wire"}
                    if len(tgt) == 1:
                        parts[eq.find(wl[0])] = tgt.pop()
                    for r, what, loc in own_parents(eq, e, wl[0]):
                        say("symmetry", r, what, loc)
                cl = child_loop(e)
                loops.append((e, cl, wl, order))
            if e.kind == "loop":
                cl = child_loop(e)
                if cl and not cl[1]:
                    moves = any(setp_of(x) for b, fl in bodies(e) for x, ll in flat(b))
                    say("handover", "copy", "child links are changed while the child set is iterated" if moves else None, where(e))
            if e.kind == "new" and e.name == WIRE:
                new_w[canon(e.res)] = e
            if e.kind == "new" and e.name == PGN:
                new_p[canon(e.res)] = e
                a = e.kw.get("outer_wire") if e.kw else None
                if a is None and e.args:
                    a = e.args[0]
                if a is not None:
                    ow[canon(e.res)] = (eq.find(a), e)
            r = registry(e, maps)
            if r:
                ob = eq.find(r[2])
                if r[0] == "reg":
                    reg.add((r[1], ob))
                elif r[1] in ("wires", "polygons"):
                    gone[(r[1], ob)] = e
                elif r[1] == "segments":
                    gone_s.add(canon(r[2]))
            if e.kind == "write":
                rc, v = eq.find(e.recv), e.args[0]
                if e.name == "polygon" and not (e.func and e.func.qual == WIRE + ".__init__"):
                    pw[rc] = (eq.find(v), e)
                elif e.name == "outer_wire":
                    ow[rc] = (eq.find(v), e)
                elif e.name == "segment" and not (e.func and e.func.qual == WIRE + ".__init__") and WIRE in {z.qual for z in ctx.last.classes_of(e.recv, None)}:
                    seg[rc] = e
                elif e.name == "parent" and not (e.func and e.func.qual == WIRE + ".__init__"):
                    par[rc] = (eq.find(v), e, "raw")
                elif e.name == "childs" and not (e.func and e.func.qual == WIRE + ".__init__"):
                    say("symmetry", "childs", "the child set of a loop is replaced", where(e))
            s = setp_of(e)
            if s:
                par[eq.find(s[0])] = (eq.find(s[1]), e, "set")
            for how, coll, val in ops(e):
                cc = canon(coll)
                if cc.op == "attr" and cc.args[1] == "childs":
                    chw.append((how, eq.find(cc.args[0]), eq.find(val) if val is not None else None, e))
            if e.kind == "cond":
                t, val = canon(e.recv), str(e.name) == "True"
                if t.op == "op" and t.args[0] in ("==", "!=") and len(t.args) == 3 and val == (t.args[0] == "=="):
                    for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                        if a.op == "item" and a.args[0].op == "attr" and a.args[0].args[1] == "next" and is_pair(b, a.args[0].args[0], other(a.args[1])):
                            free.add((a.args[0].args[0], a.args[1]))
        # created loops
        for w, e in new_w.items():
            root = w in par and par[w][0] is NONE
            say("created", "loop registered", None if ("wires", w) in reg else "a created loop is not registered", where(e))
            say("created", "loop region", None if w in pw and pw[w][0] is not NONE else "a created loop gets no region", where(e))
            if not root and loading(f) and (f.name == LOADERS[0] or any(x[0] is w for x in ow.values())):
                continue        # parents of loaded outer loops are set when all loops are known
            if not root:
                say("created", "loop segment", None if w in seg else "a created loop gets no representative segment", where(e))
                say("created", "loop parent", None if w in par else "a created loop is not linked to a parent", where(e))
        # created regions, region <-> outer loop
        for p, e in new_p.items():
            say("created", "region registered", None if ("polygons", p) in reg else "a created region is not registered", where(e))
            ok = p in ow and ow[p][0] is not NONE
            say("created", "region loop", None if ok else "a created region gets no outer loop", where(e))
        for p, (w, e) in ow.items():
            if w is NONE:
                continue
            if w in pw:
                ok = eq(pw[w][0], p)
            else:
                ok = p not in new_p and (eq(T("attr", w, "polygon"), p) or w.op not in ("new",))
            say("created", "outer loop refers back", None if ok else "the outer loop of a region refers to %s" %
                (show(pw[w][0]) if w in pw else "no region"), where(e))
        # holes follow their region
        for x, (q, e, how) in par.items():
            P = [p for p in new_p if p in ow and ow[p][0] is q]
            if q.op == "attr" and q.args[1] == "outer_wire":
                P.append(q.args[0])
            if how == "set" and P and x.op == "elem":
                ok = x in pw and any(eq(pw[x][0], p) for p in P)
                say("handover", "region of a moved hole", None if ok else "a hole is moved under the loop of a region but keeps its former region", where(e))
            if how == "set" and x.op == "elem" and x in pw and pw[x][0] is not NONE:
                p = pw[x][0]
                want = ow[p][0] if p in ow else eq.find(T("attr", p, "outer_wire"))
                say("handover", "loop of a moved hole", None if eq(q, want) else
                    "a hole is moved to region %s but under loop %s" % (show(p), show(q)), where(e))
        # symmetric links
        for w, (q, e, how) in par.items():
            if how == "raw":
                add = any(h == "add" and a is q and b is w for h, a, b, x in chw)
                rem = any(h == "rem" and b is w for h, a, b, x in chw)
                ok = (q is NONE or add) and (w in new_w or rem)
                say("symmetry", "parent", None if ok else "the parent of a loop is set without updating the child sets", where(e))
        for how, a, b, e in chw:
            if how == "add":
                ok = b is not None and b in par and par[b][0] is a
                say("symmetry", "childs", None if ok else "a loop is added to child loops without setting its parent", where(e))
            else:
                ok = b is not None and (b in par or ("wires", b) in gone)
                say("symmetry", "childs", None if ok else "a loop is taken from child loops but stays linked to its parent", where(e))
        # removed loops
        for (kind, w), e in gone.items():
            if kind == "polygons":
                W = [x for (k, x) in gone if k == "wires"]
                ok = any(eq(x, T("attr", w, "outer_wire")) for x in W)
                say("removed", "region with loop", None if ok or not W and w.op == "elem" else
                    "a region is removed while its outer loop stays registered", where(e))
                continue
            det = [x for h, a, b, x in chw if h == "rem" and b is w and a is not w]
            ok = bool(det) or (w in par and par[w][2] == "set" and (par[w][0] is w or par[w][0] is NONE))
            say("removed", "loop detached", None if ok else "a removed loop stays among the child loops of its parent", where(e))
            lone = any((s, const(0)) in free and (s, const(1)) in free for s in gone_s)
            if lone:
                continue
            hand = None
            for le, cl, wl, i in loops:
                if cl and eq(cl[0], w):
                    hand = le, cl
            if hand is None:
                say("removed", "children handed over", "the child loops of a removed loop are not handed over", where(e))
                continue
            le, cl = hand
            what = None
            if cl[2]:
                what = "only some child loops of a removed loop are handed over"
            for b, fl in bodies(le):
                if fl == "raise":
                    continue
                ss = [setp_of(x) for x, ll in flat(b) if setp_of(x)]
                if le.name == "for":
                    ss = [s for s in ss if s[0].op == "elem"]
                if not ss and le.name == "for":
                    what = "only some child loops of a removed loop are handed over"
                elif any(eq(s[1], w) or ("wires", eq.find(s[1])) in gone for s in ss):
                    what = "child loops are handed over to a removed loop"
            say("removed", "children handed over", what, where(le))
            # two loops of one region are joined: the regions inside the removed hole get outside of the region (the kept
            # loop is the outer one) or stay inside the hole (both are holes)
            K = parts.get(w)
            if K is not None and not any(k == "polygons" for k, x in gone):
                outer = {}
                for e2 in o.events():
                    if e2.kind != "cond":
                        continue
                    t, val = canon(e2.recv), str(e2.name) == "True"
                    if t.op == "op" and t.args[0] in ("==", "is", "!=", "is not") and len(t.args) == 3:
                        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                            if a.op == "attr" and a.args[1] == "outer_wire" and b.op != "attr":
                                outer[b] = val == (t.args[0] in ("==", "is"))
                side = {x: v for x, v in outer.items() if eq(x, K) or eq(x, w)}
                kept = any(v for x, v in side.items() if eq(x, K))
                holes = not any(side.values()) and any(eq(x, K) for x in side) and any(eq(x, w) for x in side)
                want = T("attr", K, "parent") if kept else K if holes else None
                qs = [setp_of(x)[1] for b, fl in bodies(le) if fl != "raise" for x, ll in flat(b) if setp_of(x)]
                if want is not None and qs:
                    say("removed", "new parent", None if all(eq(q, want) for q in qs) else
                        "the loops inside a joined hole get parent %s in place of %s" % (show(qs[0]), show(want)), where(le))
        # divided loops
        for w, k in parts.items():
            if k not in new_w or ("wires", w) in gone:
                continue
            ok = False
            for le, cl, wl, i in loops:
                if cl and (eq(cl[0], w) or cl[0].op == "attr" and cl[0].args[1] == "outer_wire" and eq(cl[0], w)):
                    ok = ok or any(setp_of(x) for b, fl in bodies(le) for x, ll in flat(b))
            say("handover", "children of a divided loop", None if ok else "child loops of a divided loop are not shared out", where(new_w[k]))
            both = {w, k}
            for a in both:
                if a in par and par[a][0] in both and par[a][0] is not a and not new_p:
                    ok = False
                    for le, cl, wl, i in loops:
                        if wl and eq(wl[0], a):
                            for b, fl in bodies(le):
                                for x, ll in flat(b):
                                    s = setp_of(x)
                                    if s and eq(s[1], a) and s[0].op == "item" and s[0].args[0].op == "attr" and s[0].args[0].args[1] == "wire":
                                        ok = True
                            it = iteration(le)
                        elif le.kind == "loop" and le.recv is not None and "neighbors" in show(le.recv):
                            ok = ok or any(setp_of(x) and eq(setp_of(x)[1], a) for b, fl in bodies(le) for x, ll in flat(b))
                    say("handover", "loops enclosed by a hole", None if ok else
                        "loops enclosed by a separated inner loop keep their former parent", where(par[a][1]))
            if not any(a in par and par[a][1] is not None for a in both):
                say("handover", "parents of a divided loop", "the parts of a divided loop get no parent", where(new_w[k]))
    return res


def ops(e):
    for op in cont_ops(e):
        yield op[0], op[1], op[2]


def setters(ctx):
    """Private helpers that (transitively) re-parent loops."""
    r = ctx.__dict__.get("_p06_setters")
    if r is None:
        r, todo = [], [SETP]
        while todo:
            q = todo.pop()
            for g, n in callers_of(ctx, q):
                if g not in r and (g.name.startswith("_") or g.cls is None):
                    r.append(g)
                    todo.append(g.qual)
        ctx._p06_setters = r
    return r


def set_parent_body(ctx):
    f = ctx.prog.func(SETP)
    me = T("param", "self")
    new = T("param", [p for p in f.pos_params() if p != "self"][0])
    n = 0
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        n += 1
        null = {}
        w = None
        rem = add = False
        for e, l in flat(o.events()):
            if e.kind == "cond" and not l and not in_assert(ctx, e.node):
                t, val = canon(e.recv), str(e.name) == "True"
                if t.op == "op" and t.args[0] in ("is", "is not", "==", "!=") and NONE in t.args[1:]:
                    x = [a for a in t.args[1:] if a is not NONE]
                    if x:
                        null[x[0]] = val == (t.args[0] in ("is", "=="))
                elif t.op in ("attr", "param"):
                    null[t] = not val
            if e.kind == "write" and e.name == "parent" and canon(e.recv) is me:
                w = canon(e.args[0])
            for how, coll, v in ops(e):
                cc = canon(coll)
                if cc.op == "attr" and cc.args[1] == "childs" and v is not None and canon(v) is me:
                    own = cc.args[0]
                    if how == "rem" and own is T("attr", me, "parent"):
                        rem = True
                    if how == "add" and own is new:
                        add = True
        ctx.check(w is new, "symmetry", fname(f) + "/parent", "the parent is set to %s" % (show(w) if w is not None else "nothing"), f.loc(f.node))
        if null.get(T("attr", me, "parent")) is not True:
            ctx.check(rem, "symmetry", fname(f) + "/old parent", "the loop stays among the child loops of its former parent", f.loc(f.node))
        if null.get(new) is not True:
            ctx.check(add, "symmetry", fname(f) + "/new parent", "the loop is not added to the child loops of its parent", f.loc(f.node))
    ctx.check(n > 0, "symmetry", fname(f) + "/returns", "no path returns", f.loc(f.node))


def run(ctx):
    ctx.rule("created", "a created loop or region is registered and gets region / outer loop, representative segment and parent")
    ctx.rule("removed", "a removed loop is detached from its parent and its child loops are handed over")
    ctx.rule("handover", "child loops of dropped or divided loops are re-parented over a copy, holes follow their region")
    ctx.rule("symmetry", "parent and child links change together")
    fs = direct_writers(ctx, ["parent", "childs", "polygon", "outer_wire"], idmaps=("wires", "polygons"), classes=(WIRE, PGN))
    for g, n in callers_of(ctx, SETP):
        fs[g.qual] = g

    def examine(f):
        ctx.saw("functions linking loops and regions", f.qual)
        return examine_paths(ctx, f, examine.force)
    examine.force = set()
    seen = set()
    for q in sorted(fs):
        if q != SETP and not q.startswith((WIRE + ".__init__", PGN + ".__init__")) and q != POLY + "polygons.PolygonDecomposition.set_wire_parents":
            settle(ctx, fs[q], examine, seen)
    ctx.expect("functions linking loops and regions", 6)
    set_parent_body(ctx)
