"""P09: maps of a merge lead from common objects to the right originals."""
from ..loader import AnalysisError
from ..rl import in_assert, canon, flat, bodies, fname, callers_of, where
from ..tok import T, show, is_const, cval, NONE, Tok, const, subtoks
from ..dc import *
from .p07 import equal_cond, kind_of, FIELD
from .p34 import same_side

LEVEL = "other"
EXPLANATION = ("Semantic qualifiers for ids (owning decomposition, dimension, which piece, which side) are derived along every "
               "path of the merge functions; each map store and each composition of maps has to respect them.")
TECHNIQUE = "qualifier (units-like) dataflow over id maps"
MG = POLY + "merge."
PD = POLY + "polygons.PolygonDecomposition"
DIMS = [PT, SEG, PGN]
NAMES = ["points", "segments", "regions"]


def base(t):
    """Root parameter of an object token (receiver / first argument of calls)."""
    seen = 0
    while seen < 60:
        seen += 1
        if t.op in ("param", "dict", "list", "new"):
            return t
        if t.op in ("call", "pcall"):
            a = [x for x in t.args[1:] if isinstance(x, Tok)]
            if not a:
                return t
            t = a[0]
        elif t.op == "gen":
            a = [x for x in t.args if isinstance(x, Tok) and x.op == "kwp"]
            if not a:
                return t
            t = a[0].args[-1]
        elif t.op == "copyof":
            t = t.args[1]
        elif t.op in ("lphi", "atver", "phi") and len(t.args) > 1 and isinstance(t.args[1], Tok):
            t = t.args[1] if t.op == "lphi" else t.args[0]
        elif t.args and isinstance(t.args[0], Tok):
            t = t.args[0]
        else:
            return t
    return t


def ident(t):
    """Object of an id token."""
    t = canon(t)
    if t.op == "attr" and t.args[1] == "id":
        return t.args[0]
    return None


class Merge:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        ps = f.pos_params()
        self.common, self.other = T("param", ps[0]), T("param", ps[1])

    def side(self, x):
        b = base(x)
        return "common" if b is self.common else "other" if b is self.other else None

    def dim(self, x):
        qs = {c.qual for c in self.ctx.last.classes_of(x, None)}
        hit = [d for d in range(3) if DIMS[d] in qs]
        return hit[0] if len(hit) == 1 and len(qs) == 1 else None


def lookup_of(v):
    """(map, key, default) of a dict lookup token."""
    v = canon(v)
    if v.op in ("call", "pcall") and str(v.args[0]) in (".get", ".setdefault", ".pop"):
        a = [x for x in v.args[1:] if isinstance(x, Tok)]
        return a[0], a[1], (a[2] if len(a) > 2 and a[2].op not in ("lphi", "uid", "clk") else NONE)
    if v.op == "item":
        return v.args[0], v.args[1], None
    if v.op == "ite":
        return None
    return None


def unphi(t):
    while t.op in ("lphi", "atver", "phi"):
        t = t.args[1] if t.op == "lphi" else t.args[0]
        if not isinstance(t, Tok):
            return None
    return t


def along(S):
    """Which loops of a region a visited segment comes from: 'outer' (the outer loop itself), 'inner' (its children), 'other'."""
    res = set()

    def walk(t):
        if t.op == "attr" and t.args[1] == "childs":
            res.add("inner")
        elif t.op == "attr" and t.args[1] == "outer_wire":
            res.add("outer")
        elif t.op == "attr" or t.op in ("param", "item", "key", "val", "phi", "lphi", "ite"):
            res.add("other")            # joined from several: not told apart
        elif t.op in ("call", "pcall"):
            if str(t.args[0]).split(".")[-1] in ("list", "tuple", "set", "sorted", "chain", "values", "copy"):
                for x in t.args[1:]:
                    if isinstance(x, Tok):
                        walk(x)
            else:
                res.add("other")
        else:
            for x in t.args:
                if isinstance(x, Tok):
                    walk(x)
    for g in subtoks(S):
        if g.op == "gen":
            a = [x for x in g.args if isinstance(x, Tok) and x.op == "kwp"]
            if a:
                walk(a[0].args[-1])
                return res
    return {"other"}


def single(ctx, f):
    c = fname(f)
    outs = ctx.run(f, policy=lambda g: "opaque" if not g.qual.startswith(MG) and g.name != "_add_line_new_segments" else None, keep_conds=True)
    m = Merge(ctx, f)
    done = 0
    for o in outs:
        if o.flow != "return":
            continue
        it = seq_items(canon(o.val)) if o.val is not None else None
        if it is None or len(it) != 3:
            raise AnalysisError("%s no longer returns decomposition and two maps" % f.qual)
        ctx.check(canon(it[0]) is m.common, "direction", c + "/result", "the decomposition returned is %s" % show(it[0]), f.loc(f.node))
        maps = {}
        for side, t in (("self", it[1]), ("other", it[2])):
            ds = seq_items(canon(t))
            if ds is None or len(ds) != 3:
                raise AnalysisError("%s no longer returns three maps per input" % f.qual)
            for d, x in enumerate(ds):
                maps[canon(x)] = (side, d)
        ctx.check(len(maps) == 6, "direction", c + "/maps", "two of the returned maps are the same object", f.loc(f.node))
        done += 1
        wires = []              # loops along which images are spread

        def visit(events, cs, path):
            """events of one body; cs: conditions so far"""
            cs = list(cs)
            here = []
            for e in events:
                if e.kind == "cond":
                    cs.append((canon(e.recv), str(e.name) == "True", e))
                if e.kind == "loop":
                    for b, fl in bodies(e):
                        if not str(fl).endswith("raise"):
                            visit(b, cs, path + [(e, fl)])
                recs = []
                if e.kind == "setitem" and canon(e.recv) in maps:
                    recs = [(canon(e.recv), e.args[0], e.args[1])]
                elif e.kind == "mut" and e.name == "setdefault" and canon(e.recv) in maps:
                    recs = [(canon(e.recv), e.args[0], e.args[1] if len(e.args) > 1 else NONE)]
                for mp, k, v in recs:
                    here.append((mp, canon(k), canon(v), e))
                    check_store(mp, canon(k), canon(v), e, cs)
                if e.kind == "yield":
                    here.append(("yield", e, len(here)))
            presence(events, here, cs, path)
            spread(events, cs)

        def check_store(mp, k, v, e, cs):
            who, d = maps[mp]
            con = "%s/%s/%s" % (c, who, NAMES[d])
            loc = where(e)
            ctx.saw("map stores", con)
            X = ident(k)
            if X is not None:
                s, dd = m.side(X), m.dim(X)
                ctx.check(s != "other", "direction", con + "/key", "an id of the merged-in decomposition is used as key", loc)
                ctx.check(dd is None or dd == d, "dimension", con + "/key", "the id of one of %s is a key in the map of %s" %
                          (NAMES[dd] if dd is not None else "", NAMES[d]), loc)
            lk = lookup_of(v)
            if lk is not None and v.op != "item" and unphi(lk[0]) is not None:
                M2 = unphi(lk[0])
                if M2 in maps:
                    ctx.check(M2 is mp, "dimension", con + "/inherited", "the image is inherited from the map of %s of %s" %
                              (NAMES[maps[M2][1]], maps[M2][0]), loc)
                K2 = ident(lk[1])
                if K2 is not None:
                    ctx.check(m.side(K2) != "other", "direction", con + "/inherited", "the image is looked up by an id of the merged-in decomposition", loc)
                    dd = m.dim(K2)
                    ctx.check(dd is None or dd == d, "dimension", con + "/inherited key", "the image is looked up by the id of one of %s" %
                              (NAMES[dd] if dd is not None else ""), loc)
                df = lk[2]
                if df is not None and df is not NONE:
                    D = ident(df)
                    ctx.check(who == "self" and D is K2, "pieces", con + "/default", "a piece without image gets %s" % show(df), loc)
                elif df is NONE and str(v.args[0]) != ".setdefault":
                    ctx.check(who == "other", "pieces", con + "/default", "a piece of an object that was not divided yet gets no image", loc)
                if X is not None and K2 is not None and e.kind == "setitem":
                    piece(X, K2, con, loc)
                return
            Y = ident(v)
            if Y is not None:
                s, dd = m.side(Y), m.dim(Y)
                if who == "other":
                    ctx.check(s != "common", "direction", con + "/value", "an id of the common decomposition is used as image in the merged-in one", loc)
                elif e.kind == "setitem":
                    ctx.check(s != "other", "direction", con + "/value", "an id of the merged-in decomposition is used as image in the receiving one", loc)
                    if X is not None and X is not Y:
                        ctx.bad("pieces", con + "/not inherited", "a piece gets the id of the divided object and not the image of it", loc)
                ctx.check(dd is None or dd == d, "dimension", con + "/value", "the id of one of %s is stored in the map of %s" %
                          (NAMES[dd] if dd is not None else "", NAMES[d]), loc)
                if who == "other" and d == 2 and X is not None:
                    sides(X, Y, con, loc, cs)
                if who == "other" and d == 0 and X is not None and X.op in ("call", "pcall"):
                    ok = any(y is T("attr", Y, "xy") for y in subtoks(X))
                    ctx.check(ok or str(X.args[0]).split(".")[-1] != "add_point", "pieces", con + "/same point",
                              "the added point is mapped to another point", loc)

        def spread(events, cs):
            """A region without image of its own takes the image of a neighbour that has one."""
            for e in events:
                if e.kind == "mut" and e.name in ("append", "add") and e.args:
                    X = ident(canon(e.args[0]))
                    if X is None or X.op != "attr" or X.args[1] != "polygon":
                        continue
                    known = [val == x[2] for t, val, ev in cs for x in [equal_cond(t)] if x and NONE in x[:2]
                             for y in x[:2] if y.op == "item" and unphi(y.args[0]) in maps and ident(y.args[1]) is X]
                    if known:
                        ctx.check(known[-1], "complete", c + "/spread", "a region that has an image is overwritten by its neighbour's", where(e))
                    W = X.args[0]
                    if W.op == "item" and W.args[0].op == "attr" and W.args[0].args[1] == "wire":
                        S, i = W.args[0].args[0], W.args[1]
                        wires.append((S, where(e)))
                        if S.op == "item" and S.args[0].op == "elem" and i.op == "item" and i.args[0] is S.args[0]:
                            ctx.bad("complete", c + "/spread side", "the region itself is visited in place of its neighbour", where(e))

        def piece(X, K, con, loc):
            """X is the new piece, K the divided object."""
            if X.op == "item" and K.op == "item" and X.args[0] is K.args[0] and is_const(X.args[1]) and is_const(K.args[1]):
                i, j = cval(X.args[1]), cval(K.args[1])
                ok = (i, j) == (2, 1)
                ctx.check(ok, "pieces", con + "/origin", "the image is passed from component %s to %s" % (j, i), loc)
            else:
                nx = T("item", T("attr", X, "next"), const(0))
                if K is T("item", nx, const(0)):
                    ctx.ok("pieces", con + "/origin")
                elif X is T("item", T("item", T("attr", K, "next"), const(0)), const(0)):
                    ctx.bad("pieces", con + "/origin", "the divided segment inherits the image of its new piece", loc)

        def sides(X, Y, con, loc, cs):
            """X: common region beside a piece, Y: region beside the merged-in segment."""
            if not (X.op == "attr" and X.args[1] == "polygon" and X.args[0].op == "item" and X.args[0].args[0].op == "attr" and
                    X.args[0].args[0].args[1] == "wire"):
                return
            S, i = X.args[0].args[0].args[0], X.args[0].args[1]
            j = None
            if Y.op == "item" and Y.args[0].op in ("call", "pcall") and str(Y.args[0].args[0]) == SEG + ".polygons":
                j = Y.args[1]
            elif Y.op == "attr" and Y.args[1] == "polygon" and Y.args[0].op == "item":
                j = Y.args[0].args[1]
            if j is None or not is_const(i) or not is_const(j):
                return
            flag = None
            for t, val, e in cs:
                x = equal_cond(t)
                if not x:
                    continue
                for a in x[:2]:
                    if a.op == "item" and a.args[0] is T("attr", S, "vtxs") and is_const(a.args[1]):
                        b = x[1] if a is x[0] else x[0]
                        same = val == x[2]
                        if cval(a.args[1]) == 1:
                            same = not same
                        flag = same
            if flag is None:
                ctx.check(not (S.op in ("call", "pcall") and str(S.args[0]).endswith("_add_segment")), "sides", con + "/undirected",
                          "regions are mapped without asking for the direction of the piece", loc)
                return
            ctx.check((cval(i) == cval(j)) == flag, "sides", con, "the region on side %s of a piece directed %s is mapped to the region "
                      "on side %s" % (cval(i), "along" if flag else "against", cval(j)), loc)

        def presence(events, here, cs, path):
            """Every yielded piece / divided object / added point on a body gets its images."""
            for i, h in enumerate(here):
                if h[0] != "yield":
                    continue
                y = seq_items(h[1].args[0]) if h[1].args else None
                if not y:
                    continue
                S = canon(y[0])
                after = []
                for g in here[h[2] + 1:]:
                    if g[0] == "yield":
                        break
                    after.append(g)
                w = where(h[1])
                ok = any(maps[g[0]] == ("other", 1) and ident(g[1]) is S for g in after)
                ctx.check(ok, "complete", c + "/piece", "a piece of a merged-in segment gets no image", w)
                n = {cval(ident(g[1]).args[0].args[1]) for g in after if maps[g[0]] == ("other", 2) and ident(g[1]) is not None and
                     ident(g[1]).op == "attr" and ident(g[1]).args[0].op == "item" and is_const(ident(g[1]).args[0].args[1])}
                ctx.check(n == {0, 1}, "complete", c + "/beside piece", "the regions beside a piece get no image on side %s" % sorted({0, 1} - n), w)
                k = {"none", "shape", "add", "remove", "split", "join"}
                for t, val, e in cs:
                    x = equal_cond(t)
                    if x:
                        for q in x[:2]:
                            if q.op == "enumval":
                                k = k & {kind_of(q)} if val == x[2] else k - {kind_of(q)}
                    elif t.op == "op" and t.args[0] in ("in", "not in") and any(q.op == "enumval" for q in subtoks(t.args[2])):
                        ks = {kind_of(q) for q in subtoks(t.args[2]) if q.op == "enumval"}
                        k = k & ks if val == (t.args[0] == "in") else k - ks
                if k & {"add", "split"}:
                    for who in ("self", "other"):
                        ok = any(maps[g[0]] == (who, 2) and ident(g[1]) is not None and ident(g[1]).op == "item" for g in after)
                        ctx.check(ok, "complete", c + "/new region/" + who, "a region created by the merge does not inherit the image", w)
            if path:
                e, fl = path[-1]
                r = canon(e.recv) if e.recv is not None else None
                if r is not None and r.op == "values" and base(r) is m.other and len(path) == 1 and fl in ("next", "continue"):
                    if ctx.last.classes_of(T("val", r.args[0]), None) or True:
                        add = [x for x in events if x.kind == "call" and str(x.name).endswith(".add_point")]
                        if add:
                            ok = any(g[0] != "yield" and maps[g[0]] == ("other", 0) for g in here)
                            ctx.check(ok, "complete", c + "/point", "an added point gets no image", where(e))
                if r is not None and r.op in ("items", "values") and r.args[0].op in ("call", "pcall") and "intersections" in str(r.args[0].args[0]) \
                        and len(path) == 2 and not any(x.kind == "yield" for x in events):
                    ok = any(g[0] != "yield" and maps[g[0]] == ("self", 1) for g in here)
                    ctx.check(ok, "complete", c + "/divided", "the second part of a divided segment gets no image", where(e))
        visit(o.events(), [], [])
        if wires:
            kinds = {k for S, w in wires for k in along(S)}
            ctx.saw("spread", "%s: along %s" % (c, ", ".join(sorted(kinds))))
            for k, text in (("outer", "outer loop"), ("inner", "inner loops")):
                ctx.check(k in kinds or "other" in kinds, "complete", c + "/spread " + k,
                          "images are not passed on to the regions across the %s of a region" % text, wires[0][1])
    ctx.check(done > 0, "direction", c + "/returns", "no path returns", f.loc(f.node))


def all_inputs(ctx, f):
    c = fname(f)
    IS = MG + "intersect_single"
    ok_any = 0
    for o in ctx.run(f, policy=lambda g: "opaque" if not g.qual.startswith(MG) or g.name == "intersect_single" else None, keep_conds=True):
        if o.flow != "return":
            continue
        it = seq_items(canon(o.val)) if o.val is not None else None
        calls = [e for e, l in flat(o.events()) if e.kind == "call" and e.name == IS]
        if not calls and it is not None:
            # single input: identity maps
            mm = seq_items(canon(it[1]))
            ms = seq_items(canon(mm[0])) if mm else None
            if ms and len(ms) == 3:
                for d, x in enumerate(ms):
                    x = canon(x)
                    if x.op != "comp":
                        continue
                    kv = seq_items(x.args[1]) if x.args[1].op in ("tuple", "list") else [y for y in x.args[1].args if isinstance(y, Tok)]
                    if len(kv) == 2:
                        ctx.check(canon(kv[0]) is canon(kv[1]), "compose", c + "/identity", "the map of a single input is not the identity", f.loc(f.node))
                        w = ident(canon(kv[0]))
                        n = show(w) if w is not None else ""
                        want = ["points", "segments", "polygons"][d]
                        ctx.check(w is None or want in n, "dimension", c + "/identity/" + NAMES[d], "ids %s are in the map of %s" % (n, NAMES[d]), f.loc(f.node))
            continue
        for e in o.events():
            if e.kind != "loop":
                continue
            for b, fl in bodies(e):
                if fl == "raise":
                    continue
                call = [x for x in b if x.kind == "call" and x.name == IS]
                if not call:
                    continue
                ok_any += 1
                res = canon(call[0].res)
                comp_at = app_at = None
                for i, x in enumerate(b):
                    for y, l in flat([x]):
                        if y.kind == "setitem":
                            k, v, M = canon(y.args[0]), canon(y.args[1]), canon(y.recv)
                            src = [z for z in subtoks(k) if z.op == "item" and z.args[0] is res]
                            if not src:
                                continue
                            comp_at = i
                            con = c + "/carried over"
                            ctx.check(cval(src[0].args[1]) == 1, "compose", con + "/by", "maps of earlier inputs are composed with component %s "
                                      "of the merge" % cval(src[0].args[1]), where(y))
                            ok = k.op == "key" and v.op == "item" and v.args[0] is M and v.args[1].op == "val" and v.args[1].args[0] is k.args[0]
                            if k.op == "key" or k.op == "val":
                                ctx.check(ok, "compose", con + "/value", "the carried-over image is %s" % show(v), where(y))
                            # same dimension
                            a = [z for z in subtoks(M) if z.op == "item" and is_const(z.args[1]) and isinstance(cval(z.args[1]), int)]
                            bb = [z for z in subtoks(k) if z.op == "item" and is_const(z.args[1]) and z.args[0] is src[0]]
                            if M.op == "item" and bb:
                                ctx.check(cval(M.args[1]) == cval(bb[0].args[1]), "dimension", con, "maps of different dimension are composed", where(y))
                        if y.kind == "mut" and y.name == "append" and y.args:
                            a = canon(y.args[0])
                            src = [z for z in subtoks(a) if z.op == "item" and z.args[0] is res and is_const(z.args[1])]
                            if src:
                                app_at = i
                                ctx.check(cval(src[0].args[1]) == 2, "compose", c + "/own maps", "component %s of the merge is kept as the maps of the "
                                          "merged-in input" % cval(src[0].args[1]), where(y))
                                for z in subtoks(a):
                                    if z.op == "comp" and z.args[4] is not None:
                                        cc = canon(z.args[4])
                                        ctx.check(NONE in list(subtoks(cc)), "compose", c + "/own maps filter", "images are dropped by %s" % show(cc), where(y))
                ctx.check(comp_at is not None, "compose", c + "/carried over", "maps of earlier inputs are not carried over to new pieces", where(e))
                ctx.check(app_at is not None, "compose", c + "/own maps", "the maps of a merged-in input are not kept", where(e))
                if comp_at is not None and app_at is not None:
                    ctx.check(comp_at < app_at, "compose", c + "/order", "the maps of an input are composed with the pieces of the same merge", where(e))
                # bodies that skip
                for y, l in flat(b):
                    pass
                a = [canon(call[0].kw[p]) for p in ctx.prog.func(IS).pos_params()[:2]]
                ctx.check(a[1].op == "elem", "compose", c + "/input", "the merged-in decomposition is %s" % show(a[1]), where(call[0]))
        skipping(ctx, o, c)
    ctx.check(ok_any > 0, "compose", c + "/merges", "inputs are not merged", f.loc(f.node))


def skipping(ctx, o, c):
    """The innermost composing loop skips an entry only when the divided object has no image."""
    for e, l in flat(o.events()):
        if e.kind != "loop" or e.name == "comp" or e.recv is None:
            continue
        r = canon(e.recv)
        if r.op != "items":
            continue
        setting = [b for b, fl in bodies(e) if any(x.kind == "setitem" for x in b)]
        if not setting:
            continue
        for b, fl in bodies(e):
            if fl == "raise" or any(x.kind == "setitem" for x in b):
                continue
            why = None
            for x in b:
                if x.kind == "cond":
                    t, val = canon(x.recv), str(x.name) == "True"
                    if t.op == "op" and t.args[0] in ("in", "not in") and t.args[1].op == "val" and t.args[1].args[0] is r.args[0]:
                        why = val == (t.args[0] == "not in")
                    elif t.op == "op" and t.args[0] in ("is", "is not", "==", "!=") and NONE in t.args[1:]:
                        why = True if why is None else why
                    elif t.op == "op" and t.args[0] in ("in", "not in") and why is None:
                        why = False
            ctx.check(why is not False, "compose", c + "/skipped", "a piece is not given the image of the divided object", where(e))


def helpers(ctx):
    f = ctx.prog.func(SEG + ".polygons")
    me = T("param", "self")
    for o in ctx.run(f):
        it = seq_items(canon(o.val)) if o.flow == "return" and o.val is not None else None
        if it and len(it) == 2:
            for i in (0, 1):
                x = canon(it[i])
                if x.op == "attr" and x.args[0].op == "item" and is_const(x.args[0].args[1]):
                    ctx.check(cval(x.args[0].args[1]) == i, "sides", fname(f), "region %d comes from side %s" % (i, cval(x.args[0].args[1])), f.loc(f.node))
    f = ctx.prog.func(PD + "._add_line_seg_intersections")
    for o in ctx.run(f, policy=lambda g: "opaque" if g is not f else None):
        for e, l in flat(o.events()):
            if e.kind == "setitem":
                it = seq_items(e.args[1])
                if it is None or len(it) != 3:
                    continue
                a, b = canon(it[1]), canon(it[2])
                pos = [x for x in subtoks(b) if x.op in ("call", "pcall") and str(x.args[0]).endswith("_point_on_segment")]
                ctx.check(bool(pos) and not any(x.op in ("call", "pcall") and str(x.args[0]).endswith("_point_on_segment") for x in subtoks(a)),
                          "pieces", fname(f), "the divided segment and its new part are exchanged", where(e))
                ctx.saw("map stores", fname(f))
    f = ctx.prog.func(PD + "._add_line_new_segments")
    n = 0
    for o in ctx.run(f, policy=lambda g: "opaque" if g is not f else None):
        for e, l in flat(o.events()):
            if e.kind == "yield" and e.args:
                it = seq_items(e.args[0])
                if it is None or len(it) != 3:
                    continue
                n += 1
                S, ch, flag = canon(it[0]), canon(it[1]), canon(it[2])
                ctx.check(ch.op != "attr" or ch.args[1] == FIELD, "pieces", fname(f) + "/change", "the change yielded is %s" % show(ch), where(e))
                x = equal_cond(flag) if flag.op == "op" else None
                if x and S.op in ("call", "pcall"):
                    a = [y for y in S.args[1:] if isinstance(y, Tok)]
                    for p, q in ((x[0], x[1]), (x[1], x[0])):
                        if p.op == "item" and p.args[0] is T("attr", S, "vtxs") and is_const(p.args[1]) and len(a) >= 3:
                            start = q is a[1]
                            end = q is a[2]
                            if start or end:
                                along = (cval(p.args[1]) == 0) == start
                                ctx.check(along == x[2], "sides", fname(f) + "/direction", "the direction flag of a piece is inverted", where(e))
    ctx.check(n > 0, "pieces", fname(f) + "/yields", "no piece is yielded", f.loc(f.node))


def run(ctx):
    ctx.rule("direction", "keys are ids of the common decomposition, values ids of the input of that map")
    ctx.rule("dimension", "points, segments and regions are not mixed in one map")
    ctx.rule("pieces", "a piece inherits the image of the object it was divided from")
    ctx.rule("sides", "regions beside a piece are mapped to the regions on the same side of the merged-in segment")
    ctx.rule("complete", "every added point, piece, divided part and created region gets its image")
    ctx.rule("compose", "maps of earlier inputs are carried over to pieces created by later inputs")
    impl = [f for f in ctx.prog.funcs.values() if f.qual.startswith(MG) and f.cls is None and f.parent is None]
    fs = ctx.prog.func(MG + "intersect_single")
    single(ctx, fs)
    all_inputs(ctx, ctx.prog.func(MG + "intersect_decompositions"))
    helpers(ctx)
    ctx.expect("map stores", 6)
