"""P34: links of half-segments are spliced in pairs, relabelling is complete, representative segments stay in the loop."""
import ast
from ..loader import AnalysisError
from ..rl import in_assert, canon, flat, bodies, fname, callers_of, where, cont_ops, root
from ..tok import T, show, subtoks, is_const, cval, NONE, Tok, const
from ..dc import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive dataflow over every function that stores successor links, loop labels or representative "
               "segments: on each path the stored links have to form complete splices (insertion from one position, free "
               "end, bypass of a removed end), relabelling loops have to cover the replaced loop unconditionally, and a "
               "representative segment is moved off a segment before its links are cut.")
PREV, VII, INS = SEG + ".previous", SEG + ".vtx_insert_info", PT + ".insert_vector"
CONN, CONF, DISC, DISW = SEG + ".connect_vtx", SEG + ".connect_free_vtx", SEG + ".disconnect_vtx", SEG + ".disconnect_wires"
WSEG = WIRE + ".segments"
MADE = (POLY + "polygons.PolygonDecomposition.make_wire_from_segments", POLY + "polygons.PolygonDecomposition.make_segment")


def at(t, i):
    """i-th component of a tuple-like token."""
    it = seq_items(t)
    if it is not None:
        return canon(it[i]) if len(it) > i else None
    return T("item", canon(t), const(i))


def other(v):
    """Token of the opposite side / end."""
    v = canon(v)
    if is_const(v):
        return const(1 - cval(v))
    if v.op == "op" and v.args[0] == "-" and len(v.args) == 3 and is_const(v.args[1]) and cval(v.args[1]) == 1:
        return v.args[2]
    return T("op", "-", const(1), v)


def is_pair(t, seg, side):
    a, b = at(t, 0), at(t, 1)
    return a is seg and same_side(b, side)


def same_side(a, b):
    return a is b or other(other(a)) is other(other(b))


def next_writes(events):
    """(segment, side, value, event, index) of stores into successor links."""
    out = []
    for i, (e, l) in enumerate(flat(events)):
        if e.kind == "setitem":
            r = canon(e.recv)
            if r.op == "attr" and r.args[1] == "next":
                out.append([r.args[0], canon(e.args[0]), e.args[1], e, i])
        elif e.kind == "write" and e.name == "next" and e.recv.op != "new":
            it = seq_items(e.args[0])
            for k in (0, 1):
                out.append([canon(e.recv), const(k), it[k] if it and len(it) == 2 else T("unknown", k), e, i])
    return out


def is_prev(t, seg, side):
    """Result of <seg>.previous(<side>)."""
    if t.op in ("call", "pcall") and str(t.args[0]) == PREV:
        a = [canon(x) for x in t.args[1:] if isinstance(x, Tok)]
        return len(a) >= 2 and a[0] is seg and same_side(a[1], side)
    return False


def splices(ctx, f, force):
    res = []
    c = fname(f)
    pol = field_policy(ctx, ["next"], opaque=[PT + ".join_segment", PT + ".rm_segment", PREV, VII, "Wire.set_parent"], force=force)

    def policy(g):
        if g.qual in (CONN, CONF, DISC) and g is not f and g.qual not in force:
            return "opaque"
        return pol(g)
    for o in ctx.run(f, policy=policy, keep_conds=True):
        if o.flow != "return":
            continue
        evs = o.events()
        W = next_writes(evs)
        wires = []
        for i, (e, l) in enumerate(flat(evs)):
            if e.kind == "setitem":
                r = canon(e.recv)
                if r.op == "attr" and r.args[1] == "wire":
                    wires.append((r.args[0], canon(e.args[0]), canon(e.args[1]), i))
        used = set()

        def label(s, v, val):
            return any(a is s and same_side(b, v) and (val is None or x is val) for a, b, x, i in wires)
        for k, (s, v, val, e, i) in enumerate(W):
            if k in used:
                continue
            what = None
            kind = "link"
            a, b = at(val, 0), at(val, 1)
            if is_pair(val, s, other(v)):
                # free end: either the second half of a bypass or a new end (labelled)
                bypass = [w for w in W if w is not W[k] and canon(w[2]) is T("item", T("attr", s, "next"), v)]
                if bypass:
                    kind = "bypass"
                    w = bypass[0]
                    ps, pd = w[0], w[1]
                    ok = ps.op == "item" and pd.op == "item" and ps.args[0] is pd.args[0] and \
                        is_const(ps.args[1]) and cval(ps.args[1]) == 0 and cval(pd.args[1]) == 1 and \
                        is_prev(ps.args[0], s, other(v))
                    if not ok:
                        what = "the former successor is linked after %s instead of the predecessor of the other half" % show(ps)
                    used.add(W.index(w))
                else:
                    kind = "free end"
                    if not label(s, v, None):
                        what = "a freed end has no loop set"
            else:
                cv = canon(val)
                partner = [w for w in W if w is not W[k] and is_pair(w[2], s, other(v))]
                if cv.op == "item" and cv.args[0].op == "attr" and cv.args[0].args[1] == "next":
                    # first half of a bypass: handled with its second half
                    ss, vv = cv.args[0].args[0], cv.args[1]
                    if any(w[0] is ss and same_side(w[1], vv) and is_pair(w[2], ss, other(vv)) for w in W):
                        continue
                    what, kind = "an end is bypassed without being freed", "bypass"
                elif is_pair_of_other(val, W, k):
                    continue
                elif partner:
                    kind = "insertion"
                    w = partner[0]
                    used.add(W.index(w))
                    if cv.op == "item" and is_const(cv.args[1]) and cval(cv.args[1]) == 1:
                        ins = cv.args[0]
                        prev = T("item", ins, const(0))
                        if not (w[0] is T("item", prev, const(0)) and w[1] is T("item", prev, const(1))):
                            what = "predecessor and successor come from different positions"
                        elif not label(s, v, T("item", ins, const(2))):
                            what = "the inserted half is not labelled with the loop of the position"
                    else:
                        what = "the successor of the inserted half is %s" % show(cv)
                else:
                    what = "a successor link is set without its counterpart (%s)" % show(cv)
            res.append(("splice", c + "/" + kind, what, where(e)))
    return res


def is_pair_of_other(val, W, k):
    """Counterpart of an insertion: value (S, 1-v) for another store S.next[v] that is no free end."""
    a, b = at(val, 0), at(val, 1)
    for j, w in enumerate(W):
        if j != k and w[0] is a and same_side(other(w[1]), b) and not is_pair(w[2], w[0], other(w[1])):
            return True
    return False


# ---------------------------------------------------------------- positions given to connect
def positions(ctx):
    """The position given to connect belongs to the connected end."""
    sites = sorted({f.qual for q in (CONN, CONF, DEC + "._make_segment") for f, n in callers_of(ctx, q)} - set(MADE))
    up = set()
    for q in sites:
        f = ctx.prog.func(q)
        todo = [(f, ())]
        seen = set()
        while todo:
            g, chain = todo.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            lift = site_check(ctx, g, chain)
            if lift and g.name.startswith("_"):
                for h, n in callers_of(ctx, g.qual):
                    if h.qual not in chain and h is not g:
                        todo.append((h, chain + (g.qual,)))


def source(t):
    """('insert', point, vector) / ('info', segment, end) of an insertion position."""
    t = canon(t)
    if t.op in ("call", "pcall"):
        a = [canon(x) for x in t.args[1:] if isinstance(x, Tok)]
        if str(t.args[0]) == INS:
            return ("insert",) + tuple(a[:2])
        if str(t.args[0]) == VII:
            return ("info",) + tuple(a[:2])
    return None


def site_check(ctx, f, chain):
    lift = False
    opq = [CONN, CONF, DISC, DISW, PREV, VII, INS, PT + ".join_segment", PT + ".rm_segment", "Wire.set_parent", IDA, IDR,
           "_destroy_segment", "contains_wire", "contains_point"]
    W, R = ctx.effects

    def pol(g):
        if g is f:
            return None
        if g.qual in chain:
            return "inline"
        if any(g.qual == s or g.qual.endswith("." + s) for s in opq):
            return "opaque"
        if g.qual == DEC + "._make_segment":
            return "inline"
        if g.qual.startswith(DEC + "._") and g.qual not in chain:
            return "opaque" if chain else None
        return None
    for o in ctx.run(f, policy=pol):
        if o.flow != "return":
            continue
        cur = {}
        joined = {}
        moved = {}

        def end(s, v):
            if s in cur and is_const(v):
                return cur[s][cval(v)]
            return T("item", T("attr", s, "vtxs"), v)
        disc = set()
        done = {}
        for e, l in flat(o.events()):
            if e.kind == "new" and e.name == SEG:
                cur[canon(e.res)] = pair_of_new(e)
                joined[canon(e.res)] = (set(), e)
            elif e.kind == "setitem" and canon(e.recv).op == "attr" and canon(e.recv).args[1] == "vtxs" and is_const(e.args[0]):
                s = canon(canon(e.recv).args[0])
                cur.setdefault(s, [vtx(s, 0), vtx(s, 1)])
                cur[s] = list(cur[s])
                cur[s][cval(e.args[0])] = canon(e.args[1])
                moved.setdefault(s, set()).add(cval(e.args[0]) % 2)
            elif e.kind == "call" and e.name == DISC:
                ps = ctx.prog.func(DISC).pos_params()
                disc.add((canon(e.kw[ps[0]]), canon(e.kw[ps[1]])))
            elif e.kind == "call" and e.name == VII:
                ps = ctx.prog.func(VII).pos_params()
                ctx.check((canon(e.kw[ps[0]]), canon(e.kw[ps[1]])) not in disc, "position", fname(f) + "/read after cut",
                          "the position of an end is read after the end was cut", where(e))
            elif e.kind == "call" and e.name in (CONN, CONF):
                ps = ctx.prog.func(e.name).pos_params()
                s, v, ins = (e.kw.get(x) for x in ps[:3])
                s, v = canon(s), canon(v)
                if s in joined:
                    joined[s][0].add(other(other(v)))
                cc = "%s/%s" % (fname(f), e.name.split(".")[-1])
                ctx.saw("connect sites", cc)
                if s in moved and is_const(v):
                    ctx.check(cval(v) % 2 in moved[s], "position", cc + "/exchanged end", "end %s of %s got another point, but end %s is linked" %
                              (sorted(moved[s]), show(s), show(v)), where(e))
                if e.name == CONF:
                    ctx.ok("position", cc)
                    continue
                p = end(s, v)
                it = seq_items(ins)
                if it is not None and len(it) == 3:
                    pr, nx = at(ins, 0), at(ins, 1)
                    pi, ni = it[0], it[1]
                    ci, cn = canon(pi), canon(ni)
                    if ci.op == "item" and cn.op == "item" and ci.args[0] is cn.args[0]:
                        okk = cval(ci.args[1]) == 0 and cval(cn.args[1]) == 1
                        ctx.check(okk, "position", cc, "predecessor and successor of the position are exchanged", where(e))
                        base = ci.args[0]
                    else:
                        # tip of a segment: both halves at its free end
                        a, b = at(pi, 0), at(ni, 0)
                        x, y = at(pi, 1), at(ni, 1)
                        okk = a is b and is_const(x) and is_const(y) and cval(x) == 1 - cval(y) and end(a, x) is p
                        ctx.check(okk, "position", cc, "the end is inserted between %s and %s" % (show(ci), show(cn)), where(e))
                        lw = canon(it[2])
                        ctx.check(lw.op == "item" and lw.args[0] is T("attr", a, "wire"), "position", cc + "/loop",
                                  "the loop at the tip is taken as %s" % show(lw), where(e))
                        continue
                else:
                    base = canon(ins)
                    if base.op == "item" and base.args[0].op == "unknown":
                        continue
                src = source(base)
                if src is None:
                    if base.op == "param":
                        lift = True
                    continue
                if src[0] == "insert":
                    okk = src[1] is p or (p.op == "item" and src[1] in [canon(x) for x in subtoks(p)])
                    ctx.check(okk, "position", cc, "%s is connected at a position around %s" % (show(p), show(src[1])), where(e))
                    q = end(s, other(v))
                    okv = outward(src[2], p, q)
                    if okv is not None:
                        ctx.check(okv, "position", cc + "/direction", "the position around %s is searched in direction %s" %
                                  (show(p), show(src[2])), where(e))
                else:
                    s2, v2 = src[1], src[2]
                    okk = p in (T("item", T("attr", s2, "vtxs"), v2), end(s2, v2))
                    ctx.check(okk, "position", cc, "%s is connected at the position of end %s of %s" % (show(p), show(v2), show(s2)), where(e))
        for s, (ends, e) in joined.items():
            if not ends and f.name.startswith("_"):
                lift = True
                continue
            okk = len(ends) == 2 and any(other(a) in ends for a in ends)
            ctx.check(okk, "position", fname(f) + "/both ends", "a new segment is linked at %d of its ends" % len(ends), where(e))
    return lift


def outward(vec, p, q):
    """Is the vector q.xy - p.xy?  None when not recognised."""
    sg = 1
    while True:
        if vec.op == "op" and vec.args[0] in ("neg", "-") and len(vec.args) == 2:
            sg, vec = -sg, vec.args[1]
        elif vec.op == "un" or (vec.op == "op" and vec.args[0] == "u-"):
            sg, vec = -sg, vec.args[-1]
        elif vec.op == "op" and vec.args[0] == "*" and any(is_const(x) for x in vec.args[1:]):
            k = [x for x in vec.args[1:] if is_const(x)][0]
            if cval(k) < 0:
                sg = -sg
            vec = [x for x in vec.args[1:] if x is not k][0]
        else:
            break
    if vec.op == "op" and vec.args[0] == "-" and len(vec.args) == 3:
        a, b = vec.args[1], vec.args[2]
        px, qx = T("attr", p, "xy"), T("attr", q, "xy")
        if (a, b) == (qx, px):
            return sg > 0
        if (a, b) == (px, qx):
            return sg < 0
    return None


# ---------------------------------------------------------------- insert info
def insert_info(ctx):
    f = ctx.prog.func(VII)
    me, v = T("param", "self"), T("param", f.pos_params()[1])
    nx = T("item", T("attr", me, "next"), v)
    nfull = 0
    for o in ctx.run(f, opaque=[PREV], keep_conds=True):
        if o.flow != "return":
            continue
        cs = [(canon(e.recv), str(e.name) == "True") for e in o.events() if e.kind == "cond"]
        tip = [val == (t.args[0] in ("==", "is")) for t, val in cs if t.op == "op" and t.args[0] in ("==", "is", "!=", "is not") and me in t.args[1:]
               and any(nx in list(subtoks(x)) for x in t.args[1:])]
        if o.val is None or o.val is NONE:
            ctx.check(bool(tip) and tip[-1], "info", fname(f) + "/free", "a connected end is reported as free", f.loc(f.node))
            continue
        nfull += 1
        if tip:
            ctx.check(not tip[-1], "info", fname(f) + "/tip", "a free end is reported as connected", f.loc(f.node))
        p, n, w = at(o.val, 0), at(o.val, 1), at(o.val, 2)
        ctx.check(is_prev(p, me, other(v)), "info", fname(f) + "/prev", "the predecessor at the end is %s" % show(p), f.loc(f.node))
        ctx.check(n is nx, "info", fname(f) + "/next", "the successor at the end is %s" % show(n), f.loc(f.node))
        okw = w.op == "item" and w.args[0] is T("attr", me, "wire") and same_side(w.args[1], v)
        ctx.check(okw, "info", fname(f) + "/loop", "the loop at the end is %s" % show(w), f.loc(f.node))
    ctx.check(nfull > 0, "info", fname(f) + "/any", "no end is reported as connected", f.loc(f.node))


# ---------------------------------------------------------------- relabelling and representatives
def wire_loop(e):
    """(loop token, start, end) when the event iterates W.segments(...)."""
    it = e.recv
    while it is not None and it.op == "copyof":
        it = it.args[1]
    if it is None:
        return None
    if it.op == "gen" or (it.op in ("call", "pcall") and str(it.args[0]) == WSEG):
        for x in subtoks(it):
            pass
    kws = {}
    if it.op == "gen":
        for x in it.args:
            if isinstance(x, Tok) and x.op == "kwp":
                kws.setdefault("p", []).append(x.args[0] if len(x.args) == 1 else x.args[1])
        ps = kws.get("p", [])
        if len(ps) >= 3 and str(it.args[0]) in (WSEG,) or len(ps) == 3:
            return canon(ps[0]), canon(ps[1]), canon(ps[2])
    return None


def relabel(ctx):
    fs = direct_writers(ctx, ["wire"], idmaps=("wires", "segments"))
    for q in MADE:
        fs.pop(q, None)

    def examine(f):
        ctx.saw("functions relabelling loops or removing segments", f.qual)
        res = []
        c = fname(f)
        pol = field_policy(ctx, ["wire", "segment", "next"], opaque=[PT + ".join_segment", PT + ".rm_segment", PREV, VII, "Wire.set_parent", DISC, DISW,
                                                  CONF, CONN, DEC + "._make_segment"], inline=[DEC + "._destroy_segment"], force=examine.force)
        for o in ctx.run(f, policy=pol, keep_conds=True):
            if o.flow != "return":
                continue
            moved = {}      # replaced loop -> (new loop, start, end, event, index)
            gone_w, gone_s, disw, disc, rep, lone = {}, {}, {}, {}, {}, set()
            dend = set()
            for i, e in enumerate(o.events()):
                wl = wire_loop(e) if e.kind == "loop" and e.name != "comp" else None
                if wl is not None:
                    sets = []
                    for b, fl in bodies(e):
                        if fl == "raise":
                            continue
                        ss = [x for x in b if x.kind == "setitem" and canon(x.recv).op == "attr" and canon(x.recv).args[1] == "wire"]
                        sets.append(ss)
                    if any(sets):
                        tgt = {canon(x.args[1]) for ss in sets for x in ss}
                        K = next(iter(tgt))
                        what = None
                        if len(tgt) != 1 or not all(sets):
                            what = "only some half-segments of the replaced loop are relabelled"
                        elif K is wl[0] or wl[0] is T("attr", T("attr", K, "polygon"), "outer_wire"):
                            what = "a loop is relabelled to itself"
                        else:
                            for ss in sets:
                                for x in ss:
                                    s, d = canon(canon(x.recv).args[0]), canon(x.args[0])
                                    if not (s.op == "item" and d.op == "item" and s.args[0] is d.args[0] and s.args[0].op == "elem"
                                            and cval(s.args[1]) == 0 and cval(d.args[1]) == 1):
                                        what = "the relabelled half is %s, %s" % (show(s), show(d))
                        res.append(("relabel", c + "/complete", what, where(e)))
                        moved[wl[0]] = (K, wl[1], wl[2], e, i)
                for x, l in flat([e]):
                    r = idmap_ops(x)
                    if r and r[0] == "unreg":
                        if r[1] == "wires":
                            gone_w[canon(r[2])] = (x, i)
                        if r[1] == "segments":
                            gone_s[canon(r[2])] = (x, i)
                    if x.kind == "call" and x.name == DISW:
                        disw[canon(x.kw["self"])] = (x, i)
                    if x.kind == "call" and x.name == DISC:
                        disc.setdefault(canon(x.kw["self"]), (x, i))
                    if x.kind == "write" and x.name == "segment" and WIRE in {z.qual for z in ctx.last.classes_of(x.recv, None)}:
                        rep.setdefault(canon(x.recv), []).append((x.args[0], x, i))
                    if x.kind == "cond":
                        t, val = canon(x.recv), str(x.name) == "True"
                        if t.op in ("call", "pcall") and "is_dendrite" in str(t.args[0]) and val:
                            dend |= {a for a in t.args if isinstance(a, Tok)}
            for W, (x, i) in gone_w.items():
                ok = W in moved
                why = "half-segments of a removed loop keep its label"
                if not ok:
                    # the loop of a lone segment that is removed with it
                    ok = any(W.op == "item" and W.args[0] is T("attr", s, "wire") for s in gone_s)
                elif moved[W][0] in gone_w:
                    ok, why = False, "half-segments are labelled with a removed loop"
                res.append(("relabel", c + "/removed loop", None if ok else why, where(x)))
            for W, (K, st, en, e, i) in moved.items():
                whole = is_default(st)
                for s in gone_s:
                    cut = s in disc and disc[s][1] < i
                    res.append(("relabel", c + "/order", "the loop is relabelled after its links were cut" if cut else None, where(e)))
                if W in gone_w:
                    res.append(("relabel", c + "/range", range_ok(st, en, whole, None), where(e)))
                    continue
                # part of the loop is moved
                S = base_seg(en)
                res.append(("relabel", c + "/range", range_ok(st, en, whole, S in dend if S is not None else None), where(e)))
                what = None
                if W not in rep or K not in rep:
                    what = "representative segments of the two parts are not set"
                else:
                    a, b = rep[W][-1][0], rep[K][-1][0]
                    if canon(a) is canon(b) or (at(a, 0) is at(b, 0) and at(a, 1) is at(b, 1)):
                        what = "both parts get the same representative segment"
                    elif S is not None:
                        what = rep_side(W, K, a, b, st, en, S)
                res.append(("represent", c + "/parts", what, where(e)))
            freed = set()
            for x, l in flat(o.events()):
                if x.kind == "cond":
                    t, val = canon(x.recv), str(x.name) == "True"
                    if t.op == "op" and t.args[0] in ("==", "!=") and len(t.args) == 3 and val == (t.args[0] == "=="):
                        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                            if a.op == "item" and a.args[0].op == "attr" and a.args[0].args[1] == "next":
                                s, v = a.args[0].args[0], a.args[1]
                                if is_pair(b, s, other(v)):
                                    freed.add((s, other(other(v))))
                elif x.kind == "call" and x.name == DISC:
                    freed.add((canon(x.kw["self"]), other(other(canon(x.kw[ctx.prog.func(DISC).pos_params()[1]])))))
                elif x.kind == "setitem" and canon(x.recv).op == "attr" and canon(x.recv).args[1] == "next":
                    s, v = canon(x.recv).args[0], canon(x.args[0])
                    if is_pair(x.args[1], s, other(v)):
                        freed.add((s, other(other(v))))
            for s, (x, i) in gone_s.items():
                both = (s, const(0)) in freed and (s, const(1)) in freed or \
                    any(a is s and (s, other(v)) in freed for a, v in freed)
                res.append(("splice", c + "/cut out", None if both else "a removed segment stays linked at one end", where(x)))
            for s, (x, i) in gone_s.items():
                ok = s in disw
                why = "a loop may keep referring to a removed segment"
                if ok and s in disc and disc[s][1] < disw[s][1]:
                    ok, why = False, "representative segments are moved after the links were cut"
                if not ok and s not in disw:
                    # loops removed with the segment, or representatives moved by hand
                    if any(W.op == "item" and W.args[0] is T("attr", s, "wire") for W in gone_w):
                        ok = True
                    else:
                        by_hand = handed(o, s)
                        ok = by_hand is None
                        why = by_hand or why
                res.append(("represent", c + "/removed segment", None if ok else why, where(x)))
        return res
    examine.force = set()
    seen = set()
    for q in sorted(fs):
        settle(ctx, fs[q], examine, seen)


def handed(o, s):
    """Representatives of the loops on both sides of s are moved when they are on s."""
    sides = {}
    bad = None
    conds = []
    for e, l in flat(o.events()):
        if e.kind == "cond":
            conds.append((canon(e.recv), str(e.name) == "True"))
        if e.kind == "write" and e.name == "segment":
            r = canon(e.recv)
            if r.op == "item" and r.args[0] is T("attr", s, "wire"):
                new = at(e.args[0], 0)
                if new is s:
                    bad = "the representative stays on the removed segment"
                sides[r.args[1]] = (e.args[0], e)
    for k in (0, 1):
        w = T("item", T("attr", s, "wire"), const(k))
        tested = None
        for t, val in conds:
            if t.op == "op" and t.args[0] in ("==", "!=") and T("attr", w, "segment") in t.args[1:]:
                x = t.args[1] if t.args[2] is T("attr", w, "segment") else t.args[2]
                if is_pair(x, s, const(k)):
                    tested = val == (t.args[0] == "==")
        if tested is None and const(k) not in sides:
            return bad or "a loop may keep referring to a removed segment"
        if tested and const(k) not in sides:
            return "a loop keeps referring to a removed segment"
    return bad


def is_default(t):
    it = seq_items(t)
    if is_const(t):
        return cval(t) == (None, None) or cval(t) is None
    return it is not None and it and it[0] is NONE


def base_seg(t):
    a = at(t, 0)
    return a if a is not None and a.op != "item" else a


def range_ok(st, en, whole, dendrite):
    if whole:
        return None
    S, d = at(en, 0), at(en, 1)
    if st.op == "item" and st.args[0].op == "attr" and st.args[0].args[1] == "next":
        if st.args[0].args[0] is not S:
            return None
        a = st.args[1]
        if dendrite:
            return None if same_side(other(a), d) else "the relabelled part runs past the removed segment"
        return None if same_side(a, d) or dendrite is None else "the relabelled part does not end at the dividing segment"
    if at(st, 0) is S and not same_side(at(st, 1), other(d)):
        return "the relabelled part starts and ends at the same half"
    return None


def rep_side(W, K, a, b, st, en, S):
    """Representatives on the halves of the dividing segment or right next to it."""
    if st.op == "item" and st.args[0].op == "attr" and st.args[0].args[1] == "next" and st.args[0].args[0] is S:
        side = st.args[1]       # halves after (S, side) are moved to K
        if at(b, 0) is S and not same_side(at(b, 1), side):
            return "the new loop is represented by the half-segment of the other loop"
        if at(a, 0) is S and not same_side(at(a, 1), other(side)):
            return "the old loop is represented by a half-segment of the new loop"
        ca, cb = canon(a), canon(b)
        nx = T("attr", S, "next")
        if cb.op == "item" and cb.args[0] is nx and not same_side(cb.args[1], side):
            return "the new loop is represented by a half-segment of the old loop"
        if ca.op == "item" and ca.args[0] is nx and not same_side(ca.args[1], other(side)):
            return "the old loop is represented by a half-segment of the new loop"
    return None


def disconnect_wires(ctx):
    f = ctx.prog.func(DISW)
    me = T("param", "self")
    moved = {0: 0, 1: 0}
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        final = {}
        conds = []
        for e, l in flat(o.events()):
            if e.kind == "cond":
                conds.append((canon(e.recv), str(e.name) == "True", e))
            if e.kind == "write" and e.name == "segment":
                r = canon(e.recv)
                if r.op == "item" and r.args[0] is T("attr", me, "wire") and is_const(r.args[1]):
                    final.setdefault(cval(r.args[1]), []).append((canon(e.args[0]), e))
                else:
                    ctx.bad("represent", fname(f) + "/other", "the representative of %s is changed" % show(r), where(e))
        for k in (0, 1):
            nx = T("item", T("attr", me, "next"), const(k))
            w = T("item", T("attr", me, "wire"), const(k))
            on = None
            for t, val, e in conds:
                if t.op == "op" and t.args[0] in ("==", "!=") and T("attr", w, "segment") in t.args[1:]:
                    x = t.args[1] if t.args[2] is T("attr", w, "segment") else t.args[2]
                    if is_pair(x, me, const(k)) and on is None:
                        on = val == (t.args[0] == "==")
            if k in final:
                moved[k] += 1
                v = final[k][-1][0]
                ok = v.op == "item" and v.args[0] is T("attr", me, "next")
                loops_back = any(t.op == "op" and t.args[0] in ("==", "!=") and me in t.args[1:] and T("item", nx, const(0)) in t.args[1:]
                                 and val == (t.args[0] == "==") for t, val, e in conds)
                if ok and v is nx:
                    ok = not loops_back
                    tested = any(t.op == "op" and me in t.args[1:] and T("item", nx, const(0)) in t.args[1:] for t, val, e in conds
                                 if not in_assert(ctx, e.node))
                    ok = ok and tested
                ctx.check(ok, "represent", fname(f) + "/value", "the representative is moved to %s" % show(v), where(final[k][-1][1]))
            else:
                ctx.check(on is False, "represent", fname(f) + "/kept", "a representative on the removed segment is kept", f.loc(f.node))
    ctx.check(moved[0] and moved[1], "represent", fname(f) + "/sides", "representatives are moved on one side only", f.loc(f.node))


def run(ctx):
    ctx.rule("splice", "stores of successor links form complete splices: insertion from one position, labelled free end, bypass")
    ctx.rule("position", "an end is connected at a position around its own point, searched in its own direction")
    ctx.rule("info", "the position reported for an end is its predecessor, successor and loop")
    ctx.rule("relabel", "a replaced loop is relabelled completely, a removed loop labels nothing")
    ctx.rule("represent", "a loop refers to one of its own remaining half-segments")
    fs = direct_writers(ctx, ["next"])
    for q in MADE:
        fs.pop(q, None)

    def examine(f):
        ctx.saw("functions storing successor links", f.qual)
        return splices(ctx, f, examine.force)
    examine.force = set()
    seen = set()
    for q in sorted(fs):
        if not q.endswith(".__init__"):
            settle(ctx, fs[q], examine, seen)
    # helpers named by the guarantees are examined by themselves too
    ctx.expect("functions storing successor links", 3)
    positions(ctx)
    ctx.expect("connect sites", 6)
    insert_info(ctx)
    relabel(ctx)
    ctx.expect("functions relabelling loops or removing segments", 4)
    disconnect_wires(ctx)
