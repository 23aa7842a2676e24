"""P04: the endpoint-pair directory against creation, removal and endpoint exchange of segments."""
import ast
from ..loader import AnalysisError
from ..rl import canon, flat, fname, callers_of, where, cont_ops
from ..tok import T, show, subtoks, is_const, cval, NONE, Tok, const
from ..dc import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive dataflow over every function that creates, registers, removes or re-attaches a segment or "
               "touches the directory: on each path the symbolic endpoints of every segment are tracked through the "
               "stores to its end points and compared with the keys inserted to and deleted from the directory.")


def pairs(key):
    it = seq_items(key) if key is not None else None
    if it is None or len(it) != 2:
        return None
    if all(x.op == "attr" and x.args[1] == "id" for x in it):
        return tuple(canon(x.args[0]) for x in it)
    return None


def norm(p, now):
    """Endpoint token: 'seg.vtxs[i]' resolved to the tracked value."""
    return p


def examine_factory(ctx):
    force = set()
    pol = field_policy(ctx, ["vtxs", "pt_to_seg"], inline=["point_ids"], force=force)

    def examine(f):
        ctx.saw("functions with segment edits", f.qual)
        outs = ctx.run(f, policy=pol)
        res = []
        c = fname(f)
        for o in outs:
            if o.flow not in ("return",):
                continue
            init, cur, reg, unreg, ent, order = {}, {}, set(), set(), {}, []
            created = set()
            unknown = set()
            rmpair = {}

            def pair(s):
                if s not in cur:
                    cur[s] = [vtx(s, 0), vtx(s, 1)]
                    init[s] = tuple(cur[s])
                return cur[s]

            def key_of(k):
                k = pairs(k)
                if k is None:
                    return None
                return k
            lastloc = {}
            for e, loops in flat(o.events()):
                if e.kind == "new" and e.name == SEG:
                    s = canon(e.res)
                    p = pair_of_new(e)
                    cur[s] = p or [vtx(s, 0), vtx(s, 1)]
                    init[s] = None
                    created.add(s)
                    lastloc[s] = e
                elif e.kind == "setitem" and canon(e.recv).op == "attr" and canon(e.recv).args[1] == "vtxs":
                    s = canon(canon(e.recv).args[0])
                    pair(s)
                    i = e.args[0]
                    if is_const(i) and cval(i) in (0, 1, -1):
                        cur[s][cval(i) % 2] = canon(e.args[1])
                    else:
                        unknown.add(s)
                    order.append(("V", s, e))
                    lastloc[s] = e
                elif e.kind == "write" and e.name == "vtxs" and e.recv.op != "new":
                    s = canon(e.recv)
                    pair(s)
                    it = seq_items(e.args[0])
                    if it and len(it) == 2:
                        cur[s] = [canon(x) for x in it]
                    else:
                        unknown.add(s)
                    order.append(("V", s, e))
                    lastloc[s] = e
                io = idmap_ops(e)
                if io and io[1] == "segments":
                    s = canon(io[2])
                    if io[0] == "reg":
                        reg.add(s)
                        pair(s)
                    else:
                        unreg.add(s)
                        pair(s)
                        rmpair[s] = tuple(cur[s])
                        order.append(("R", s, e))
                    lastloc[s] = e
                for op, cont, a, v in cont_ops(e):
                    cc = canon(cont)
                    if cc.op != "attr" or cc.args[1] != "pt_to_seg":
                        continue
                    if op == "set":
                        k = key_of(a)
                        s = canon(v)
                        pair(s)
                        if k is None:
                            res.append(("keys", c + "/key", "segment is stored under %s" % show(a), where(e)))
                            continue
                        ent[k] = (s, e)
                        order.append(("I", s, e))
                    elif op == "del":
                        k = key_of(a)
                        if k is None:
                            res.append(("keys", c + "/key", "directory entry %s is removed" % show(a), where(e)))
                            continue
                        ent[k] = (None, e)
                    elif op == "rem" or op == "clear":
                        res.append(("keys", c + "/" + op, "directory entries are removed as a whole", where(e)))
            # resolved keys: an endpoint read through the segment equals the tracked one
            def alias(k):
                out = {k}
                for s, p in cur.items():
                    for pp in (tuple(p), init.get(s)):
                        if pp is None:
                            continue
                        # entries written by other names of the same point
                return out
            live = [s for s in cur if s in reg or any(x[0] == "V" and x[1] is s for x in order)]
            for s in live:
                if s in unreg:
                    continue
                fin = tuple(cur[s])
                if s in unknown:
                    got = any(v[0] is s for v in ent.values())
                else:
                    got = ent.get(fin, (None, None))[0] is s or (fin == init.get(s) and fin not in ent)
                ctxt = "%s/%s" % (c, "created" if s in reg else "re-attached")
                res.append(("insert", ctxt, None if got else
                            "segment %s is not stored under its endpoints (%s, %s)" % (show(s), show(fin[0]), show(fin[1])),
                            where(lastloc.get(s))))
                old = init.get(s)
                if old is not None and s not in reg and old != fin and s not in unknown:
                    gone = old in ent and ent[old][0] is not s
                    res.append(("remove", ctxt, None if gone else
                                "the entry of the former endpoints (%s, %s) stays in the directory" % (show(old[0]), show(old[1])),
                                where(lastloc.get(s))))
            for s in unreg:
                p = rmpair[s]
                gone = p in ent and ent[p][0] is None
                res.append(("remove", c + "/removed", None if gone else
                            "the entry of the removed segment stays in the directory", where(lastloc.get(s))))
            for k, (s, e) in ent.items():
                if s is not None:
                    ok = s in unknown or tuple(cur.get(s, ())) == k
                    if s in unreg:
                        ok = False
                    res.append(("keys", c + "/stored", None if ok else
                                "segment %s is stored under foreign endpoints (%s, %s)" % (show(s), show(k[0]), show(k[1])), where(e)))
                else:
                    # removed entry must belong to a segment that left these endpoints (either direction)
                    ok = any((rmpair.get(x) in (k, (k[1], k[0]))) for x in unreg) or \
                        any(init.get(x) == k and tuple(cur[x]) != k for x in cur) or any(x in unknown for x in cur)
                    res.append(("keys", c + "/dropped", None if ok else
                                "the entry (%s, %s) of a live segment is removed" % (show(k[0]), show(k[1])), where(e)))
        return res
    examine.force = force
    return examine


def absent(t, truth):
    """Key known to be absent from the directory when the condition has the truth value."""
    if t.op != "op":
        if t.op in ("nonempty",):
            return None
        k = lookup_key(t)
        return k if k is not None and not truth else None
    o = t.args[0]
    if o == "not":
        return absent(t.args[1], not truth)
    if o in ("is", "==") and len(t.args) == 3 and NONE in t.args:
        x = t.args[1] if t.args[2] is NONE else t.args[2]
        k = lookup_key(x)
        return k if truth else None
    if o in ("is not", "!=") and NONE in t.args:
        x = t.args[1] if t.args[2] is NONE else t.args[2]
        return lookup_key(x) if not truth else None
    if o in ("in", "not in") and len(t.args) >= 3:
        c = canon(t.args[2])
        if c.op == "attr" and c.args[1] == "pt_to_seg" and (o == "in") != truth:
            return pairs(t.args[1])
    return None


def lookup_key(t):
    """Key of a directory lookup token."""
    if not isinstance(t, Tok):
        return None
    t = canon(t)
    if t.op in ("call", "pcall") and str(t.args[0]).split(".")[-1] in ("get", "pop", "setdefault", "__getitem__"):
        a = [x for x in t.args[1:] if isinstance(x, Tok)]
    elif t.op == "item":
        a = list(t.args[:2])
    else:
        return None
    if len(a) < 2 or not any(s.op == "attr" and s.args[1] == "pt_to_seg" for s in subtoks(a[0])):
        return None
    return pairs(a[1])


def run(ctx):
    P = ctx.prog
    ctx.rule("insert", "a created or re-attached segment is stored in the directory under the ids of its start and end point")
    ctx.rule("remove", "the entry of the former endpoints, or of a removed segment, is dropped")
    ctx.rule("keys", "every entry stored or dropped belongs to the endpoints of its segment")
    ctx.rule("existing", "a segment between two points is created only when neither direction is in the directory; an existing one is returned")
    ctx.rule("ids", "the id pair of a segment is made of its start and end point in this order")
    fs = direct_writers(ctx, ["vtxs", "pt_to_seg"], idmaps=["segments"], classes=[SEG])
    for q in list(fs):
        if fs[q].name == "__init__":
            del fs[q]
    if len(fs) < 4:
        raise AnalysisError("only %d functions edit segments, at least 4 expected" % len(fs))
    ex = examine_factory(ctx)
    seen = set()
    for q in sorted(fs):
        settle(ctx, fs[q], ex, seen)
    # id pair
    f = P.func(SEG + ".point_ids")
    me = T("param", f.pos_params()[0])
    for o in ctx.run(f):
        k = pairs(o.val)
        ctx.check(k == (vtx(me, 0), vtx(me, 1)), "ids", fname(f), "ids of the endpoints are %s" % show(o.val), f.loc(f.node))
    existing(ctx)


def existing(ctx):
    P = ctx.prog
    f = P.func(DEC + ".new_segment")
    a, b = (T("param", p) for p in f.pos_params()[1:3])
    creators = {q for q in P.funcs if q.startswith(DEC + ".") and ("#segments" in ctx.effects[0].get(q, ()) or
                                                                   "#pt_to_seg" in ctx.effects[0].get(q, ()))}

    def pol(g):
        if g.qual in P.classes:
            return None
        return "opaque" if g.qual in creators or g.cls is not None and g.cls.qual in (PT, SEG, WIRE, PGN) else None
    made = ret = 0
    for o in ctx.run(f, policy=pol, keep_conds=True):
        if o.flow != "return":
            continue
        evs = [e for e, l in flat(o.events())]
        cr = [e for e in evs if e.kind == "call" and e.name in creators]
        miss = set()
        have = []
        for e in o.events():
            if e.kind == "cond":
                tv = e.name in (True, "True")
                k = absent(e.recv, tv)
                if k is not None:
                    miss.add(k)
                k = absent(e.recv, not tv)
                if k is not None:
                    have.append(k)
        if cr:
            made += 1
            ctx.check(miss >= {(a, b), (b, a)}, "existing", fname(f) + "/absent",
                      "a segment is created although only %d of the two directions were looked up" % len(miss & {(a, b), (b, a)}),
                      where(cr[0]))
            ctx.check(len(cr) == 1, "existing", fname(f) + "/once", "more segments are created at once", where(cr[-1]))
            ctx.check(o.val is cr[0].res, "existing", fname(f) + "/result", "the created segment is not returned", where(cr[0]))
        else:
            ret += 1
            k = lookup_key(o.val) if o.val is not None else None
            ctx.check(k in ((a, b), (b, a)), "existing", fname(f) + "/found", "nothing is created and %s is returned" % show(o.val),
                      f.loc(f.node))
            if k is not None and have:
                ctx.check(k in have, "existing", fname(f) + "/which", "the returned entry is not the found one", f.loc(f.node))
    if not made or not ret:
        raise AnalysisError("new_segment: %d creating and %d returning paths recognised" % (made, ret))
