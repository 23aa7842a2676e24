"""P01: undo part of every undoable edit = inverse of its forward part, on the same (re-resolved) objects."""
import ast
from ..loader import AnalysisError
from ..rl import canon, same, looked_up, root, flat, fname, callers_of, where
from ..tok import T, show, subtoks, is_const
from ..flow import subst

LEVEL = "other"
EXPLANATION = ("Path-sensitive value-numbering dataflow over every function decorated as undoable: the trace is split "
               "at the yield; the edits of the decomposition before it (calls of the elementary operations and "
               "attribute writes, after inlining helpers and other undoable operations) are matched one to one and in "
               "reverse order with the edits after it by the table of inverse operations, comparing value numbers of "
               "the operands modulo lookup of the object by its id.")
D = "bgem.polygons.decomp.Decomposition."
OPS = {D + n: n for n in ("add_free_point", "remove_free_point", "new_segment", "delete_segment", "split_segment",
                          "join_segments")}
SUPPORT = ["AABB_Lookup.add_object", "AABB_Lookup.rm_object", "AABB_Lookup.closest_candidates",
           "AABB_Lookup.intersect_candidates", "make_aabb"]


def undoables(ctx):
    out = [f for f in ctx.prog.funcs.values() if f.deco_is(ctx.prog, "bgem.undo.undoable")]
    for f in out:
        ctx.saw("undoable functions", f.qual)
    return out


class Op:
    def __init__(self, kind, args, res, ev):
        self.kind, self.args, self.res, self.ev = kind, args, res, ev

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(show(canon(a)) for a in self.args))


def ops_of(ctx, F, events, fwd=None):
    """Edits of the decomposition in the events."""
    out = []
    params = F.pos_params()
    for e, loops in flat(events):
        if e.kind == "call" and e.name in OPS:
            f = ctx.prog.func(e.name)
            args = [e.kw[p] for p in f.pos_params()[1:]]
            out.append(Op(OPS[e.name], args, e.res, e))
        elif e.kind == "call" and e.name == F.qual and fwd is not None:
            m = {T("param", p): e.kw[p] for p in params if p in e.kw}
            for o in fwd:
                out.append(Op(o.kind, [subst(a, m) for a in o.args], subst(o.res, m) if o.res is not None else None, e))
        elif e.kind == "write" and e.name == "attr":
            # attribute of an object created in this very function body by a constructor is not an edit
            if e.recv.op != "new":
                out.append(Op("attr", [e.recv, e.args[0]], None, e))
        elif e.kind == "call" and e.extra == "own" and e.name not in OPS and e.name != F.qual:
            pass
    return out


def split_yield(F, events):
    for i, e in enumerate(events):
        if e.kind == "yield" and e.func is F and not e.stack:
            return events[:i], events[i + 1:], e
    return None


def is_attr(t, obj, name):
    t = canon(t)
    return t.op == "attr" and t.args[1] == name and t.args[0] is canon(obj)


def inverse_ok(o, inv, k):
    """Does inv[k...] start with the inverse of o?  Returns number of used operations or (0, reason)."""
    u = inv[k]
    a = o.args
    if o.kind == "attr":
        if u.kind != "attr":
            return 0, "attribute change is not reverted (found %s)" % u
        if not same(u.args[0], a[0]):
            return 0, "attribute of a different object is restored (%s)" % u
        v = u.args[1]
        if not (v.op == "attr" and v.args[1] == "attr" and same(v.args[0], a[0])):
            return 0, "restored attribute is not the value the object had before (%s)" % show(v)
        if v.args[2] is not None if len(v.args) > 2 else False:
            return 0, "the restored attribute is read after it was changed (%s)" % show(v)
        return 1, ""
    pairs = {"add_free_point": "remove_free_point", "remove_free_point": "add_free_point",
             "new_segment": "delete_segment", "delete_segment": "new_segment",
             "split_segment": "join_segments", "join_segments": "split_segment"}
    if u.kind != pairs[o.kind]:
        return 0, "%s is reverted by %s instead of %s" % (o.kind, u.kind, pairs[o.kind])
    b = u.args
    if o.kind in ("add_free_point", "new_segment"):
        return (1, "") if same(b[0], o.res) else (0, "%s removes %s instead of the added object" % (u.kind, show(canon(b[0]))))
    if o.kind == "split_segment":
        if not same(b[0], a[1]):
            return 0, "segments are joined at %s instead of the inserted mid point" % show(canon(b[0]))
        if not (same(b[1], a[0]) and same(b[2], o.res)):
            return 0, "joined are %s, %s instead of the split and the new segment" % (show(canon(b[1])), show(canon(b[2])))
        return 1, ""
    if o.kind == "join_segments":
        if not same(b[0], a[1]):
            return 0, "split is %s instead of the kept segment" % show(canon(b[0]))
        if not same(b[1], a[0]):
            return 0, "segment is split at %s instead of the removed mid point" % show(canon(b[1]))
        return 1, ""
    if o.kind == "remove_free_point":
        if not is_attr(b[0], a[0], "xy"):
            return 0, "point is added at %s instead of its place" % show(canon(b[0]))
        if not is_attr(b[1], a[0], "poly"):
            return 0, "point is added to %s instead of its region" % show(canon(b[1]))
    if o.kind == "delete_segment":
        for i in (0, 1):
            x = canon(b[i])
            ok = x.op == "item" and is_attr(x.args[0], a[0], "vtxs") and is_const(x.args[1]) and x.args[1].args[0] == i
            if not ok:
                return 0, "endpoint %d of the restored segment is %s" % (i, show(x))
    # the attribute of the removed object is restored on the new one
    if k + 1 < len(inv) and inv[k + 1].kind == "attr":
        w = inv[k + 1]
        if same(w.args[0], u.res) and is_attr(w.args[1], a[0], "attr"):
            return 2, ""
        return 0, "attribute restored wrongly: %s" % w
    return 0, "attribute of the removed object is not restored"


KIND_MAP = {"add_free_point": [None, "polygons"], "remove_free_point": ["points"], "new_segment": ["points", "points"],
            "delete_segment": ["segments"], "split_segment": ["segments", "points"],
            "join_segments": ["points", "segments", "segments"], "attr": [("points", "segments", "polygons"), None]}


def current_object(t, want, first_hand):
    """The operand is resolved by its id among the live objects of the right kind (or freshly obtained)."""
    lk = looked_up(t)
    if lk is not None:
        return lk[0] == want or (isinstance(want, tuple) and lk[0] in want)
    # results of operations of the same part are current
    return root(t) in first_hand


def run(ctx):
    ctx.rule("inverse", "edits after the yield are the inverses of the edits before it, in reverse order, on the same objects")
    ctx.rule("resolved", "every object an undoable edit works on is resolved by its id among the live objects")
    ctx.rule("conditional", "adding a segment is reverted only if the segment was created by it")
    ctx.rule("only-undoable", "elementary operations of the decomposition are called only from undoable functions")
    ctx.rule("split-attr", "the segment split off inherits the attribute of the split segment")
    fs = undoables(ctx)
    if len(fs) < 7:
        raise AnalysisError("only %d undoable functions found, at least 7 expected" % len(fs))
    covered = set()
    for F in fs:
        outs = ctx.run(F, opaque=list(OPS) + SUPPORT, keep_conds=True)
        n = 0
        variants = []
        for o in outs:
            if o.flow != "return":
                continue
            sp = split_yield(F, o.events())
            if sp is None:
                ctx.bad("inverse", fname(F), "a path ends without reaching the yield", F.loc(F.node))
                continue
            if any(c.kind == "assert" and is_const(c.args[0]) and not c.args[0].args[0] for c in o.events() if c.args):
                continue
            before, after, y = sp
            n += 1
            fwd = ops_of(ctx, F, before)
            inv = ops_of(ctx, F, after, fwd)
            covered |= {x.kind for x in fwd}
            variants.append((o, fwd, inv, before, after, y))
        if not n:
            raise AnalysisError("no complete path through %s" % F.qual)
        for o, fwd, inv, before, after, y in variants:
            bad_lookup = None
            first = {x.res for x in fwd if x.res is not None}
            for x in fwd:
                for a, want in zip(x.args, KIND_MAP[x.kind]):
                    if want is None:
                        continue
                    if looked_up(a) is None and a.op == "item" and (is_const(a.args[0]) or a.args[0].op in ("dict", "list")):
                        bad_lookup = "dead"     # None[...]: the object is of no supported kind
                        continue
                    ctx.check(current_object(a, want, first), "resolved", "%s/%s" % (fname(F), x.kind),
                              "operand %s of %s is not looked up by its id in '%s'" % (show(a), x.kind, want), where(x.ev))
            if bad_lookup == "dead":
                continue
            first_u = {x.res for x in inv if x.res is not None}
            for x in inv:
                for a, want in zip(x.args, KIND_MAP[x.kind]):
                    if want is None or x.ev.name == F.qual:
                        continue
                    if x.kind == "attr" and root(a) in first_u:
                        continue
                    ctx.check(current_object(a, want, first_u), "resolved", "%s/undo %s" % (fname(F), x.kind),
                              "operand %s of the reverting %s is not looked up by its id in '%s'" % (show(a), x.kind, want),
                              where(x.ev))
            if len(fwd) == 1 and fwd[0].kind == "new_segment" and not inv:
                # allowed only when another variant reverts; the guard is checked below
                continue
            k = 0
            for x in reversed(fwd):
                if k >= len(inv):
                    ctx.bad("inverse", "%s/%s" % (fname(F), x.kind), "%s is not reverted" % x, where(y))
                    break
                used, why = inverse_ok(x, inv, k)
                if not used:
                    ctx.bad("inverse", "%s/%s" % (fname(F), x.kind), why, where(inv[k].ev))
                    k = len(inv)
                    break
                ctx.ok("inverse", "%s/%s" % (fname(F), x.kind))
                k += used
            else:
                if k < len(inv):
                    ctx.bad("inverse", "%s/extra" % fname(F), "undo does more than the inverse: %s" % inv[k], where(inv[k].ev))
        # conditional revert of an addition that may have found an existing object
        adders = [v for v in variants if any(x.kind == "new_segment" for x in v[1])]
        if adders:
            rev = [v for v in adders if v[2]]
            non = [v for v in adders if not v[2]]
            ctx.check(bool(rev), "conditional", fname(F), "a created segment is never removed by undo", F.loc(F.node), key=fname(F) + ":never")
            ctx.check(bool(non), "conditional", fname(F),
                      "undo removes the segment also when it existed before the edit", F.loc(F.node))
            for v in rev:
                for w in non:
                    check_guard(ctx, F, v, w)
    missing = set(KIND_MAP) - covered
    if missing:
        raise AnalysisError("no undoable function performs: %s" % ", ".join(sorted(missing)))
    # all edits go through undoable functions
    names = {f.qual for f in fs}
    for q in OPS:
        ctx.prog.func(q)
        sites = callers_of(ctx, q)
        for f, node in sites:
            if f.cls is not None and f.cls.qual == "bgem.polygons.decomp.Decomposition":
                continue
            ctx.saw("call sites of elementary operations", "%s:%s" % (f.qual, q))
            ctx.check(covered_by(ctx, f, names, set()), "only-undoable", "%s/%s" % (fname(f), OPS[q]),
                      "%s is called outside of undoable functions" % OPS[q], f.loc(node))
    ctx.expect("call sites of elementary operations", 6)
    # attribute of the split-off segment
    outs = ctx.run(D + "split_segment", opaque=["Segment.previous", "Point.join_segment", "Point.rm_segment",
                                                "Segment.connect_vtx", "Segment.connect_free_vtx",
                                                "Segment.disconnect_vtx", "Segment.vtx_insert_info"])
    for o in outs:
        if o.flow != "return":
            continue
        seg = T("param", ctx.prog.func(D + "split_segment").pos_params()[1])
        w = [e for e in o.events() if e.kind == "write" and e.name == "attr" and e.recv is o.val]
        ctx.check(bool(w) and is_attr(w[-1].args[0], seg, "attr"), "split-attr", "polygons.decomp.Decomposition.split_segment",
                  "the new segment does not get the attribute of the split one", where(w[-1]) if w else "")


def covered_by(ctx, f, names, seen):
    if f.qual in names:
        return True
    if f.parent is not None and f.parent.qual in names:
        return True
    if f.qual in seen:
        return True
    seen.add(f.qual)
    cs = callers_of(ctx, f.qual)
    if not cs or not f.name.startswith("_"):
        return False
    return all(covered_by(ctx, g, names, seen) for g, n in cs)


def check_guard(ctx, F, v, w):
    """The condition separating the two variants compares the state before and after the addition."""
    cv = {e.args[0] if e.args else e.recv: e.name for e in v[0].events() if e.kind == "cond"}
    cw = {e.args[0] if e.args else e.recv: e.name for e in w[0].events() if e.kind == "cond"}
    diff = [(c, cv[c]) for c in cv if c in cw and cv[c] != cw[c]]
    op = [x for x in v[1] if x.kind == "new_segment"][0]
    okk = False
    why = "the undo is not guarded by a comparison of the state before and after the addition"
    for c, val in diff:
        subs = list(subtoks(c))
        lens = [s for s in subs if s.op == "op" and s.args[0] == "len"] or \
               [s for s in subs if s.op == "op" and "len" in [a for a in s.args if isinstance(a, str)]]
        # sizes read before and after
        if c.op == "op" and c.args[0] in ("<", ">", "<=", ">=", "==", "!=") and len(lens) == 2:
            a, b = c.args[1], c.args[2]
            olda, oldb = is_old(a), is_old(b)
            if olda == oldb:
                why = "the guard compares sizes read at the same time"
                continue
            o = c.args[0]
            # truth value of the comparison that means 'the number of segments has grown'
            grown = {"<": True if olda else None, ">": True if oldb else None, "!=": True, "==": False,
                     "<=": None if olda else False, ">=": None if oldb else False}[o]
            if grown is None:
                why = "the guard holds also when nothing was added"
                continue
            if (val in (True, "True")) == grown:
                okk = True
            else:
                why = "the guard has the wrong polarity"
        elif lens or any(s.op in ("attr", "item", "call", "pcall") for s in subs):
            if any(s is op.res or s.op == "item" or s.op == "attr" for s in subs):
                okk = True
    ctx.check(okk, "conditional", fname(F) + "/guard", why, F.loc(F.node))


def is_old(t):
    return any(s.op == "v0" for s in subtoks(t)) and not any(s.op in ("ver", "clk") for s in subtoks(t))
