"""P21: mesh healing re-examines every element it touched."""
import ast
from ..loader import AnalysisError
from ..tok import T, Tok, NONE, subtoks, is_const, cval
from ..rl import bodies, fname, where, canon, cont_ops, flat
from .. import heal as H

LEVEL = "other"
TECHNIQUE = "obligation flow analysis: recording, hand-over and queueing of touched elements on all abstract paths of the healing steps and loop"
EXPLANATION = ("Each mesh change of the healing operations is matched with the recording of the elements it touches; on each abstract "
               "path of a healing step that changed the mesh the returned value has to be the record handed over after the last change; "
               "in the main loop every hand-over is followed to the queue over the loop-carried variables, also at the loop exit, and "
               "every examination has to be dominated by a membership test not invalidated by a removing step.")
CHECKS = ("_check_dupl_nodes", "_check_duplicate_element", "_check_degen_nodes", "_check_small_edge", "_check_flat_triangle", "_check_flat_tetra")
RECORDING = ("add_element", "move_node", "merge_node")


def run(ctx):
    ctx.rule("record", "a mesh change records the elements it touches")
    ctx.rule("kept", "the record is emptied only by its hand-over")
    ctx.rule("handover", "the hand-over gives the whole record and starts a new one")
    ctx.rule("step", "a step that changed the mesh returns the record taken after its last change")
    ctx.rule("queue", "records handed to the main loop are queued before the loop goes on or ends")
    ctx.rule("live", "only elements still in the mesh are examined")
    ctx.rule("start", "all elements are examined at least once")
    for n in ("add_element", "move_node", "merge_node", "heal_mesh"):
        ctx.prog.func(H.q(n))
    for m in H.methods(ctx):
        if m.name == "heal_mesh" or m.deco_is(ctx.prog, "builtins.staticmethod"):
            continue
        record(ctx, m)
    handover(ctx)
    steps(ctx)
    main(ctx)
    ctx.expect("recorded changes", 2)
    ctx.expect("hand-overs in the loop", 1)
    ctx.expect("changing steps", 3)


# ---------------------------------------------------------------- recording
def recorded(events, kid, node):
    """Is the element / are all elements of the node recorded on the path? True / None / 'part'."""
    part = None
    for e in events:
        if e.kind == "loop":
            rec = []
            for b, flow in bodies(e):
                if flow == "raise":
                    continue
                rec.append(any(op == "add" and t == "modified_elements" and about(k, e.recv, kid, node) for x, l in flat(b)
                               for op, t, k, v in H.ops(x)))
            if rec and all(rec):
                return True
            if any(rec):
                part = "part"
            continue
        for op, t, k, v in H.ops(e):
            if t != "modified_elements":
                continue
            if op == "add" and kid is not None and H.id_of(k) is kid:
                return True
            if op == "addall" and k is not None:
                ts = list(subtoks(canon(k)))
                if node is not None and any(H.node_entry(x) is node for x in ts):
                    if any(x.op == "slice" for x in ts):
                        part = "part"
                    elif any(x.op == "conds" and x.args and not live_only(x) for x in ts):
                        part = "part"
                    else:
                        return True
                if kid is not None and any(x is kid for x in ts):
                    return True
        if e.kind == "write" and e.name == "modified_elements":
            ts = list(subtoks(canon(e.args[0])))
            if node is not None and any(H.node_entry(x) is node for x in ts) or kid is not None and any(x is kid for x in ts):
                if any(H.table(x) == "modified_elements" for x in ts):
                    return True
    return part


def live_only(conds):
    """The filter keeps exactly the elements that are in the mesh."""
    return all(isinstance(c, Tok) and c.op == "op" and c.args[0] == "in" and H.table(c.args[2]) == "elements" for c in conds.args)


def about(k, coll, kid, node):
    if kid is not None and H.id_of(k) is kid:
        return True
    if node is not None:
        for t in (coll, k):
            if isinstance(t, Tok) and any(H.node_entry(x) is node for x in subtoks(canon(t))):
                return True
    return False


def record(ctx, m):
    fn = fname(m)
    for o in H.run(ctx, m):
        if o.flow == "raise":
            continue
        for e, l in flat(o.events()):
            if e.kind == "call" and e.name == H.q("reset_modified"):
                v = [x for x in subtoks(canon(o.val))] if o.val is not None else []
                ctx.check(any(H.called(x, "reset_modified") for x in v), "kept", fn, "the record is taken but not handed over", where(e), key="taken:" + fn)
        for chain in H.lists(o.events()):
            evs = [e for L in chain for e in L]
            for e in chain[-1]:
                for op, t, k, v in H.ops(e):
                    if t == "elements" and op == "set":
                        ctx.saw("recorded changes", fn)
                        r = recorded(evs, H.id_of(k), None)
                        ctx.check(r is True, "record", fn, "a created or rewritten element is not recorded", where(e), key="element:" + fn)
                    elif t == "nodes" and op == "set":
                        from .p20 import fresh
                        if fresh(chain, k, "max_node_id"):
                            continue
                        moved(ctx, fn, e, evs, canon(k))
                    elif t == "modified_elements" and op in ("clear", "rem", "remall", "del", "difference_update", "intersection_update"):
                        ctx.check(m.name == "reset_modified", "kept", fn, "recorded elements are dropped", where(e), key="drop:" + fn)
                if e.kind == "aug" and e.recv is not None:
                    r = canon(e.recv)
                    if r.op == "item" and H.table(r.args[0]) == "nodes":
                        moved(ctx, fn, e, evs, canon(r.args[1]))
                if e.kind == "write" and e.name == "modified_elements" and m.name not in ("reset_modified", "__init__"):
                    v = canon(e.args[0])
                    grow = any(H.table(x) == "modified_elements" for x in subtoks(v)) and not any(
                        x.op == "op" and x.args[0] in ("-", "&") for x in subtoks(v))
                    handed = o.val is not None and any(H.table(x) == "modified_elements" for x in subtoks(canon(o.val)))
                    ctx.check(grow or handed, "kept", fn, "the record is replaced without handing it over", where(e), key="replace:" + fn)


def moved(ctx, fn, e, evs, node):
    ctx.saw("recorded changes", fn)
    r = recorded(evs, None, node)
    ctx.check(r is True, "record", fn, "moving a node %s" % ("records only some of its elements" if r else "does not record its elements"),
              where(e), key="node:" + fn)


# ---------------------------------------------------------------- hand-over
def handover(ctx):
    f = ctx.prog.funcs.get(H.q("reset_modified"))
    if f is None:
        return
    for o in H.run(ctx, f):
        if o.flow != "return":
            continue
        v = canon(o.val)
        fresh = [e for e in o.events() if e.kind == "write" and e.name == "modified_elements"]
        clear = [e for e in o.events() for op, t, k, x in H.ops(e) if t == "modified_elements" and op == "clear"]
        src = H.strip(v)
        given = H.table(src) == "modified_elements" or v.op in ("comp",) and H.table(H.strip(canon(v.args[1]))) == "modified_elements"
        ctx.check(given or not isinstance(v, Tok) and False or v.op in ("lphi", "phi"), "handover", fname(f), "the hand-over does not return the record",
                  f.loc(f.node), key="returns")
        if fresh:
            n = canon(fresh[-1].args[0])
            ctx.check(n.op in ("new", "setlit", "list", "call", "pcall", "copyof") and not any(H.table(x) == "modified_elements" for x in subtoks(n)),
                      "handover", fname(f), "the new record is not empty", where(fresh[-1]), key="new")
        elif clear:
            raw = o.val
            ctx.check(raw.op in ("copyof", "comp", "setlit", "new") or v is not src, "handover", fname(f), "the returned record is emptied", where(clear[-1]), key="cleared")
        else:
            ctx.bad("handover", fname(f), "the hand-over keeps the old record", f.loc(f.node), key="keeps")


# ---------------------------------------------------------------- steps
def step_policy(me):
    def pol(g):
        c = getattr(g, "cls", None) or g
        if c.qual == H.HM:
            return "opaque" if g.name in H.API or g.name in CHECKS and g.name != me else None
        return "opaque"
    return pol


def steps(ctx):
    cls = ctx.prog.cls(H.HM)
    main_f = ctx.prog.func(H.q("heal_mesh"))
    names = set(CHECKS)
    for n in ast.walk(main_f.node):
        if isinstance(n, ast.Call):
            for g in targets(ctx, n):
                if g.name.startswith("_check"):
                    names.add(g.name)
    for name in sorted(names):
        m = cls.methods.get(name)
        if m is None:
            continue
        fn = fname(m)
        for o in ctx.run(m, keep_conds=True, policy=step_policy(name)):
            if o.flow == "raise":
                continue
            ctx.saw("step paths", fn)
            evs = o.events()
            last = max([i for i, e in enumerate(evs) if changes(e)], default=None)
            if last is None:
                continue
            ctx.saw("changing steps", fn)
            given = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == H.q("reset_modified") or
                     e.kind == "write" and e.name == "modified_elements"]
            v = canon(o.val) if o.val is not None else NONE
            ts = list(subtoks(v))
            is_rec = any(H.called(x, "reset_modified") or H.table(x) == "modified_elements" for x in ts) or \
                any(H.called(x, c) for x in ts for c in names)
            sub = any(x.op == "slice" or x.op == "conds" and x.args and not live_only(x) for x in ts)
            ctx.check(is_rec, "step", fn, "the mesh was changed but the record is not returned", m.loc(m.node), key="returned:" + fn)
            if is_rec:
                ctx.check(not sub, "step", fn, "only a part of the record is returned", m.loc(m.node), key="part:" + fn)
                ctx.check(not given or given[-1] > last, "step", fn, "the mesh is changed after the record was taken", m.loc(m.node), key="late:" + fn)
                ctx.check(len(given) <= 1 or given[-2] < first(evs), "step", fn, "an earlier part of the record is dropped", m.loc(m.node),
                          key="twice:" + fn)


def first(evs):
    return min([i for i, e in enumerate(evs) if changes(e)], default=len(evs))


def changes(e):
    if e.kind == "loop":
        return any(changes(x) for b, flow in bodies(e) if flow != "raise" for x in b)
    return e.kind == "call" and e.name in [H.q(n) for n in RECORDING] or \
        any(t == "modified_elements" and op in ("add", "addall") for op, t, k, v in H.ops(e))


# ---------------------------------------------------------------- main loop
def main_policy(g):
    c = getattr(g, "cls", None) or g
    if c.qual == H.HM:
        return "opaque" if g.name in H.API or g.name in CHECKS else None
    return "opaque"


def is_result(t):
    return any(H.called(t, c) for c in CHECKS + ("reset_modified",))


def targets(ctx, call):
    """Methods of HealMesh the call can go to."""
    out = []
    for g in ctx.types.callees.get(call, ()):
        g = ctx.prog.funcs.get(g) if isinstance(g, str) else g
        if g is not None and getattr(g, "cls", None) is not None and g.cls.qual == H.HM:
            out.append(g)
    return out


def reach(ctx, name, seen=None):
    """Does the method call remove_node, or remove_element for its own element, directly or over other methods?"""
    cls = ctx.prog.cls(H.HM)
    m = cls.methods.get(name)
    seen = set() if seen is None else seen
    if m is None or name in seen:
        return False
    seen.add(name)
    for n in ast.walk(m.node):
        if isinstance(n, ast.Call):
            for g in targets(ctx, n):
                if g.name == "remove_node":
                    return True
                if g.name == "remove_element" and n.args and isinstance(n.args[0], ast.Attribute) and n.args[0].attr == "eid":
                    return True
                if g.name not in ("remove_element",) and reach(ctx, g.name, seen):
                    return True
    return False


def main(ctx):
    f = ctx.prog.func(H.q("heal_mesh"))
    fn = fname(f)
    removing = {c for c in CHECKS if reach(ctx, c)}
    ctx.notes.append("steps after which the element may be gone: " + ", ".join(sorted(removing)))
    outs = [o for o in ctx.run(f, keep_conds=True, policy=main_policy, carry=True) if o.flow != "raise"]
    for o in outs:
        evs = o.events()
        loops = [i for i, e in enumerate(evs) if e.kind == "loop" and any(is_check(x) for b, fl in bodies(e) for x, l in flat(b))]
        if not loops:
            continue
        i = loops[0]
        loop = evs[i]
        queues = {base(x.recv) for b, fl in bodies(loop) for x, l in flat(b) if x.kind == "mut" and x.name in ("pop", "popleft")}
        queues |= {base(x.recv) for b, fl in bodies(loop) for x, l in flat(b) if x.kind == "delitem"}
        started(ctx, fn, f, queues)
        path(ctx, fn, f, [], queues, removing, loop)
        for b, flow in bodies(loop):
            if flow != "raise":
                path(ctx, fn, f, b, queues, removing, loop)
        leave(ctx, fn, f, loop, evs[i + 1:], queues)


def is_check(e):
    return e.kind == "call" and any(e.name == H.q(c) for c in CHECKS)


def base(t):
    """Container without the loop mark."""
    t = canon(t)
    while isinstance(t, Tok) and t.op in ("lphi", "atver"):
        nxt = [a for a in t.args if isinstance(a, Tok)]
        if not nxt or nxt[0] is t:
            break
        if t.op == "lphi":
            break
        t = nxt[0]
    return t


def started(ctx, fn, f, queues):
    for qn in queues:
        if any(H.table(x) == "elements" for x in subtoks(qn)):
            ts = list(subtoks(qn))
            ctx.check(not any(x.op == "slice" or x.op == "conds" and x.args for x in ts), "start", fn,
                      "only a part of the elements is queued at the start", f.loc(f.node), key="start")


def falsy(e, tok):
    return e.kind == "cond" and isinstance(e.recv, Tok) and str(e.name) == "False" and truth_of(canon(e.recv)) is tok


def truth_of(c):
    c = canon(c)
    return canon(c.args[0]) if c.op == "nonempty" else c


def absorbed(e, tok, queues):
    """Is the value put into a queue by the event?"""
    for op, c, k, v in cont_ops(e):
        if op in ("addall", "extendleft") and k is not None and H.strip(canon(k)) is tok and (base(c) in queues or not queues):
            return True
    if e.kind in ("aug", "write") and e.args and any(isinstance(a, Tok) and canon(a) is tok or isinstance(a, Tok) and canon(a).op == "op" and
                                                      any(y is tok for y in subtoks(canon(a))) for a in e.args):
        if e.recv is not None and (base(e.recv) in queues or not queues):
            return True
    if e.kind == "loop" and H.strip(canon(e.recv)) is tok:
        return all(any(op in ("add", "addleft") and base(c) in queues for x in b for op, c, k, v in cont_ops(x)) for b, fl in bodies(e))
    return False


def path(ctx, fn, f, body, queues, removing, loop):
    evs = [e for e in body]
    results = []
    for e in evs:
        for x, l in flat([e]):
            if is_check(x):
                results.append(x)
    toks = set()
    for e in evs:
        cands = [e.recv] + list(e.args or ())
        for a in cands:
            if isinstance(a, Tok):
                for t in subtoks(canon(a)):
                    if is_result(t):
                        toks.add(t)
    carried = [e for e in evs if e.kind == "carry"]
    for e in results:
        ctx.saw("hand-overs in the loop", fname(e.name))
    for r in toks:
        name = r.args[0].split(".")[-1]
        ok = any(falsy(e, r) for e in evs) or any(absorbed(e, r, queues) for e in evs)
        if not ok:
            for c in carried:
                for a, b in zip(c.args[0::2], c.args[1::2]):
                    if any(x is r for x in subtoks(canon(b))):
                        ok = ok or consumed(ctx, fn, f, a, loop, queues)
        if not ok and any(r2 is not r and any(x is r for x in subtoks(r2)) for r2 in toks):
            continue
        ctx.check(ok, "queue", fn, "elements handed over by %s are not queued" % name, f.loc(f.node), key="queue:" + name)
    for e in results:
        name = e.name.split(".")[-1]
        if not any(H.called(t, name) for t in toks):
            ctx.bad("queue", fn, "the result of %s is ignored" % name, where(e), key="ignored:" + name)
    # carried records must not be dropped by the path
    for c in carried:
        for a, b in zip(c.args[0::2], c.args[1::2]):
            b = canon(b)
            a = canon(a)
            if holds_record(loop, a) and read(loop, a) and b is not a and not any(x is a for x in subtoks(b)):
                used = any(absorbed(e, a, queues) for e in evs) or any(falsy(e, a) for e in evs)
                ctx.check(used, "queue", fn, "handed over elements are dropped when the loop goes on", f.loc(f.node), key="dropped")
    # membership
    alive = None
    for e in evs:
        if e.kind == "cond" and isinstance(e.recv, Tok):
            c = canon(e.recv)
            for x in subtoks(c):
                if x.op == "op" and x.args[0] == "in" and any(H.table(y) == "elements" for y in subtoks(x.args[2])):
                    if str(e.name) == "True" and x is c:
                        alive = H.id_of(x.args[1])
        elif e.kind == "call" and e.name == H.q("_make_element"):
            k = H.id_of(e.args[1]) if len(e.args) > 1 else None
            if k is not None and (len(e.args) < 3 or canon(e.args[2]) is NONE):
                ctx.check(alive is not None and alive is k, "live", fn, "an element is examined without checking that it is still in the mesh",
                          where(e), key="live:make")
        elif is_check(e):
            ctx.check(alive is not None, "live", fn, "%s is applied although the element may have been removed by the previous step" %
                      e.name.split(".")[-1], where(e), key="live:" + e.name.split(".")[-1])
            if e.name.split(".")[-1] in removing:
                alive = None
        elif e.kind == "loop" and any(is_check(x) for b, fl in bodies(e) for x, l in flat(b)):
            for b, fl in bodies(e):
                if fl != "raise" and b is not body:
                    path(ctx, fn, f, b, queues, set(), loop)


def holds_record(loop, lphi):
    for b, fl in bodies(loop):
        for e in b:
            if e.kind == "carry":
                for a, v in zip(e.args[0::2], e.args[1::2]):
                    if canon(a) is lphi and any(is_result(x) for x in subtoks(canon(v))):
                        return True
    return False


def read(loop, lphi):
    """The value of the previous round is read somewhere (a local that is always set before its use carries nothing)."""
    if loop.recv is not None and any(x is lphi for x in subtoks(canon(loop.recv))):
        return True
    for b, fl in bodies(loop):
        for e, l in flat(b):
            if e.kind != "carry" and any(isinstance(t, Tok) and any(x is lphi for x in subtoks(canon(t))) for t in [e.recv, e.res] + list(e.args or ())):
                return True
    return False


def consumed(ctx, fn, f, lphi, loop, queues):
    """The carried record is queued by every path of the next round."""
    lphi = canon(lphi)
    for b, fl in bodies(loop):
        if fl == "raise":
            continue
        if not any(absorbed(e, lphi, queues) or falsy(e, lphi) for e in b):
            # kept for a later round
            keep = any(e.kind == "carry" and any(canon(a) is lphi and any(x is lphi for x in subtoks(canon(v))) for a, v in
                                                 zip(e.args[0::2], e.args[1::2])) for e in b)
            if not keep and fl != "break":
                return False
    return True


def leave(ctx, fn, f, loop, after, queues):
    """Normal end of the loop: nothing carried is left. Early end: only by the limit on the number of elements."""
    recs = set()
    for b, fl in bodies(loop):
        for e in b:
            if e.kind == "carry":
                for a, v in zip(e.args[0::2], e.args[1::2]):
                    if holds_record(loop, canon(a)) and read(loop, canon(a)):
                        recs.add(canon(a))
    inside = {id(n) for n in ast.walk(loop.node)} if getattr(loop, "node", None) is not None else set()
    tail = [e for e in after if id(e.node) in inside and e.kind != "cond"]
    if tail:
        # the path leaves from inside the body
        why = [e for e in after if e.kind == "cond" and str(e.name) in ("True", "False") and any(
            x.op == "attr" and x.args[1] == "max_ele_id" for x in subtoks(canon(e.recv)))]
        conds = [e for e in after if e.kind == "cond"]
        lim = bool(why)
        emp = any(e.kind == "cond" and str(e.name) == "False" and base(truth_of(e.recv)) in queues for e in conds)
        ctx.check(lim or emp, "queue", fn, "healing ends early while elements wait for examination", f.loc(f.node), key="early")
        return
    for r in recs:
        ok = any(falsy(e, r) or absorbed(e, r, queues) for e in after)
        ctx.check(ok, "queue", fn, "healing ends although the last touched elements were not examined again", f.loc(f.node), key="end")
