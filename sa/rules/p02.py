"""P02: the undo stack as a typed protocol: effects of every path of its operations."""
import ast
from ..loader import AnalysisError
from ..rl import canon, same, flat, bodies, cont_ops, fname, where, callers_of
from ..tok import T, show, subtoks, is_const, cval, NONE

LEVEL = "other"
EXPLANATION = ("Path-sensitive dataflow (including exceptional paths) over the undo module: for every abstract path of "
               "undo, redo, append, clear, group entry/exit and the recording wrapper the sequence of container "
               "operations on the two histories and the final receiver are compared with the protocol.")
U = "bgem.undo."
SELF = T("param", "self")
OPQ = ["undo._Action.do", "undo._Action.undo", "undo._Group.do", "undo._Group.undo", "undo.Stack.append",
       "undo._Action.text", "undo._Group.text"]


def fld(name, base=SELF):
    return T("attr", base, name)


def opaque_for(f):
    return [o for o in OPQ if not f.qual.endswith(o)]


def is_field(t, name, base=SELF):
    return t is not None and canon(t) is fld(name, base)


def muts(events, names=("_undos", "_redos", "_receiver")):
    out = []
    for e, loops in flat(events):
        for op, c, a, v in cont_ops(e):
            cc = canon(c)
            if cc.op == "attr" and cc.args[1] in names:
                out.append((op, cc.args[1], a, e, loops))
    return out


def final(o, field, base=SELF):
    v = fld(field, base)
    for e, loops in flat(o.events()):
        if e.kind == "write" and e.name == field and canon(e.recv) is canon(base):
            v = canon(e.args[0])
    return v


def norm_len(t, coll):
    t = canon(t)
    return t.op == "op" and "len" in t.args and any(canon(a) is coll for a in t.args if not isinstance(a, str)) \
        and t.args[0] == "len" or (t.op == "op" and t.args[0] == "len")


def len_of(t):
    """Collection whose length the token is."""
    t = canon(t)
    if t.op == "op" and t.args[0] == "len":
        return t.args[1]
    if t.op == "op" and len(t.args) == 3 and t.args[0] == "len":
        return t.args[1]
    if t.op in ("len",):
        return t.args[0]
    return None


def move(ctx, name, src, dst, inner, callback):
    f = ctx.prog.func(U + "Stack." + name)
    c = fname(f)
    outs = ctx.run(f, opaque=opaque_for(f), track_exc=True, keep_conds=True)
    normal = idle = failing = 0
    inner_q = {U + "_Action." + inner, U + "_Group." + inner}
    for o in outs:
        evs = o.events()
        ms = muts(evs)
        calls = [(i, e) for i, (e, l) in enumerate(flat(evs)) if e.kind == "call" and e.name in inner_q]
        other = [e for e, l in flat(evs) if e.kind == "call" and e.name in
                 {U + "_Action." + x for x in ("do", "undo")} | {U + "_Group." + x for x in ("do", "undo")} and e.name not in inner_q]
        ctx.check(not other, "moves", c, "%s performs %s" % (name, other[0].name if other else ""), where(other[0]) if other else "")
        if not ms and not calls:
            if o.flow == "return":
                idle += 1
                ctx.ok("moves", c + "/nothing available")
            continue
        if not calls and o.flow != "return":
            # failure of a check before the body (assertion of the receiver protocol)
            if not ms or all(m[0] == "del" for m in ms):
                continue
        pops = [m for m in ms if m[0] == "del" and m[1] == src]
        ctx.check(len(pops) == 1 and (pops[0][2] is None or (is_const(pops[0][2]) and cval(pops[0][2]) == -1)),
                  "moves", c + "/take", "the newest entry of %s is not taken exactly once" % src, f.loc(f.node))
        entry = pops[0][3].res if pops else None
        ctx.check(len(calls) == 1 and calls[0][1].recv is entry, "moves", c + "/run",
                  "%s of the taken entry is not carried out exactly once" % inner, f.loc(f.node))
        # receiver during the action
        rec = None
        for e, l in flat(evs):
            if calls and e is calls[0][1]:
                break
            if e.kind == "write" and e.name == "_receiver":
                rec = e.args[0]
        ctx.check(rec is not None and rec.op in ("list", "new", "call", "dict") or (rec is not None and canon(rec) is NONE), "paused", c,
                  "actions recorded while %s runs go to %s" % (name, show(rec) if rec is not None else "the current receiver"),
                  f.loc(f.node))
        ctx.check(final(o, "_receiver") is fld("_receiver"), "restores", c + "/" + o.flow,
                  "after %s (%s path) the receiver is %s instead of the one active before"
                  % (name, "failing" if o.flow != "return" else "normal", show(final(o, "_receiver"))), f.loc(f.node))
        puts = [m for m in ms if m[0] == "add" and m[1] == dst]
        clears = [m for m in ms if m[0] == "clear"]
        if o.flow == "return":
            normal += 1
            # the body may have swallowed an exception of the action
            exc = [e for e, l in flat(evs) if e.kind == "except"]
            ctx.check(not exc, "moves", c + "/swallow", "a failing action is silently treated as done", f.loc(f.node))
            ctx.check(len(puts) == 1 and puts[0][2] is entry, "moves", c + "/put",
                      "the entry is not moved to %s exactly once" % dst, f.loc(f.node))
            ctx.check(not clears and len(ms) == 2, "moves", c + "/others", "%s changes also other entries" % name, f.loc(f.node))
            ev = [e for e, l in flat(evs)]
            if puts and calls:
                ctx.check(ev.index(calls[0][1]) < ev.index(puts[0][3]), "moves", c + "/order",
                          "the entry is moved before the action succeeded", where(puts[0][3]))
            cb = [e for e in ev if e.kind == "call" and e.name in ("." + callback, callback)]
            ctx.check(len(cb) == 1 and not any(e.kind == "call" and str(e.name).endswith("callback") and e not in cb for e in ev),
                      "moves", c + "/callback", "%s is not called once" % callback, f.loc(f.node))
            if cb:
                rw = [i for i, e in enumerate(ev) if e.kind == "write" and e.name == "_receiver"]
                ctx.check(ev.index(cb[0]) > (ev.index(puts[0][3]) if puts else -1), "moves", c + "/callback order",
                          "%s is called before the histories are updated" % callback, where(cb[0]))
        else:
            after = []
            seen = False
            for e, l in flat(evs):
                if e is (calls[0][1] if calls else None):
                    seen = True
                elif seen:
                    after.append(e)
            cl = {m[1] for m in clears}
            failing += 1
            if puts and any(e.kind == "call" and str(e.name).endswith("callback") for e in after):
                continue      # the callback itself failed after a complete move
            if puts and not clears:
                # entry already moved although the action failed
                pass
            ctx.check({"_undos", "_redos"} <= cl, "failure", c, "a failing %s does not clear both histories" % name, f.loc(f.node))
            last_clear = max([i for i, m in enumerate(ms) if m[0] == "clear"], default=-1)
            ctx.check(all(m[0] == "clear" for m in ms[last_clear:]) if last_clear >= 0 else False, "failure", c + "/left",
                      "an entry is put to the histories after they were cleared", f.loc(f.node))
            ctx.check(final(o, "_savepoint") is NONE, "failure", c + "/savepoint",
                      "the savepoint survives the failure", f.loc(f.node))
    if not (normal and failing and idle):
        raise AnalysisError("%s: paths not recognised (%d normal, %d failing, %d idle)" % (f.qual, normal, failing, idle))


def is_nonempty_test(t, coll, truth=True):
    """Does the token equal 'collection is not empty'?"""
    t = canon(t)
    if t.op == "nonempty":
        return t.args[0] is coll
    if t.op == "op" and len(t.args) == 3:
        o, a, b = t.args
        if not isinstance(o, str):
            return False
        if len_of(b) is coll and is_const(a):
            flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
            if o in flip:
                o, a, b = flip[o], b, a
        if len_of(a) is coll and is_const(b):
            v = cval(b)
            return (o, v) in ((">", 0), ("!=", 0), (">=", 1))
        if t.args[0] == "len":
            return t.args[1] is coll
    if t.op in ("call", "pcall") and t.args[0] in ("builtins.bool",):
        return t.args[1] is coll or is_nonempty_test(t.args[1], coll)
    if t.op == "op" and t.args[0] in ("bool", "truth"):
        return t.args[1] is coll or is_nonempty_test(t.args[1], coll)
    return False


def conds(o):
    """Branch conditions of the path: token -> truth."""
    out = {}
    for e in o.events():
        if e.kind == "cond":
            out[canon(e.recv)] = e.name in (True, "True")
    return out


def flips(t, truth):
    """Normal form of a condition: (token, truth) with negation removed."""
    while t.op == "op" and t.args[0] == "not":
        t, truth = t.args[1], not truth
    return t, truth


def run(ctx):
    P = ctx.prog
    ctx.rule("moves", "undo/redo take the newest entry of one history, carry it out and put it to the other one only after success")
    ctx.rule("paused", "actions done by a running undo/redo are not recorded to the histories")
    ctx.rule("restores", "nested recording scopes hand control back to the receiver active before, also on failure")
    ctx.rule("failure", "a failing undo/redo clears both histories and the savepoint")
    ctx.rule("append", "a recorded action goes once to the current receiver; on the main history it discards pending redos and a savepoint among them")
    ctx.rule("group", "a group records into its own list, replays in order, reverts in reverse order and is recorded once")
    ctx.rule("record", "an undoable call runs its action and records it exactly once after it succeeded")
    ctx.rule("action", "an action replays its generator with the stored arguments and reverts by resuming it once")
    ctx.rule("reports", "counts, texts and the changed flag describe the actual histories")
    move(ctx, "undo", "_undos", "_redos", "undo", "undocallback")
    move(ctx, "redo", "_redos", "_undos", "do", "docallback")

    # ---- append: receiver is the main history / another object
    f = P.func(U + "Stack.append")
    action = T("param", f.pos_params()[1])
    main = T("attr", SELF, "_undos", None)
    for label, heap in (("main", {(SELF, "_receiver"): main}), ("other", {(SELF, "_receiver"): T("param", "#other")}),
                        ("none", {(SELF, "_receiver"): NONE})):
        facts = {}
        outs = ctx.run(f, opaque=[], heap=heap, keep_conds=True)
        cover = 0
        for o in outs:
            if o.flow != "return":
                continue
            cs = conds(o)
            # the histories are containers and the other receiver is neither of them
            if any(k.op == "op" and k.args[0] in ("is", "==") and v and (fld("_undos") in k.args or T("param", "#other") in k.args)
                   for k, v in cs.items()):
                continue
            cover += 1
            ev = [e for e, l in flat(o.events())]
            adds = [(canon(c), a, e) for e in ev for op, c, a, v in cont_ops(e) if op == "add"]
            adds += [(canon(e.recv), e.args[0] if e.args else None, e) for e in ev if e.kind == "call" and e.name == ".append"]
            clr = [e for e in ev for op, c, a, v in cont_ops(e) if op == "clear" and is_field(c, "_redos")]
            others = [e for e in ev for op, c, a, v in cont_ops(e) if canon(c) in (fld("_undos"), fld("_redos")) and
                      not (op == "add") and not (op == "clear" and is_field(c, "_redos"))]
            c = fname(f) + "/" + label
            target = {"main": fld("_undos"), "other": T("param", "#other")}.get(label)
            if target is not None:
                ctx.check(len(adds) == 1 and adds[0][0] is target and adds[0][1] is action, "append", c,
                          "the action is not recorded exactly once to the current receiver", f.loc(f.node))
            else:
                ctx.check(not adds, "append", c, "an action is recorded although recording is disabled", f.loc(f.node))
            ctx.check(not others, "append", c + "/others", "append changes other entries of the histories", f.loc(f.node))
            if label == "main":
                ctx.check(len(clr) >= 1, "append", c + "/redos", "pending redos survive a new action", f.loc(f.node))
                sp = [e for e in ev if e.kind == "write" and e.name == "_savepoint"]
                check_savepoint(ctx, f, o, sp, ev, adds)
                cb = [e for e in ev if e.kind == "call" and str(e.name).endswith("docallback")]
                ctx.check(len(cb) == 1, "append", c + "/callback", "docallback is not called once", f.loc(f.node))
            else:
                ctx.check(not clr, "append", c + "/redos", "redos are discarded by an action recorded elsewhere", f.loc(f.node))
                sp = [e for e in ev if e.kind == "write" and e.name == "_savepoint"]
                ctx.check(not sp, "append", c + "/savepoint", "the savepoint is changed by an action recorded elsewhere", f.loc(f.node))
        if not cover:
            raise AnalysisError("no path of Stack.append for receiver '%s'" % label)

    # ---- clear
    f = P.func(U + "Stack.clear")
    for o in ctx.run(f):
        cl = {m[1] for m in muts(o.events()) if m[0] == "clear"}
        for e, l in flat(o.events()):
            if e.kind == "write" and e.name in ("_undos", "_redos"):
                cl.add(e.name)
        ctx.check({"_undos", "_redos"} <= cl, "failure", fname(f), "clear leaves entries in a history", f.loc(f.node))
        ctx.check(final(o, "_savepoint") is NONE, "failure", fname(f) + "/savepoint", "clear keeps the savepoint", f.loc(f.node))

    # ---- constructor
    f = P.func(U + "Stack.__init__")
    for o in ctx.run(f, args={"self": SELF}):
        w = {e.name: e.args[0] for e, l in flat(o.events()) if e.kind == "write"}
        ok = w.get("_undos") is not None and w.get("_redos") is not None and w["_undos"] is not w["_redos"] \
            and w.get("_receiver") is w["_undos"]
        ctx.check(ok, "append", fname(f), "a new stack does not record to its own undo history", f.loc(f.node))
        ctx.check(w.get("_savepoint") is NONE, "reports", fname(f), "a new stack has a savepoint", f.loc(f.node))

    group(ctx)
    recording(ctx)
    reports(ctx)


def check_savepoint(ctx, f, o, sp, ev, adds):
    """Savepoint is dropped exactly when it counts more entries than there were before the new one."""
    c = fname(f) + "/savepoint"
    cs = [(e.recv, e.name in (True, "True"), ev.index(e)) for e in ev if e.kind == "cond"]
    known = None     # None: unset, True: beyond, False: kept
    unset = False
    for t, v, i in cs:
        ct = canon(t)
        if ct.op == "op" and ct.args[0] == "is" and fld("_savepoint") in ct.args and NONE in ct.args:
            if v:
                unset = True
            continue
        if t.op == "op" and len(t.args) == 3 and t.args[0] in ("<", ">", "<=", ">=", "==", "!="):
            a, b, opx = t.args[1], t.args[2], t.args[0]
            if is_field(b, "_savepoint"):
                a, b = b, a
                opx = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(opx, opx)
            if not is_field(a, "_savepoint"):
                continue
            # b: length before (n) or after (n+1) the append
            off = None
            bb = b
            extra = 0
            if bb.op == "op" and bb.args[0] in ("+", "-") and len(bb.args) == 3 and is_const(bb.args[2]):
                extra = cval(bb.args[2]) * (1 if bb.args[0] == "+" else -1)
                bb = bb.args[1]
            if len_of(bb) is None or not is_field(len_of(bb), "_undos"):
                continue
            after = any(s.op == "clk" for s in subtoks(bb))
            off = extra + (1 if after else 0)
            # savepoint s beyond history: s > n  <=> s >= n+1
            beyond = {("<", 1): not v, (">", 0): v, (">=", 1): v, ("<=", 0): not v}.get((opx, off))
            if beyond is None:
                ctx.bad("append", c, "savepoint is compared by '%s' with the number of undos %+d" % (opx, off), f.loc(f.node))
                return
            known = beyond
    dropped = bool(sp) and all(canon(e.args[0]) is NONE for e in sp)
    if sp and not dropped:
        ctx.bad("append", c, "a new action sets the savepoint to %s" % show(sp[0].args[0]), f.loc(f.node))
        return
    if unset:
        ctx.ok("append", c)
    elif known is None:
        ctx.bad("append", c, "the savepoint is %s regardless of the discarded history" % ("dropped" if dropped else "kept"), f.loc(f.node))
    else:
        ctx.check(dropped == known, "append", c, "the savepoint is %s although it is %s" %
                  ("dropped" if dropped else "kept", "in the discarded history" if known else "in the kept history"), f.loc(f.node))


def loop_order(ev):
    """(base, 'fwd'|'rev') of a loop over a list."""
    r = ev.recv
    order = "fwd"
    for _ in range(6):
        if r is None:
            return None, order
        if r.op == "copyof":
            if r.args[0] == "builtins.reversed":
                order = "rev" if order == "fwd" else "fwd"
            r = r.args[1]
        elif r.op == "item" and r.args[1].op == "slice":
            st = r.args[1].args
            if is_const(st[2]) and cval(st[2]) == -1:
                order = "rev" if order == "fwd" else "fwd"
            r = r.args[0]
        else:
            break
    return canon(r), order


def group(ctx):
    P = ctx.prog
    lst = None
    f = P.func(U + "_Group.__init__")
    fields = {}
    for o in ctx.run(f, args={"self": SELF}):
        for e, l in flat(o.events()):
            if e.kind == "write":
                fields[e.name] = e.args[0]
    lists = [n for n, v in fields.items() if v.op in ("list", "new", "call")]
    ctx.check(len(lists) >= 1, "group", fname(f), "a group does not create its own list of actions", f.loc(f.node))
    f = P.func(U + "_Group.__enter__")
    saved = None
    for o in ctx.run(f, opaque=["undo.stack", "Stack.append"]):
        if o.flow != "return":
            continue
        stk = None
        w = [e for e, l in flat(o.events()) if e.kind == "write"]
        recs = [e for e in w if e.name == "_receiver"]
        ctx.check(len(recs) >= 1 and canon(recs[-1].args[0]).op == "attr" and canon(recs[-1].args[0]).args[0] is SELF and
                  canon(recs[-1].args[0]).args[1] in lists, "group", fname(f) + "/receiver",
                  "entering a group does not direct recording to the list of the group", f.loc(f.node))
        if not recs:
            continue
        lst = canon(recs[-1].args[0]).args[1] if canon(recs[-1].args[0]).op == "attr" else None
        for e in w:
            if canon(e.recv) is SELF and canon(e.args[0]).op == "attr" and canon(e.args[0]).args[1] == "_receiver":
                ev = [x for x, l in flat(o.events())]
                base = canon(e.args[0]).args[0]
                read = [i for i, x in enumerate(ev) if x.kind == "call" and x.res is not None and canon(x.res) is base]
                # read before the receiver of the group is set (the stack may be looked up anew for each access)
                if ev.index(e) < ev.index(recs[0]) or read and read[0] < ev.index(recs[0]) and canon(recs[0].recv) is base or \
                        read and read[0] < ev.index(recs[0]) and not any(x is not e and x.kind == "call" and i > read[0] and i < ev.index(recs[0])
                                                                         and x.name == ev[read[0]].name and canon(x.res) is base for i, x in enumerate(ev)):
                    saved = e.name
        ctx.check(saved is not None, "restores", fname(f), "entering a group does not remember the receiver active before", f.loc(f.node))
    f = P.func(U + "_Group.__exit__")
    for o in ctx.run(f, opaque=["undo.stack", "Stack.append"], keep_conds=True):
        if o.flow != "return":
            ctx.bad("restores", fname(f) + "/raise", "leaving a group fails", f.loc(f.node))
            continue
        ev = [e for e, l in flat(o.events())]
        recs = [e for e in ev if e.kind == "write" and e.name == "_receiver"]
        okk = bool(recs) and canon(recs[-1].args[0]).op == "attr" and canon(recs[-1].args[0]).args[0] is SELF and \
            canon(recs[-1].args[0]).args[1] == saved
        ctx.check(okk, "restores", fname(f), "leaving a group sets the receiver to %s instead of the one active before"
                  % (show(recs[-1].args[0]) if recs else "nothing"), f.loc(f.node))
        app = [e for e in ev if e.kind == "call" and e.name == U + "Stack.append"]
        ctx.check(len(app) == 1 and app[0].args[1] is SELF, "group", fname(f), "the group is not recorded exactly once", f.loc(f.node))
        if app and recs:
            ctx.check(ev.index(recs[-1]) < ev.index(app[0]), "group", fname(f) + "/order",
                      "the group is recorded before the enclosing receiver is restored", where(app[0]))
        ctx.check(o.val is not None and is_const(o.val) and not cval(o.val), "group", fname(f) + "/swallow",
                  "leaving a group swallows the exception of its body", f.loc(f.node))
    for name, order in (("do", "fwd"), ("undo", "rev")):
        f = P.func(U + "_Group." + name)
        found = 0
        for o in ctx.run(f, opaque=["_Action.do", "_Action.undo"]):
            if o.flow != "return":
                continue
            loops = [e for e in o.events() if e.kind == "loop"]
            ctx.check(len(loops) == 1, "group", fname(f), "actions of the group are not traversed exactly once", f.loc(f.node))
            for lp in loops:
                base, od = loop_order(lp)
                ctx.check(base is fld(lst or "_stack"), "group", fname(f) + "/list", "not the recorded actions are traversed (%s)" % show(base), where(lp))
                ctx.check(od == order, "group", fname(f) + "/order", "actions are %s in %s order" %
                          ("replayed" if name == "do" else "reverted", "reverse" if od == "rev" else "recording"), where(lp))
                for b, flow in bodies(lp):
                    cs = [e for e, l in flat(b) if e.kind == "call" and str(e.name).rsplit(".", 1)[-1] in ("do", "undo")]
                    if flow in ("raise",):
                        continue
                    ok1 = len(cs) == 1 and str(cs[0].name).endswith("." + name) and cs[0].recv.op in ("elem", "item")
                    ctx.check(ok1, "group", fname(f) + "/call", "an action is not %s exactly once" % ("replayed" if name == "do" else "reverted"), where(lp))
                    ctx.check(flow in (None, "next", "normal", "continue", "fall"), "group", fname(f) + "/leave",
                              "the traversal may stop early (%s)" % flow, where(lp))
                    found += 1
        if not found:
            raise AnalysisError("%s: loop over the actions not recognised" % f.qual)


def recording(ctx):
    P = ctx.prog
    # the wrapper returned by undoable
    deco = P.func(U + "undoable")
    inner = [f for f in P.funcs.values() if f.parent is deco]
    if len(inner) != 1:
        raise AnalysisError("wrapper of undoable not found")
    f = inner[0]
    n = 0
    gen = T("param", deco.pos_params()[0])
    for o in ctx.run(f, opaque=["_Action.do", "undo.stack", "Stack.append", "_Action.__init__"], track_exc=True):
        ev = [e for e, l in flat(o.events())]
        news = [e for e in ev if e.kind == "new" and e.name == U + "_Action"]
        dos = [e for e in ev if e.kind == "call" and e.name == U + "_Action.do"]
        app = [e for e in ev if e.kind == "call" and e.name == U + "Stack.append"]
        if o.flow != "return":
            ctx.check(not app or ev.index(app[0]) > (ev.index(dos[0]) if dos else -1), "record", fname(f) + "/failed",
                      "a failed action is recorded", f.loc(f.node))
            continue
        n += 1
        ctx.check(len(dos) == 1, "record", fname(f) + "/do", "the action is not carried out exactly once", f.loc(f.node))
        ctx.check(len(app) == 1 and len(dos) == 1 and app[0].args[1] is dos[0].recv, "record", fname(f) + "/append",
                  "the action is not recorded exactly once", f.loc(f.node))
        if dos and app:
            ctx.check(ev.index(dos[0]) < ev.index(app[0]), "record", fname(f) + "/order", "the action is recorded before it succeeded", where(app[0]))
        exc = [e for e in ev if e.kind == "except"]
        ctx.check(not exc, "record", fname(f) + "/swallow", "a failure of the action is swallowed", f.loc(f.node))
    if not n:
        raise AnalysisError("no path through the wrapper of undoable")
    # the action itself
    f = P.func(U + "_Action.__init__")
    attrs = {}
    for o in ctx.run(f, args={"self": SELF}):
        for e, l in flat(o.events()):
            if e.kind == "write" and e.args[0].op == "param":
                attrs[e.args[0].args[0]] = e.name
            if e.kind == "write" and e.args[0].op == "copyof" and e.args[0].args[1].op == "param":
                attrs[e.args[0].args[1].args[0]] = e.name
    ps = f.pos_params()[1:]
    if len(ps) < 3 or any(p not in attrs for p in ps[:3]):
        ctx.bad("action", fname(f), "the action does not store its generator and arguments", f.loc(f.node))
        return
    fg, fa, fk = (fld(attrs[p]) for p in ps[:3])
    f = P.func(U + "_Action.text")
    tattr = None
    for o in ctx.run(f):
        if o.flow == "return":
            v = canon(o.val) if o.val is not None else NONE
            tattr = v.args[1] if v.op == "attr" and v.args[0] is SELF else None
            if not ctx.check(isinstance(tattr, str), "action", fname(f), "the text of an action is %s" % show(v), f.loc(f.node)):
                return
    f = P.func(U + "_Group.text")
    for o in ctx.run(f):
        if o.flow == "return":
            names = leaf_attrs(o.val)
            ctx.check({"_desc", "_stack"} <= names, "action", fname(f), "the text of a group is not its description filled with its count",
                      f.loc(f.node))
    f = P.func(U + "_Action.do")
    runner = None
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        ev = [e for e, l in flat(o.events())]
        g = [e for e in ev if e.kind == "call" and e.args and e.args[0].op == "star" and canon(e.args[0].args[0]) is fa]
        okc = len(g) == 1 and len(g[0].args) == 1 and g[0].kw.get("**") is not None and canon(g[0].kw["**"]) is fk \
            and str(g[0].name).lstrip(".") == fg.args[1]
        ctx.check(okc, "action", fname(f), "the generator is not started once with the stored arguments", f.loc(f.node))
        nx = [e for e in ev if e.kind == "call" and e.name == "builtins.next"]
        if g:
            ctx.check(len(nx) == 1 and nx[0].args[0] is g[0].res, "action", fname(f) + "/advance",
                      "the forward part is not run exactly once", f.loc(f.node))
            w = [e for e in ev if e.kind == "write" and e.args[0] is g[0].res]
            ctx.check(len(w) == 1, "action", fname(f) + "/keep", "the running generator is not kept for undo", f.loc(f.node))
            if w:
                runner = w[0].name
            if len(nx) == 1:
                first_value(ctx, f, o, canon(nx[0].res), tattr)
    f = P.func(U + "_Action.undo")
    stop = False
    for o in ctx.run(f, track_exc=True):
        ev = [e for e, l in flat(o.events())]
        nx = [e for e in ev if e.kind == "call" and e.name == "builtins.next"]
        if o.flow == "return":
            ctx.check(len(nx) == 1 and is_field(nx[0].args[0], runner or "_runner"), "action", fname(f) + "/resume",
                      "the reverting part is not run exactly once", f.loc(f.node))
            ex = [e for e in ev if e.kind == "except"]
            if ex:
                stop = True
                ctx.check(all("StopIteration" in str(e.name) for e in ex), "action", fname(f) + "/errors",
                          "errors of the reverting part are swallowed (%s)" % ex[0].name, f.loc(f.node))
    if not stop:
        # default of next or a for loop could be used instead
        hasd = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next" and len(n.args) == 2
                   for n in ast.walk(f.node))
        ctx.check(hasd, "action", fname(f) + "/stop", "the regular end of the generator is reported as a failure", f.loc(f.node))


def leaf_attrs(t):
    out, work, seen = set(), [t], set()
    while work:
        x = work.pop()
        if id(x) in seen or not hasattr(x, "op"):
            continue
        seen.add(id(x))
        if x.op == "attr" and isinstance(x.args[1], str):
            out.add(x.args[1])
        work += [a for a in x.args if hasattr(a, "op")]
    return out


def first_value(ctx, f, o, r, tattr):
    """The first value the generator yields is the text, the remaining values are the result."""
    truth = {}
    for e in o.events():
        if e.kind == "cond":
            c = canon(e.recv)
            if c.op == "isinst" and c.args[0] is r:
                truth["tuple"] = bool(e.name)
            elif c.op == "op" and c.args[0] == "is" and r in c.args and NONE in c.args:
                truth["none"] = bool(e.name)
    wr = [canon(e.args[0]) for e in o.events() if e.kind == "write" and e.name == tattr]
    v = canon(o.val) if o.val is not None else NONE
    if not wr:
        ctx.bad("action", fname(f) + "/text", "a path does not record the text of the action", f.loc(f.node))
        return
    w = wr[-1]
    if truth.get("tuple"):
        okt = w.op == "item" and w.args[0] is r and is_const(w.args[1]) and cval(w.args[1]) == 0
        okr = v.op == "item" and v.args[0] is r and v.args[1].op == "slice" and is_const(v.args[1].args[0]) and cval(v.args[1].args[0]) == 1
        if v.op == "item" and v.args[0] is r and not okr:
            okr = False
        elif v.op != "item":
            okr = v is not NONE and v is not r
    elif truth.get("none"):
        okt = is_const(w) and cval(w) == "" or w is r
        okr = v is NONE
    elif truth.get("tuple") is False:
        okt = w is not NONE and not (is_const(w) and truth.get("none") is False)
        okr = v is NONE
    else:
        okt = okr = True
    ctx.check(okt, "action", fname(f) + "/text", "the text of the action is %s" % show(w), f.loc(f.node))
    ctx.check(okr, "action", fname(f) + "/result", "the result of the action is %s" % show(v), f.loc(f.node))


def reports(ctx):
    P = ctx.prog
    for name, coll in (("canundo", "_undos"), ("canredo", "_redos")):
        f = P.func(U + "Stack." + name)
        for o in ctx.run(f, keep_conds=True):
            v = o.val
            okk = is_nonempty_test(v, fld(coll))
            if is_const(v):
                okk = any(is_nonempty_test(k, fld(coll)) and tv == bool(cval(v)) for k, tv in conds(o).items())
            ctx.check(okk, "reports", fname(f), "%s is %s" % (name, show(v)), f.loc(f.node))
    for name, coll in (("undocount", "_undos"), ("redocount", "_redos")):
        f = P.func(U + "Stack." + name)
        for o in ctx.run(f):
            ctx.check(o.val is not None and len_of(o.val) is fld(coll), "reports", fname(f), "%s is %s" % (name, show(o.val)), f.loc(f.node))
    for name, coll, word in (("undotext", "_undos", "Undo"), ("redotext", "_redos", "Redo")):
        f = P.func(U + "Stack." + name)
        n = 0
        for o in ctx.run(f, opaque=["_Action.text", "_Group.text"], keep_conds=True):
            tx = [e for e, l in flat(o.events()) if e.kind == "call" and str(e.name).endswith(".text")]
            if not tx:
                ctx.check(o.val is NONE, "reports", fname(f) + "/none", "text of nothing is %s" % show(o.val), f.loc(f.node))
                ctx.check(any(is_nonempty_test(k, fld(coll)) and not tv for k, tv in conds(o).items()), "reports", fname(f) + "/cond",
                          "no text although %s has entries" % coll, f.loc(f.node))
                continue
            n += 1
            r = canon(tx[0].recv)
            ctx.check(r.op == "item" and r.args[0] is fld(coll) and is_const(r.args[1]) and cval(r.args[1]) == -1, "reports", fname(f),
                      "%s describes %s instead of the newest entry of %s" % (name, show(r), coll), f.loc(f.node))
            ctx.check(any(is_const(s) and isinstance(cval(s), str) and word.lower() in cval(s).lower() for s in subtoks(o.val)), "reports",
                      fname(f) + "/word", "%s does not start with '%s'" % (name, word), f.loc(f.node))
        if not n:
            raise AnalysisError("%s does not use the text of an entry" % name)
    f = P.func(U + "Stack.savepoint")
    for o in ctx.run(f):
        ctx.check(len_of(final(o, "_savepoint")) is fld("_undos"), "reports", fname(f), "savepoint is %s" % show(final(o, "_savepoint")), f.loc(f.node))
    f = P.func(U + "Stack.haschanged")
    for o in ctx.run(f, keep_conds=True):
        cs = conds(o)
        unset = [tv for k, tv in cs.items() if k.op == "op" and k.args[0] == "is" and fld("_savepoint") in k.args and NONE in k.args]
        v = canon(o.val)
        if v.op == "op" and v.args[0] == "is":
            okk = bool(unset) and unset[0] and fld("_savepoint") in v.args
        elif is_const(v):
            if unset and unset[0]:
                okk = cval(v) is True
            else:
                okk = any(k.op == "op" and k.args[0] in ("==", "!=") and fld("_savepoint") in k.args and
                          (tv == (k.args[0] == "!=")) == bool(cval(v)) for k, tv in cs.items())
        else:
            t, truth = flips(v, True)
            okk = t.op == "op" and t.args[0] in ("==", "!=") and (t.args[0] == "!=") == truth and fld("_savepoint") in t.args and \
                any(not isinstance(a, str) and len_of(a) is fld("_undos") for a in t.args)
            okk = okk and bool(unset) and not unset[0] or (okk and not unset and t.args[0] == "!=")
        ctx.check(okk, "reports", fname(f), "changed flag is %s" % show(v), f.loc(f.node))
