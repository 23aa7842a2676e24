"""P20: mesh incidence tables stay exact while healing."""
from ..loader import AnalysisError
from ..tok import T, Tok, NONE, subtoks, is_const, cval, const
from ..rl import bodies, fname, where, canon, cont_ops
from .. import heal as H

LEVEL = "other"
TECHNIQUE = "paired-update (typestate) analysis of the element, node and incidence tables on all abstract paths of the healing operations"
EXPLANATION = ("On every abstract path of every healing operation the writes of the element and node tables are enumerated; each one has "
               "to come with the matching update of the incidence entries of all nodes of that element, ids of inserted elements and "
               "nodes have to be fresh values of counters started at the largest used id, insertions have to be guarded by the search "
               "for an equal element, node deletions by an empty incidence entry, and stored node lists must not be edited in place.")


def run(ctx):
    ctx.rule("insert", "inserting an element adds its id to the entries of all its nodes")
    ctx.rule("remove", "removing an element takes its id out of the entries of all its nodes")
    ctx.rule("fresh", "inserted elements and nodes get ids never used before")
    ctx.rule("equal", "an element equal to an existing one is not added")
    ctx.rule("node", "nodes are deleted only when unused, together with their entry")
    ctx.rule("inplace", "stored node lists are not edited in place")
    ctx.rule("entries", "incidence entries change only with the element table")
    ctx.rule("initial", "the table starts with every node of every element")
    ctx.rule("lookup", "the search for common elements uses the entries of all given nodes")
    ctx.prog.cls(H.HM)
    for n in ("add_element", "remove_element", "add_node", "remove_node", "merge_node", "move_node"):
        ctx.prog.func(H.q(n))
    for m in H.methods(ctx):
        if m.name in ("heal_mesh",) or m.deco_is(ctx.prog, "builtins.staticmethod"):
            continue
        method(ctx, m)
    counters(ctx)
    lookup(ctx)
    ctx.expect("element insertions", 1)
    ctx.expect("element removals", 1)
    ctx.expect("node insertions", 1)
    ctx.expect("node removals", 1)


def method(ctx, m):
    for o in H.run(ctx, m):
        if o.flow == "raise":
            continue
        ctx.saw("paths", fname(m))
        for chain in H.lists(o.events()):
            for e in chain[-1]:
                event(ctx, m, e, chain)


def neighbours(chain):
    """Events of the list of interest and of the lists around it."""
    for L in chain:
        yield from L


def covers(chain, want, ops, kid):
    """Is there a loop over exactly the wanted nodes whose every complete body does the operation for the id?"""
    part = False
    for L in chain:
        for e in L:
            if e.kind != "loop":
                continue
            hit = [any(op in ops and H.id_of(k) is kid and H.elem_coll(n) is not None and same_nodes(H.elem_coll(n), want)
                       for b in body for op, n, k in H.entry_ops(b)) for body, flow in bodies(e) if flow not in ("raise",)]
            opt = [skips(body, kid) for body, flow in bodies(e) if flow not in ("raise",)]
            if hit and any(hit):
                if all(h or s for h, s in zip(hit, opt)) and not any(fl in ("break", "return") for b, fl in bodies(e)):
                    return "all"
                part = True
    return "part" if part else None


def skips(body, kid):
    """The path found the id already there / already gone."""
    return any(e.kind == "cond" and isinstance(e.recv, Tok) and any(x.op == "op" and x.args[0] == "in" and H.id_of(x.args[1]) is kid
                                                                     for x in subtoks(e.recv)) for e in body)


def same_nodes(coll, want):
    n = H.norm(coll)
    if n is want or n == want:
        return True
    return isinstance(n, Tok) and isinstance(want, Tok) and canon(n) is canon(want)


def is_counter(v, name):
    """v = self.<name> + positive constant."""
    v = canon(v)
    return v.op == "op" and v.args[0] == "+" and any(isinstance(x, Tok) and x.op == "attr" and x.args[1] == name for x in v.args[1:]) and \
        any(isinstance(x, Tok) and is_const(x) and isinstance(cval(x), int) and cval(x) > 0 for x in v.args[1:])


def fresh(chain, k, name):
    k = canon(k)
    vals = [canon(e.args[0]) for e in neighbours(chain) if e.kind == "write" and e.name == name]
    if k.op in ("call", "pcall") and k.args[0] == "builtins.next":
        return True
    return is_counter(k, name) and any(v is k for v in vals)


def event(ctx, m, e, chain):
    fn = fname(m)
    for op, tab, k, v in H.ops(e):
        if tab == "elements":
            if op == "set":
                insertion(ctx, m, e, chain, k, v)
            elif op == "del":
                ctx.saw("element removals", fn)
                kid = H.id_of(k)
                r = covers(chain, ("elem", kid), ("rem",), kid)
                ctx.check(r == "all", "remove", fn, "element removed %s" %
                          ("but the entries of some of its nodes keep it" if r else "without clearing the entries of its nodes"),
                          where(e), key="remove:" + fn)
            elif op == "clear":
                ctx.bad("remove", fn, "element table cleared", where(e))
        elif tab == "nodes":
            if op == "set":
                if fresh(chain, k, "max_node_id"):
                    ctx.saw("node insertions", fn)
                    ctx.ok("fresh", fn + ": node id from the counter")
                else:
                    # replacing the position of a given node: the key has to be a node id, not a computed one
                    kk = canon(k)
                    ctx.check(not (kk.op == "op" or kk.op == "attr" and kk.args[1] == "max_node_id" or
                                   any(x.op == "op" and x.args[0] == "len" for x in subtoks(kk))), "fresh", fn,
                              "node stored under an id that need not be new", where(e), key="fresh:node:" + fn)
            elif op == "del":
                ctx.saw("node removals", fn)
                kk = canon(k)
                guard = any(c.kind == "cond" and isinstance(c.recv, Tok) and any(H.node_entry(x) is kk for x in subtoks(canon(c.recv)))
                            for c in neighbours(chain))
                truthy = [c for c in neighbours(chain) if c.kind == "cond" and isinstance(c.recv, Tok) and canon(c.recv).op == "nonempty" and
                          H.node_entry(canon(c.recv).args[0]) is kk]
                ctx.check(guard and not any(c.name == "True" or c.name is True for c in truthy), "node", fn,
                          "node deleted without checking that no element uses it", where(e), key="node:guard:" + fn)
                ent = any(op2 == "del" and t2 == "node_els" and canon(k2) is kk for x in neighbours(chain) for op2, t2, k2, v2 in H.ops(x))
                ctx.check(ent, "node", fn, "node deleted but its incidence entry stays", where(e), key="node:entry:" + fn)
        elif tab == "node_els":
            if op == "del":
                kk = canon(k)
                nod = any(op2 == "del" and t2 == "nodes" and canon(k2) is kk for x in neighbours(chain) for op2, t2, k2, v2 in H.ops(x))
                ctx.check(nod, "entries", fn, "incidence entry of a remaining node deleted", where(e), key="entries:del:" + fn)
            elif op == "set":
                v = canon(v)
                if fresh(chain, k, "max_node_id"):
                    ctx.check(empty(v), "entries", fn, "a new node starts with a non-empty entry", where(e), key="entries:new:" + fn)
                elif m.name != "__init__" and not initial_fn(ctx, m):
                    ok = v.op in ("comp", "op", "pcall", "call") and any(H.node_entry(x) is not None for x in subtoks(v))
                    ctx.check(ok, "entries", fn, "incidence entry replaced by unrelated data", where(e), key="entries:set:" + fn)
    for op, n, k in H.entry_ops(e):
        if op in ("add", "rem"):
            kid = H.id_of(k)
            want = ("set", "del")
            hit = any(t2 == "elements" and op2 in want and H.id_of(k2) is kid for x in flat_all(chain[0]) for op2, t2, k2, v2 in H.ops(x))
            walk = any(kid.op == "key" for _ in (0,)) and H.table(kid.args[0]) == "elements"
            ctx.check(hit or walk or from_elements(kid), "entries", fn,
                      "incidence entry %s an element the path does not store or remove" % ("gets" if op == "add" else "loses"),
                      where(e), key="entries:%s:%s" % (op, fn))
        elif op == "clear":
            ctx.bad("entries", fn, "incidence entry cleared", where(e), key="entries:clear:" + fn)
    inplace(ctx, fn, e)


def flat_all(events):
    from ..rl import flat
    for e, l in flat(events):
        yield e


def from_elements(kid):
    c = kid.args[0] if kid.op in ("elem", "key") else None
    return c is not None and any(H.table(x) == "elements" for x in subtoks(c))


def empty(v):
    return v.op == "new" or v.op in ("list", "setlit") and len(v.args) <= 1 or v.op in ("call", "pcall") and v.args[0] == "builtins.set"


def initial_fn(ctx, m):
    return m.name == "make_node_to_el"


def insertion(ctx, m, e, chain, k, v):
    fn = fname(m)
    ctx.saw("element insertions", fn)
    kid = H.id_of(k)
    if fresh(chain, k, "max_ele_id"):
        r = covers(chain, H.nodes_of(H.strip(canon(v))), ("add",), kid)
        ctx.check(r == "all", "insert", fn, "element added %s" % ("but not to the entries of all its nodes" if r else
                                                                 "without adding it to the entries of its nodes"),
                  where(e), key="insert:" + fn)
        before = []
        for L in chain:
            for x in L:
                if x is e:
                    break
                before.append(x)
        ok = None
        for c in before:
            if c.kind == "cond" and isinstance(c.recv, Tok):
                ts = list(subtoks(canon(c.recv)))
                d = [x for x in ts if H.called(x, "is_duplicate_el") or H.called(x, "common_elements")]
                if d:
                    ok = of_value(d[0], v) and ok is not False
                    if canon(c.recv).op in ("nonempty",) and str(c.name) == "True":
                        ok = False
        ctx.check(bool(ok), "equal", fn, "element added %s" % ("without looking for an equal one" if ok is None else
                                                              "although the search for equal ones concerns another element or found one"),
                  where(e), key="equal:" + fn)
    else:
        adds = [1 for x in flat_all(chain[0]) for op, n, kk in H.entry_ops(x) if op == "add" and H.id_of(kk) is kid]
        rems = [1 for x in flat_all(chain[0]) for op, n, kk in H.entry_ops(x) if op == "rem" and H.id_of(kk) is kid]
        kk = canon(k)
        stale = kk.op == "attr" and kk.args[1] == "max_ele_id" or kk.op == "op" or any(
            x.op == "op" and x.args[0] == "len" for x in subtoks(kk))
        ctx.check(not stale, "fresh", fn, "element stored under an id that need not be new", where(e), key="fresh:element:" + fn)
        if not stale:
            ctx.check(bool(adds) and bool(rems), "insert", fn, "element rewritten without updating the entries of its old and new nodes",
                      where(e), key="rewrite:" + fn)


def of_value(d, v):
    """Does the search concern the element (or the nodes) being stored?"""
    v = H.strip(canon(v))
    for x in subtoks(d):
        if x is not d and H.called(x, "_make_element") and any(a is v or isinstance(a, Tok) and canon(a) is v for a in x.args[1:]):
            return True
        if H.norm(x) == H.nodes_of(v):
            return True
    return any(x is v for x in subtoks(d))


def inplace(ctx, fn, e):
    for op, c, k, v in cont_ops(e):
        c = canon(c)
        if c.op in ("item", "val") and stored_list(c):
            ctx.bad("inplace", fn, "node list of a stored element edited in place", where(e), key="inplace:" + fn)
    if e.kind == "aug" and e.recv is not None and stored_list(canon(e.recv)):
        ctx.bad("inplace", fn, "node list of a stored element edited in place", where(e), key="inplace:" + fn)


def stored_list(c):
    if c.op == "attr" and c.args[1] == "node_ids":
        return False
    if c.op == "item" and is_const(c.args[1]) and cval(c.args[1]) in (2, -1):
        b = canon(c.args[0])
        return b.op == "item" and H.table(b.args[0]) == "elements" or b.op == "val" and H.table(b.args[0]) == "elements"
    return False


def counters(ctx):
    """Counters start at the largest used id of their own table and only grow; the table is filled before use."""
    cls = ctx.prog.cls(H.HM)
    init = cls.methods.get("__init__")
    if init is None:
        raise AnalysisError("HealMesh.__init__ not found")
    for name, tab in (("max_ele_id", "elements"), ("max_node_id", "nodes")):
        for o in H.run(ctx, init):
            if o.flow == "raise":
                continue
            w = [e for e in o.events() if e.kind == "write" and e.name == name]
            if not w:
                ctx.bad("fresh", fname(init), "counter %s not started" % name, init.loc(init.node), key="counter:" + name)
                continue
            v = canon(w[-1].args[0])
            ts = list(subtoks(v))
            tabs = {x.args[1] for x in ts if x.op == "attr" and x.args[1] in ("elements", "nodes")}
            wrong = tabs and tab not in tabs or any(x.op == "op" and x.args[0] == "len" for x in ts) or \
                any(x.op in ("call", "pcall") and x.args[0] in ("builtins.min", "builtins.len") for x in ts) or is_const(v) or \
                any(x.op == "op" and x.args[0] == "-" for x in ts)
            ctx.check(not wrong, "fresh", fname(init), "counter %s does not start at the largest used id" % name, where(w[-1]), key="counter:" + name)
    for m in H.methods(ctx):
        if m.name == "__init__" or m.deco_is(ctx.prog, "builtins.staticmethod"):
            continue
        for o in H.run(ctx, m):
            for e in flat_all(o.events()):
                if e.kind == "write" and e.name in ("max_ele_id", "max_node_id"):
                    ctx.check(is_counter(e.args[0], e.name), "fresh", fname(m), "counter %s does not only grow" % e.name, where(e),
                              key="grow:%s:%s" % (e.name, fname(m)))
    # initial filling
    for o in H.run(ctx, init):
        if o.flow == "raise":
            continue
        ok = False
        why = "no entry is filled from the element table"
        tok = [canon(e.args[0]) for e in o.events() if e.kind == "write" and e.name == "node_els"]
        for e in flat_all(o.events()):
            for op, c, k, v in cont_ops(e):
                c = canon(c)
                if op != "add" or c.op not in ("item", "pcall"):
                    continue
                b, n = (c.args[0], c.args[1]) if c.op == "item" else (c.args[1], c.args[2] if len(c.args) > 2 else None)
                if not (canon(b) in tok or H.table(b) == "node_els"):
                    continue
                coll = H.elem_coll(n) if n is not None else None
                kid = H.id_of(k)
                if coll is not None:
                    nn = H.norm(coll)
                    if nn == ("elem", kid):
                        ok = True
                    else:
                        why = "entries are filled from other data than the node lists of the elements"
        loops = [e for e in o.events() if e.kind == "loop" and any(H.table(x) == "elements" for x in subtoks(canon(e.recv)))]
        for e in loops:
            part = partial(e)
            if part:
                ok, why = False, part
        ctx.check(ok, "initial", fname(init), why, init.loc(init.node), key="initial")


def partial(loop):
    """Some element is skipped when the table is filled."""
    fills = []
    for b, flow in bodies(loop):
        f = False
        for e in b:
            if e.kind == "loop":
                fb = [any(op == "add" for x in bb for op, c, k, v in cont_ops(x)) for bb, fl in bodies(e)]
                f = f or any(fb)
                if any(fb) and not all(fb):
                    return "some nodes are skipped when the entries are filled"
        fills.append(f)
    if any(fills) and not all(fills):
        return "some elements are skipped when the entries are filled"
    if any(fl == "break" for b, fl in bodies(loop)):
        return "the filling stops early"
    return None


def lookup(ctx):
    f = ctx.prog.func(H.q("is_duplicate_el"))
    par = f.pos_params()[-1] if not isinstance(f.pos_params()[-1], tuple) else f.pos_params()[-1][0]
    for o in H.run(ctx, f):
        if o.flow != "return":
            continue
        for e in flat_all(o.events()):
            if e.kind == "call" and e.name == H.q("common_elements"):
                a = H.strip(canon(e.args[1])) if len(e.args) > 1 else None
                ok = a is not None and a.op == "attr" and a.args[1] == "node_ids"
                ctx.check(ok or a is not None and a.op not in ("item", "slice"), "lookup", fname(f),
                          "equal elements are searched by a part of the node list", where(e), key="dupl:nodes")
        v = canon(o.val)
        cmp = [x for x in subtoks(v) if x.op == "op" and x.args[0] in ("==", "!=")]
        cmp += [canon(e.recv) for e in flat_all(o.events()) if e.kind == "cond" and isinstance(e.recv, Tok) and canon(e.recv).op == "op"
                and canon(e.recv).args[0] in ("==", "!=")]
        size = any(x.op == "op" and x.args[0] == "len" for c in cmp for x in subtoks(c))
        ctx.check(size or any(isinstance(x, Tok) and x.op == "item" and is_const(x.args[1]) and cval(x.args[1]) == 0 for c in cmp for x in c.args[1:])
                  or any(isinstance(x, Tok) and x.op == "attr" and x.args[1] == "type" for c in cmp for x in c.args[1:]) or
                  any(x.op == "op" and x.args[0] in ("==", "!=") for e in flat_all(o.events()) if e.kind == "cond" for x in subtoks(canon(e.recv))),
                  "lookup", fname(f), "elements that have more nodes are taken for equal ones", f.loc(f.node), key="dupl:all")
        for c in cmp:
            it = [x for x in c.args[1:] if isinstance(x, Tok) and x.op == "item" and is_const(x.args[1])]
            at = [x for x in c.args[1:] if isinstance(x, Tok) and x.op == "attr"]
            if it and at and at[0].args[1] in ("type", "tags", "node_ids", "eid"):
                pos = {"type": 0, "tags": 1, "node_ids": 2}.get(at[0].args[1])
                ctx.check(cval(it[0].args[1]) == pos and at[0].args[1] == "type", "lookup", fname(f),
                          "equal elements are recognised by comparing unrelated fields", f.loc(f.node), key="dupl:type")
    f = ctx.prog.func(H.q("common_elements"))
    for o in H.run(ctx, f):
        if o.flow != "return" or o.val is None:
            continue
        ts = list(subtoks(canon(o.val)))
        names = [x.args[0] for x in ts if x.op in ("call", "pcall")] + [x.args[1] for x in ts if x.op == "attr"] + \
                [x.args[0] for x in ts if x.op == "op"]
        if not H.called(canon(o.val), "common_elements"):
            good = any(str(n).split(".")[-1] in ("intersection", "intersection_update", "&", "issubset", "all", "reduce", "<=") for n in names) or \
                any(e.kind in ("call", "pcall", "mut", "aug") and str(e.name).split(".")[-1] in ("intersection", "intersection_update", "&", "&=", "all", "reduce")
                    for e in flat_all(o.events())) or \
                any(e.kind == "cond" and canon(e.recv).op == "op" and canon(e.recv).args[0] == "in" for e in flat_all(o.events())) or \
                any(x.op == "op" and x.args[0] == "in" for x in ts)
            ctx.check(good, "lookup", fname(f), "the entries of the given nodes are not intersected", f.loc(f.node), key="common:all")
        ctx.check(not any("union" in str(n) or n == "|" for n in names), "lookup", fname(f), "elements of any instead of all given nodes",
                  f.loc(f.node), key="common:union")
        for x in ts:
            if x.op in ("comp", "elem") and isinstance(x.args[-1 if x.op == "elem" else 1], Tok):
                coll = canon(x.args[0] if x.op == "elem" else x.args[1])
                if coll.op == "item" and coll.args[0].op == "param" and coll.args[1].op == "slice" and not whole(o, coll):
                    ctx.bad("lookup", fname(f), "only a part of the given nodes is used", f.loc(f.node), key="common:part")
    f = ctx.prog.func(H.q("active"))
    for o in H.run(ctx, f):
        for e in o.events():
            if e.kind == "loop":
                for b, flow in bodies(e):
                    for i, y in enumerate(b):
                        if y.kind == "yield":
                            ok = any(c.kind == "cond" and str(c.name) == "True" and canon(c.recv).op == "op" and canon(c.recv).args[0] == "in" and
                                     canon(canon(c.recv).args[1]) is canon(y.args[0]) and H.table(canon(c.recv).args[2]) == "elements" for c in b[:i])
                            neg = any(c.kind == "cond" and canon(c.recv).op == "op" and canon(c.recv).args[0] in ("in", "not in") for c in b[:i])
                            ctx.check(ok or not neg, "lookup", fname(f), "active() passes removed elements", where(y), key="active")


def whole(o, coll):
    """A first-and-rest walk: the remaining nodes are used elsewhere on the path."""
    p = coll.args[0]
    for e in flat_all(o.events()):
        for a in [e.recv] + list(e.args or ()):
            if isinstance(a, Tok):
                for x in subtoks(canon(a)):
                    if x.op == "item" and x.args[0] is p and is_const(x.args[1]):
                        return True
    return any(x.op == "item" and x.args[0] is p and is_const(x.args[1]) for x in subtoks(canon(o.val)))
