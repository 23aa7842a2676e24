"""P39: healing operations replace exactly the elements they are meant to."""
from fractions import Fraction
from ..tok import T, Tok, const, is_const, cval, subtoks
from ..rl import bodies, canon, flat, where, fname
from .. import heal as H
from .. import symeval as S
from ..symarr import Arr, label, shape
from ..loader import AnalysisError

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the mesh healing methods; node replacements, removals and positions compared per path"
EXPLANATION = ("All paths of the healing methods are enumerated with the mesh operations as opaque events. In every loop over the "
               "elements common to some nodes the removals, the node lists of the elements added instead and the nodes replaced in "
               "them are compared; the elements removed for good, the merged pair, the merged position, the flattened positions and "
               "the conditions that stop or skip healing are evaluated on the tokens.")


def run(ctx):
    ctx.rule("replaced", "an element replaced by new ones is removed, once and before they are added")
    ctx.rule("attributes", "the new elements keep type and tags of the element they replace")
    ctx.rule("split", "each new element has one of the nodes it is searched by replaced by one common node, each end of the split edge once")
    ctx.rule("removed", "elements removed for good contain all the nodes of the collapsed edge, triangle or element")
    ctx.rule("merged", "merging moves the kept node to the middle of both, replaces the removed one in its elements and deletes it")
    ctx.rule("shortest", "the ends of the shortest edge are merged")
    ctx.rule("worst", "the triangle removed is the one of the worst face and its nodes belong to its shape")
    ctx.rule("flat", "nodes of a flat element move to their projections on the plane through their centre")
    ctx.rule("duplicates", "of elements with the same nodes and type just one is kept")
    ctx.rule("skipped", "no element with a quality is skipped unless its quality exceeds the tolerance")
    ctx.rule("ends", "the healing loop is bounded by the growing element number")
    ctx.rule("tolerance", "the node tolerance is relative to the greatest extent of the mesh")
    for f in H.methods(ctx):
        if not f.name.startswith("__"):
            operations(ctx, f)
    merge(ctx)
    flat_positions(ctx)
    duplicates(ctx)
    main_loop(ctx)
    tolerance(ctx)
    ctx.expect("replacing loops", 3)
    ctx.expect("removing loops", 2)
    ctx.expect("merged edges", 2)
    ctx.expect("worst faces", 1)


# ------------------------------------------------------------------------- loops over common elements
def lasts(t):
    """Token without clock and identity parts, for comparison within one path."""
    return noid(canon(t))


def noid(t):
    if not isinstance(t, Tok):
        return t
    if t.op in ("uid", "clk", "site"):
        return T("uid")
    return T(t.op, *[noid(a) for a in t.args if not (isinstance(a, int) and a > 10 ** 9)])


def calls(events, name):
    return [e for e in events if e.kind == "call" and e.name == H.q(name)]


def deep(events):
    for e in events:
        yield e
        if e.kind == "loop":
            for b, fl in bodies(e):
                if fl != "raise":
                    yield from deep(b)


def searched(recv):
    """(node list, collection) of a loop over the elements common to some nodes."""
    t = H.strip(canon(recv))
    if H.called(t, "common_elements") and len(t.args) > 2:
        return canon(t.args[2]), t
    if t.op == "item" and H.table(t.args[0]) == "node_els":
        return T("list", 0, canon(t.args[1])), t
    return None


def operations(ctx, f):
    seen = set()
    for o in ctx.run(f, keep_conds=True, policy=H.policy_for(f)):
        if o.flow == "raise":
            continue
        evs = list(o.events())
        shortest(ctx, f, evs)
        for e in deep(evs):
            if e.kind == "loop" and e.recv is not None and searched(e.recv) and id(e) not in seen:
                seen.add(id(e))
                loop(ctx, f, e, evs)


def loop(ctx, f, e, evs):
    wh = where(f)
    nodes, coll = searched(e.recv)
    for b, fl in bodies(e):
        if fl == "raise":
            continue
        removed = [i for i, x in enumerate(b) if x.kind == "call" and x.name == H.q("remove_element") and len(x.args) > 1 and current(x.args[1], coll)]
        adds = [x for x in deep(b) if x.kind == "call" and x.name == H.q("add_element") and len(x.args) > 1]
        inside = [x for x in deep(b) if x.kind == "call" and x.name == H.q("remove_element") and len(x.args) > 1 and current(x.args[1], coll)]
        if adds:
            ctx.saw("replacing loops", fname(f.qual))
            ctx.check(len(inside) == 1 and len(removed) == 1, "replaced", fname(f.qual), "an element stays in the mesh (or is removed twice) with the elements made to replace it", wh)
            if len(removed) == 1:
                first = [i for i, x in enumerate(b) if any(y in adds for y in deep([x]))]
                ctx.check(first[0] > removed[0], "replaced", fname(f.qual), "the new elements are added before the replaced one is removed", wh, key=fname(f.qual) + ":order")
            for x in adds:
                fields(ctx, f, x, coll, wh)
            split(ctx, f, b, nodes, coll, wh)
        elif inside:
            ctx.saw("removing loops", fname(f.qual))
            whole(ctx, f, nodes, wh)
            worst(ctx, f, nodes, evs, wh)


def current(t, coll):
    t = H.strip(canon(t))
    return t.op == "elem" and noid(H.strip(canon(t.args[0]))) == noid(coll)


def fields(ctx, f, x, coll, wh):
    t = canon(x.args[1])
    if t.op == "tuple" and len(t.args) == 3:
        for i, what in ((0, "type"), (1, "tags")):
            v = H.strip(canon(t.args[i]))
            if v.op == "item" and is_const(v.args[1]):
                ctx.check(cval(v.args[1]) in (i, i - 3) and of_current(v.args[0], coll), "attributes", fname(f.qual),
                          "the %s of the new element is not that of the replaced one" % what, wh)
            elif is_const(v):
                ctx.bad("attributes", fname(f.qual), "the %s of the new element is fixed" % what, wh)


def of_current(t, coll):
    t = H.strip(canon(t))
    return t.op == "item" and H.table(t.args[0]) == "elements" and current(t.args[1], coll)


def whole(ctx, f, nodes, wh):
    """The nodes of elements that disappear: a complete list, not a part of one."""
    t = H.strip(nodes)
    part = t.op == "item" and canon(t.args[1]).op == "slice"
    if t.op in ("list", "tuple"):
        items = [x for x in t.args if isinstance(x, Tok)]
        part = len({noid(canon(x)) for x in items}) < 2
    ctx.check(not part, "removed", fname(f.qual), "elements are removed although they contain only some of the collapsed nodes", wh)


def worst(ctx, f, nodes, evs, wh):
    """Nodes taken from a face table: the entry of the worst face, the entry the examined shape was made of."""
    t = H.strip(nodes)
    if t.op != "item" or canon(t.args[1]).op in ("slice", "tuple"):
        return
    x = H.strip(canon(t.args[1]))
    k = None
    if x.op == "item" and "vtxs_faces" in [a for s in subtoks(canon(x.args[0])) for a in s.args if isinstance(a, str)]:
        k = canon(x.args[1])
        ok = k.op in ("pcall", "call") and str(k.args[0]).split(".")[-1] == "argmin"
        ctx.saw("worst faces", fname(f.qual))
        ctx.check(ok, "worst", fname(f.qual), "the face collapsed is not the one of the least quality", wh)
        for e in deep(evs):
            if e.kind == "call" and str(e.name).endswith((".edge_lens", ".edge_vectors")) and e.args:
                sh = canon(e.args[0])
                if sh.op == "item" and canon(sh.args[0]).op == "comp":
                    ctx.check(noid(canon(sh.args[1])) == noid(k), "worst", fname(f.qual), "the nodes removed are not those of the examined triangle", wh,
                              key=fname(f.qual) + ":pair")


def index_of(t):
    """(list, value) for the position of a value in a list."""
    t = canon(t)
    if t.op in ("pcall", "call") and t.args[0] == ".index":
        return canon(t.args[1]), H.strip(canon(t.args[2]))
    return None


def split(ctx, f, b, nodes, coll, wh):
    """Nodes replaced per added element; all replaced positions of one iteration belong to distinct searched nodes."""
    done, news, known = [], set(), True

    def block(evs, around):
        sets = []
        for x in evs:
            if x.kind == "loop":
                for bb, fl in bodies(x):
                    if fl != "raise":
                        block(bb, around + [x])
            if x.kind == "setitem" and len(x.args) > 1:
                i = index_of(x.args[0])
                if i and of_node_list(i[0], coll):
                    sets.append((i[1], noid(canon(x.args[1])), around, canon(x.recv)))
            if x.kind == "call" and x.name == H.q("add_element"):
                t = canon(x.args[1])
                mine = [y for y in sets if t.op != "tuple" or y[3] == canon(t.args[2])]
                if mine:
                    done.append(mine)
                sets[:] = [y for y in sets if y not in mine]
    block(b, [])
    if not done:
        return
    given = H.strip(nodes)
    members = [noid(H.strip(canon(x))) for x in given.args if isinstance(x, Tok)] if given.op in ("list", "tuple") else None
    got = []
    for sets in done:
        ctx.check(len(sets) == 1, "split", fname(f.qual), "a new element differs from the replaced one by %d nodes" % len(sets), wh)
        n, v, around, _ = sets[0]
        news.add(v)
        if members is not None:
            ctx.check(noid(n) in members, "split", fname(f.qual), "a node the element need not have is replaced", wh)
            got.append(noid(n))
        elif n.op == "elem":
            over = H.strip(canon(n.args[0]))
            ctx.check(noid(over) == noid(given) or over.op in ("phi", "lphi"), "split", fname(f.qual),
                      "the replaced nodes are not those the elements were searched by", wh)
            got.append("all")
    ctx.check(len(news) == 1, "split", fname(f.qual), "the new elements do not share the splitting node", wh)
    if members is not None and got:
        ctx.check(len(set(got)) == len(got) == 2, "split", fname(f.qual), "the ends of the split edge are not replaced once each", wh)
    if members is not None:
        ctx.check(not (news & set(members)), "split", fname(f.qual), "an end of the edge is used to split it", wh)


def of_node_list(t, coll):
    t = H.strip(canon(t))
    if t.op == "item" and is_const(t.args[1]) and cval(t.args[1]) in (2, -1):
        return of_current(t.args[0], coll)
    return t.op in ("lphi", "phi")


# ------------------------------------------------------------------------------------ shortest edge
def shortest(ctx, f, evs):
    for e in deep(evs):
        if e.kind != "call" or e.name != H.q("merge_node") or len(e.args) < 2:
            continue
        args = [H.strip(canon(a)) for a in e.args[1:] if isinstance(a, Tok)]
        base = set()
        for a in args[:2]:
            if a.op == "item" and is_const(a.args[1]) and cval(a.args[1]) in (0, 1, -1):
                base.add(noid(H.strip(canon(a.args[0]))))
            elif a.op == "item":
                base.add(noid(a))
        for b in base:
            sel = [s for s in subtoks(b) if s.op == "item" and isinstance(s.args[0], Tok) and s.args[0].op in ("attr", "clsattr") and "edges" in s.args[0].args]
            if not sel:
                continue
            ctx.saw("merged edges", fname(f.qual))
            k = sel[0].args[1]
            ok = k.op in ("pcall", "call") and str(k.args[0]).split(".")[-1] == "argmin" and any("edge_lens" in str(x) for s in subtoks(k) for x in s.args if isinstance(x, str))
            ctx.check(ok, "shortest", fname(f.qual), "the merged nodes are not the ends of the shortest edge", where(f))
            ctx.check(len(base) == 1, "shortest", fname(f.qual), "the merged nodes belong to different edges", where(f), key=fname(f.qual) + ":pair")


# -------------------------------------------------------------------------------------------- merge
def merge(ctx):
    f = ctx.prog.func(H.q("merge_node"))
    rm, keep = [T("param", p) for p in f.pos_params()[1:3]]
    wh = where(f)
    for o in ctx.run(f, keep_conds=True, policy=H.policy_for(f)):
        if o.flow == "raise":
            continue
        evs = list(o.events())
        gone = [H.strip(canon(e.args[1])) for e in calls(evs, "remove_node")]
        ctx.check(gone == [rm], "merged", "deleted", "the removed node is not the one deleted", wh)
        moves = calls(evs, "move_node")
        ctx.check(len(moves) == 1 and H.strip(canon(moves[0].args[1])) == keep, "merged", "moved", "the kept node is not the one moved", wh)
        for m in moves:
            p = middle(m.args[2], rm, keep)
            if p is not None:
                ctx.check(p, "merged", "position", "the position is not the middle of both nodes", wh)
        for e in deep(evs):
            if e.kind != "loop" or e.recv is None or not searched(e.recv):
                continue
            nodes, coll = searched(e.recv)
            t = H.strip(nodes)
            if t.op not in ("list", "tuple"):
                continue
            given = {canon(x) for x in t.args if isinstance(x, Tok)}
            subst = set()
            adding = any(x.kind == "call" and x.name == H.q("add_element") for b, fl in bodies(e) for x in deep(b))
            if not adding:
                ctx.check(given == {rm, keep}, "removed", fname(f.qual), "elements without both merged nodes are removed", wh)
            else:
                ctx.check(given == {rm}, "merged", "replaced", "the elements rewritten are not those of the removed node", wh)
            for b, fl in bodies(e):
                for x in deep(b):
                    if x.kind == "call" and x.name == H.q("add_element"):
                        subst |= substitution(canon(x.args[1]))
            if adding and subst:
                ctx.check(subst == {keep, "same"}, "merged", "substitution", "the removed node is not replaced by the kept one", wh)
                conds = [canon(c.recv) for b, fl in bodies(e) for c in deep(b) if c.kind == "cond" and canon(c.recv).op == "op" and canon(c.recv).args[0] == "=="
                         and any(isinstance(y, Tok) and canon(y).op == "elem" for y in canon(c.recv).args[1:])]
                for c in conds:
                    ctx.check(rm in [canon(y) for y in c.args[1:]], "merged", "substitution", "another node than the removed one is replaced", wh)


def substitution(t):
    """What a node of the old list becomes in the new one: a token or 'same'."""
    out = set()
    if t.op == "tuple" and len(t.args) == 3:
        c = H.strip(canon(t.args[2]))
        if c.op == "comp" and len(c.args) > 2:
            x = canon(c.args[1])
            for y in [x] if x.op != "ite" else [canon(z) for z in x.args[1:]]:
                out.add("same" if y.op == "elem" else y)
    return out


def middle(t, rm, keep):
    """True/False when the position is / is not the mean of the positions of both nodes; None when not recognised."""
    table = {}
    for n, s in ((rm, "r"), (keep, "k")):
        table[n] = [S.sym(s + "0"), S.sym(s + "1"), S.sym(s + "2")]

    def val(x):
        x = H.strip(canon(x))
        if x.op == "item" and H.table(x.args[0]) == "nodes":
            n = H.strip(canon(x.args[1]))
            if n in table:
                return table[n]
            if n.op == "elem":
                return None
        if x.op in ("pcall", "call"):
            n = str(x.args[0]).split(".")[-1]
            if n in ("average", "mean"):
                a = canon(x.args[1])
                if a.op in ("list", "tuple"):
                    vs = [val(y) for y in a.args if isinstance(y, Tok)]
                    if vs and all(v is not None for v in vs) and not any(y.op == "kw" and y.args[0] == "weights" for y in x.args if isinstance(y, Tok)):
                        return [S.mul(S.total(c), S.num(Fraction(1, len(vs)))) for c in zip(*vs)]
                if a.op == "comp":
                    e = val_elem(a)
                    if e is not None:
                        return [S.mul(S.total(c), S.num(Fraction(1, len(e)))) for c in zip(*e)]
            return None
        if x.op == "op" and x.args[0] in ("+", "-"):
            a, b = val(x.args[1]), val(x.args[2])
            if a is None or b is None:
                return None
            return [S.add(p, q, 1 if x.args[0] == "+" else -1) for p, q in zip(a, b)]
        if x.op == "op" and x.args[0] in ("*", "/"):
            for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                v = val(a)
                if v is not None and is_const(canon(b)):
                    c = Fraction(str(cval(canon(b))))
                    return [S.mul(p, S.num(c if x.args[0] == "*" else 1 / c)) for p in v]
        return None

    def val_elem(a):
        coll = H.strip(canon(a.args[2] if len(a.args) > 2 and isinstance(a.args[2], Tok) else a.args[1]))
        if coll.op == "item" and canon(coll.args[0]).op in ("list", "tuple") and canon(coll.args[1]).op == "slice":
            ks = [cval(x) if is_const(x) else None for x in canon(coll.args[1]).args]
            return [table[canon(x)] for x in [y for y in canon(coll.args[0]).args if isinstance(y, Tok)][slice(*ks)] if canon(x) in table] or None
        if coll.op in ("list", "tuple"):
            return [table[canon(x)] for x in coll.args if isinstance(x, Tok) and canon(x) in table] or None
        return None
    v = val(t)
    if v is None:
        return None
    return all(S.zero(S.add(p, S.mul(S.add(a, b), S.num(Fraction(1, 2))), -1)) for p, a, b in zip(v, table[rm], table[keep]))


# --------------------------------------------------------------------------------------------- flat
NORMALS = (((1, 2, 2), 3), ((2, -6, 3), 7), ((-4, 1, 8), 9), ((6, 10, 15), 19))


def flat_positions(ctx):
    """move_node(ids[i], X[i]) for all nodes of a flat element: X is the orthogonal projection on the plane through the centre."""
    done = {}
    for f in H.methods(ctx):
        for o in ctx.run(f, keep_conds=True, policy=H.policy_for(f)):
            if o.flow == "raise":
                continue
            for e in deep(o.events()):
                if e.kind != "call" or e.name != H.q("move_node") or len(e.args) < 3:
                    continue
                n, x = H.strip(canon(e.args[1])), canon(e.args[2])
                if n.op != "elem" or x.op not in ("elem", "item"):
                    continue
                X = e.args[2].args[0] if e.args[2].op == x.op else x.args[0]
                if canon(X).op == "param" or not any("common_normal" in str(y) for s in subtoks(canon(X)) for y in s.args if isinstance(y, str)):
                    continue
                k = (f.qual, noid(canon(X)))
                if k not in done:
                    done[k] = projected(ctx, X)
                ctx.saw("flattened elements", fname(f.qual))
                if done[k] is not None:
                    ctx.check(done[k] is True, "flat", fname(f.qual), "nodes of a flat element are %s" % done[k], where(f))
    ctx.expect("flattened elements", 1)


def plain(t):
    """Results of changes in place as the results of the operations."""
    if not isinstance(t, Tok):
        return t
    if t.op == "aug":
        return T("op", t.args[0], plain(t.args[1]), plain(t.args[2]))
    return T(t.op, *[plain(a) for a in t.args])


def projected(ctx, X):
    nodes = [[S.sym("n%d%d" % (i, j)) for j in range(3)] for i in range(4)]
    for v, length in NORMALS:
        v = [S.num(Fraction(c)) for c in v]

        def attr(x, name, ev):
            return nodes if name == "nodes" else None

        def call(t, args, ev):
            n = str(t.args[0])
            if n.endswith(".common_normal"):
                return v
            if n in ("numpy.average", "numpy.mean", ".mean") and len(t.args) == 2:
                a = ev(t.args[1])
                if S.isarr(a) and not S.isarr(a[0]):
                    return S.mul(S.total(a), S.num(Fraction(1, len(a))))
            if n.endswith("linalg.norm") and len(t.args) > 1:
                a = ev(t.args[1])
                if S.isarr(a) and len(a) == 3 and all(S.zero(S.add(p, q, -1)) for p, q in zip(a, v)):
                    return S.num(Fraction(length))
            return None
        try:
            got = Arr(attr=attr, call=call)(label(plain(X)))
        except S.Unknown as err:
            ctx.notes.append("flattened positions not evaluated (%s)" % err)
            return None
        if shape(got)[:2] != [4, 3]:
            return None
        for p, q in zip(got, nodes):
            d = [S.add(a, b, -1) for a, b in zip(p, q)]
            if not all(S.zero(y) for y in S.cross(d, v)):
                return "moved in another direction than the normal of the plane"
        for p in got[1:]:
            if not S.zero(S.total(S.mul(S.add(a, b, -1), c) for a, b, c in zip(p, got[0], v))):
                return "not moved into one plane"
        for j in range(3):
            if not S.zero(S.total(S.add(p[j], q[j], -1) for p, q in zip(got, nodes))):
                return "moved to a plane that does not pass through their centre"
    return True


# --------------------------------------------------------------------------------------- duplicates
def number_test(t, what):
    """Truth for the lengths 1 and 2 of a comparison of len(what) with a constant."""
    t = canon(t)
    if t.op in ("nonempty",) or t.op == "op" and t.args[0] == "not":
        return None
    if t.op == "op" and len(t.args) == 3:
        a, b = canon(t.args[1]), canon(t.args[2])

        def v(x, n):
            if is_const(x):
                return cval(x)
            if x.op == "op" and x.args[0] == "len" and H.called(H.strip(canon(x.args[1])), what):
                return n
            return None
        res = []
        for n in (1, 2):
            p, q = v(a, n), v(b, n)
            if p is None or q is None or is_const(a) and is_const(b):
                return None
            res.append({"<": p < q, "<=": p <= q, "==": p == q, "!=": p != q, ">": p > q, ">=": p >= q}.get(t.args[0]))
        return None if None in res else res
    return None


def duplicates(ctx):
    f = ctx.prog.func(H.q("_check_duplicate_element")) if H.q("_check_duplicate_element") in ctx.prog.funcs else None
    if f is None:
        raise AnalysisError("no _check_duplicate_element")
    wh = where(f)
    found = False
    for o in ctx.run(f, keep_conds=True, policy=H.policy_for(f)):
        evs = list(o.events())
        tests = [(number_test(e.recv, "is_duplicate_el"), bool(e.name)) for e in evs if e.kind == "cond"]
        tests = [(r, truth) for r, truth in tests if r]
        two = all(r[1] == truth for r, truth in tests)            # taken for two elements
        removing = calls(deep(evs), "remove_element")
        if two and o.flow != "raise":
            found = True
            ctx.check(bool(removing), "duplicates", "removed", "a pair of equal elements stays in the mesh", wh)
        for e in evs:
            if e.kind == "loop":
                if H.called(H.strip(canon(e.recv)), "is_duplicate_el") and all(
                        calls(deep(b), "remove_element") and not [c for c in b if c.kind == "cond"] for b, fl in bodies(e)):
                    ctx.bad("duplicates", "kept", "all equal elements are removed", wh)
                for b, fl in bodies(e):
                    same = [bool(c.name) for c in b if c.kind == "cond" and same_id(c.recv)]
                    differ = [not t for t in same]
                    rem = calls(deep(b), "remove_element")
                    if same:
                        ctx.check(bool(rem) == (not same[-1]) and fl in ("next", "continue"), "duplicates", "kept", "not all equal elements but one are removed", wh)
    ctx.check(found, "duplicates", "removed", "equal elements are not removed", wh, key="none")


def same_id(t):
    t = canon(t)
    return t.op == "op" and t.args[0] in ("==",) and any(isinstance(x, Tok) and canon(x).op == "elem" for x in t.args[1:])


# ---------------------------------------------------------------------------------------- main loop
def dims(t):
    """Dimensions for which a comparison of the dimension of a shape with a constant holds."""
    t = canon(t)
    if t.op != "op" or len(t.args) != 3:
        return None
    a, b = canon(t.args[1]), canon(t.args[2])

    def is_dim(x):
        return x.op == "attr" and x.args[1] == "dim"
    if not (is_dim(a) and is_const(b) or is_dim(b) and is_const(a)):
        return None
    out = set()
    for d in range(4):
        p, q = (d, cval(b)) if is_dim(a) else (cval(a), d)
        r = {"<": p < q, "<=": p <= q, "==": p == q, "!=": p != q, ">": p > q, ">=": p >= q}.get(t.args[0])
        if r is None:
            return None
        if r:
            out.add(d)
    return out


def quality_test(t):
    """[truth means quality above the tolerance]"""
    t = canon(t)
    if t.op != "op" or t.args[0] not in ("<", "<=", ">", ">=") or len(t.args) != 3:
        return None
    a, b = canon(t.args[1]), canon(t.args[2])
    qa, qb = [any(isinstance(x, str) and x.endswith("gmsh_gamma") for s in subtoks(y) for x in s.args) for y in (a, b)]
    if qa == qb:
        return None
    above = (t.args[0][0] == "<") == qb
    return [above]


def main_loop(ctx):
    f = ctx.prog.func(H.q("heal_mesh"))
    wh = where(f)
    checks = set()
    for o in ctx.run(f, keep_conds=True, policy=H.policy_for(f)):
        for e in o.events():
            if e.kind != "loop":
                continue
            bs = [(list(b), fl) for b, fl in bodies(e)]
            if not any(calls(b, "_make_element") for b, fl in bs):
                continue
            for b, fl in bs:
                for x in b:
                    if x.kind == "call" and str(x.name).startswith(H.q("_check")):
                        checks.add(x.name)
            for b, fl in bs:
                if fl == "break" or fl == "return":
                    last = [c for c in b if c.kind == "cond"]
                    ctx.saw("loop ends", "break")
                    r = canon(last[-1].recv) if last else None
                    sides = [canon(x) for x in r.args[1:] if isinstance(x, Tok)] if last and r.op == "op" else []
                    grows = [x for x in sides if not any(y.op == "param" and y != T("param", "self") for y in subtoks(x))] or sides
                    ok = bool(grows) and all(any(y.op == "attr" and y.args[1] == "max_ele_id" for y in subtoks(x)) for x in grows)
                    empty = last and canon(last[-1].recv).op == "nonempty"
                    ctx.check(bool(ok or empty), "ends", "bound", "healing stops (or goes on) for another reason than the growing element number", wh)
                    continue
                if fl == "raise" or not calls(b, "_make_element"):
                    continue
                done = {x.name for x in b if x.kind == "call" and str(x.name).startswith(H.q("_check"))}
                if done == checks:
                    continue
                # why did it stop before the remaining checks
                conds = [c for c in b if c.kind == "cond"]
                c = conds[-1]
                r = canon(c.recv)
                q, d = quality_test(r), dims(r)
                if q is not None:
                    ctx.check(q[0] == bool(c.name), "skipped", "quality", "an element of a quality below the tolerance is not healed", wh)
                elif d is not None:
                    skipped = d if c.name else set(range(4)) - d
                    ctx.check(not (skipped - {0, 1}), "skipped", "dimension", "elements of dimension %s are not healed" % sorted(skipped - {0, 1}), wh)
                else:
                    known = r.op == "nonempty" and bool(c.name) or r.op == "op" and r.args[0] == "in" and not c.name or \
                        r.op in ("call", "pcall") and bool(c.name)
                    if not known:
                        ctx.notes.append("a reason to skip the rest of the checks was not recognised: %s" % r)


# ---------------------------------------------------------------------------------------- tolerance
def tolerance(ctx):
    f = ctx.prog.find_method(ctx.prog.cls(H.HM), "__init__")
    wh = where(f)
    for o in ctx.run(f, keep_conds=True, carry=True, policy=lambda g: None if getattr(getattr(g, "cls", None), "qual", None) == H.HM else "opaque"):
        if o.flow == "raise":
            continue
        evs = list(o.events())
        w = [e for e in evs if e.kind == "write" and e.name == "_abs_node_tol"]
        ctx.check(bool(w), "tolerance", "set", "the tolerance is not set", wh)
        carried = {}
        for e in evs:
            if e.kind == "loop":
                for b, fl in bodies(e):
                    for c in b:
                        if c.kind == "carry":
                            for a, v in zip(c.args[::2], c.args[1::2]):
                                carried[canon(a)] = canon(v)
        for e in w:
            t = canon(e.args[-1])
            ctx.check(any(s == T("param", "node_tol") for s in subtoks(t)), "tolerance", "relative", "the given tolerance is not used", wh)
            for s in subtoks(t):
                if s.op == "op" and s.args[0] == "-" and all(isinstance(x, Tok) and canon(x).op == "lphi" for x in s.args[1:3]):
                    hi, lo = canon(s.args[1]), canon(s.args[2])
                    for x, fun, sign, what in ((hi, "maximum", True, "upper"), (lo, "minimum", False, "lower")):
                        v = carried.get(x)
                        n = str(v.args[0]).split(".")[-1] if v is not None and v.op in ("pcall", "call") else None
                        if n is not None:
                            ctx.check(n == fun and x in [canon(y) for y in v.args[1:] if isinstance(y, Tok)], "tolerance", what,
                                      "the %s bound of the mesh is not the %s over its nodes" % (what, fun), wh)
                        neg = any(y.op == "op" and y.args[0] == "neg" for y in subtoks(x))
                        ctx.check(neg == sign, "tolerance", what + "/start", "the %s bound starts from the wrong infinity" % what, wh)
