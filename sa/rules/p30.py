"""P30: cached derived values agree with the data they derive from."""
import ast
from ..loader import AnalysisError
from ..tok import T, Tok, NONE, subtoks, is_const, cval
from ..rl import bodies, fname, where, canon, flat

LEVEL = "other"
TECHNIQUE = "typestate analysis of lazily filled attributes (absent/present) on all abstract paths plus dependence and ownership analysis of their sources"
EXPLANATION = ("Every attribute filled on first use is found from the branch on its absence; on each abstract path of the filling query "
               "the present value has to be returned untouched, the absent one computed from the owner's own data, stored under the "
               "tested attribute and returned; no other code may write or modify it in place except to drop or recompute it, and "
               "code replacing the data it derives from has to drop it.")


class Lazy:
    def __init__(self, cls, name):
        self.cls, self.name, self.init = cls, name, set()
        self.fillers, self.sources, self.tests = set(), set(), set()


def run(ctx):
    ctx.rule("present", "a stored value is returned unchanged and not written again")
    ctx.rule("absent", "an absent value is computed, stored under its own name and returned")
    ctx.rule("own", "a stored value derives only from the data of its owner")
    ctx.rule("initial", "objects start without the value")
    ctx.rule("writes", "only the computing code and resets write the value")
    ctx.rule("stale", "replacing the data drops or recomputes the values derived from them")
    ctx.rule("inplace", "a stored value is not modified in place")
    ctx.rule("tree", "the search tree is built over exactly the stored boxes before it is stored")
    ctx.rule("cover", "the box of a patch covers all poles of the patch")
    lazies = find(ctx)
    ctx.notes.append("lazily filled attributes: " + ", ".join(sorted("%s.%s" % (fname(l.cls.qual), l.name) for l in lazies.values())))
    for l in lazies.values():
        ctx.saw("lazy attributes", "%s.%s" % (fname(l.cls.qual), l.name))
        initial(ctx, l)
    for q in sorted({f for l in lazies.values() for f in l.fillers}):
        query(ctx, ctx.prog.funcs[q], lazies)
    writes(ctx, lazies)
    stale(ctx, lazies)
    inplace(ctx, lazies)
    cover(ctx)
    ctx.expect("lazy attributes", 9)


def absence(e):
    """(attribute, is absent) of a branch on the presence of an attribute of self."""
    if e.kind != "cond" or not isinstance(e.recv, Tok):
        return None
    c, truth = canon(e.recv), str(e.name) == "True"
    while c.op == "op" and c.args[0] == "not":
        c, truth = canon(c.args[1]), not truth
    if c.op == "nonempty":
        a, truth = canon(c.args[0]), not truth
    elif c.op == "attr":
        a, truth = c, not truth
    elif c.op == "op" and c.args[0] in ("is", "==") and len(c.args) == 3:
        x = [canon(y) for y in c.args[1:]]
        if NONE not in x:
            return None
        a = x[0] if x[1] is NONE else x[1]
    else:
        return None
    if a.op == "attr" and isinstance(a.args[0], Tok) and a.args[0].op == "param" and a.args[0].args[0] == "self":
        return a.args[1], truth
    return None


def private(name):
    """Public fields may be set by the user, they are options and not stored results."""
    return name.startswith("_") and not name.startswith("__")


def queries(ctx):
    """Argument-less methods (properties and queries) of all classes."""
    for c in ctx.prog.classes.values():
        own, ext = ctx.prog.mro(c)
        stored = {x.attr for k in own for m in k.methods.values() if m.name != "__init__" for x in ast.walk(m.node)
                  if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self" and
                  private(x.attr)}
        if not stored:
            continue
        for m in c.methods.values():
            if m.name == "__init__" or len(m.pos_params()) != 1 or m.deco_is(ctx.prog, "builtins.staticmethod") or m.deco_is(ctx.prog, "builtins.classmethod"):
                continue
            # only methods with a test of an own attribute
            for n in ast.walk(m.node):
                if isinstance(n, (ast.If, ast.IfExp, ast.Assert)) and any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and
                                                                           x.value.id == "self" and x.attr in stored for x in ast.walk(n.test)):
                    yield c, m
                    break


_paths = {}


def paths(ctx, m):
    k = (id(ctx), m.qual)
    if k not in _paths:
        _paths[k] = [o for o in ctx.run(m, keep_conds=True) if o.flow != "raise"]
    return _paths[k]


def find(ctx):
    """Attributes with a query that returns the stored value when present and stores a value when absent."""
    out = {}
    for c, m in queries(ctx):
        if not has_return(m):
            continue
        pres, filled, tests = set(), set(), set()
        for o in paths(ctx, m):
            w = {e.name for e in o.events() if e.kind == "write" and is_self(e.recv) and private(e.name)}
            for e in o.events():
                a = absence(e)
                if a:
                    tests.add(a[0])
                    if a[1]:
                        filled |= w
                    else:
                        v = canon(o.val) if o.val is not None else NONE
                        pres.add(a[0])
        inverted(ctx, m)
        for n in sorted(filled if pres & filled else ()):
            if not returns_attr(ctx, m, n):
                continue
            owner = init_owner(ctx, c, n) or c
            l = out.setdefault((owner.qual, n), Lazy(owner, n))
            l.fillers.add(m.qual)
            l.tests |= tests
    return out


def inverted(ctx, m):
    """A query does not return an attribute it has just found absent while it fills it when present."""
    writes_, empty = set(), {}
    for o in paths(ctx, m):
        evs = o.events()
        w = {e.name for e in evs if e.kind == "write" and is_self(e.recv) and private(e.name)}
        writes_ |= w
        v = canon(o.val) if o.val is not None else NONE
        for e in evs:
            a = absence(e)
            if a and a[1] and a[0] not in w and private(a[0]) and (v.op == "attr" and is_self(v.args[0]) and v.args[1] == a[0]):
                empty[a[0]] = e
    for n in sorted(writes_ & set(empty)):
        ctx.bad("absent", fname(m), "%s is returned although absent, it is computed only when present" % n, m.loc(m.node),
                key="inverted:%s:%s" % (fname(m), n))


def has_return(m):
    return any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(m.node))


def returns_attr(ctx, m, n):
    """Some return of the query names the attribute (directly or as the value just stored)."""
    for o in paths(ctx, m):
        v = canon(o.val) if o.val is not None else NONE
        if any(x.op == "attr" and x.args[1] == n and is_self(x.args[0]) for x in subtoks(v)):
            return True
    return False


def is_self(t):
    t = canon(t) if isinstance(t, Tok) else t
    return isinstance(t, Tok) and t.op == "param" and t.args[0] == "self"


def init_owner(ctx, c, n):
    own, ext = ctx.prog.mro(c)
    for k in own:
        i = k.methods.get("__init__")
        if i is not None and any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Store) for x in ast.walk(i.node)):
            return k
    return None


def initial(ctx, l):
    init = l.cls.methods.get("__init__")
    if init is None:
        return
    for o in paths(ctx, init):
        w = [e for e in o.events() if e.kind == "write" and e.name == l.name and is_self(e.recv)]
        if not w:
            continue
        v = canon(w[-1].args[0])
        ok = v is NONE or is_const(v) and not cval(v) and only_falsy(ctx, l)
        ctx.check(ok or computed(v), "initial", "%s.%s" % (fname(l.cls.qual), l.name), "objects start with a value not computed from their data",
                  where(w[-1]), key="%s.%s" % (fname(l.cls.qual), l.name))


def only_falsy(ctx, l):
    """All tests of the attribute use its truth value."""
    for q in l.fillers:
        for o in paths(ctx, ctx.prog.funcs[q]):
            for e in o.events():
                a = absence(e)
                if a and a[0] == l.name and canon(e.recv).op == "op":
                    return False
    return True


def computed(v):
    """The value is a result computed from something (not a constant or an empty container)."""
    return v.op in ("call", "pcall", "comp", "op", "attr", "phi") and any(x.op in ("param", "attr") for x in subtoks(v))


def query(ctx, m, lazies):
    fn = fname(m)
    own, ext = ctx.prog.mro(m.cls)
    names = {n for (q, n), l in lazies.items() if q in [k.qual for k in own] or m.qual in l.fillers}
    for o in paths(ctx, m):
        ctx.saw("query paths", fn)
        evs = o.events()
        state = {}
        for e in evs:
            a = absence(e)
            if a and a[0] in names and a[0] not in state:
                state[a[0]] = a[1]
        wr = {}
        for e in evs:
            if e.kind == "write" and is_self(e.recv) and e.name in names:
                wr[e.name] = e
        v = canon(o.val) if o.val is not None else NONE
        for n, e in wr.items():
            if state.get(n) is False:
                ctx.bad("present", fn, "the stored %s is overwritten" % n, where(e), key="overwrite:%s:%s" % (fn, n))
            ts = list(subtoks(canon(e.args[0])))
            foreign = [x for x in ts if x.op == "param" and x.args[0] != "self"]
            ctx.check(not foreign, "own", fn, "the stored %s derives from other data than those of its owner" % n, where(e), key="own:%s:%s" % (fn, n))
        ret = [x for x in [v] if x.op == "attr" and is_self(x.args[0]) and x.args[1] in names]
        if ret:
            n = ret[0].args[1]
            if n not in wr:
                known = state.get(n)
                if known is None:
                    # another attribute always filled and dropped together with it was tested
                    known = False if any(st is False and together(ctx, lazies, k, n) for k, st in state.items()) else None
                ctx.check(known is False, "absent", fn, "%s is returned %s" % (n, "although absent" if known else "without a test of its presence"),
                          m.loc(m.node), key="absent:%s:%s" % (fn, n))
        elif wr and not ret:
            vals = {n: canon(e.args[0]) for n, e in wr.items()}
            main = [n for n in vals if n in state]
            if main and v is not NONE:
                # the value computed on this path is what is returned
                ctx.check(any(v is vals[n] for n in vals), "absent", fn, "the first query returns something else than it stores",
                          m.loc(m.node), key="first:" + fn)
                for n in main:
                    if v is not vals[n] and any(v is vals[k] for k in vals if k != n) and state.get(n):
                        # tests one attribute, returns another one filled together
                        other = [k for k in vals if v is vals[k]][0]
                        ctx.ok("absent", fn + ":" + other)
        present = [n for n, s in state.items() if s is False and n not in wr]
        if present and not wr and not ret and v is not NONE and all(x in names for x in state):
            touched = any(x.op == "attr" and is_self(x.args[0]) and x.args[1] in present for x in subtoks(v)) or v.op == "const"
            if m.deco_is(ctx.prog, "builtins.property") or touched and query_of(m, lazies, present):
                if own_query(m, lazies, present):
                    ctx.check(v.op in ("phi", "lphi"), "present", fn, "the stored %s is not returned as it is" % present[0], m.loc(m.node),
                              key="changed:" + fn)


def query_of(m, lazies, names):
    return any(m.qual in l.fillers for l in lazies.values() if l.name in names)


def own_query(m, lazies, names):
    """Is the method the query of that attribute (it returns the attribute itself), not a user of it?"""
    for l in lazies.values():
        if l.name in names and m.qual in l.fillers:
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and n.attr == l.name and isinstance(n.ctx, ast.Load):
                    return True
    return False


def attr_writes(ctx, names):
    """Functions with the store nodes of attributes of the given names (assignment to them or into them)."""
    out = {}
    for f in ctx.prog.funcs.values():
        for n in ast.walk(f.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and x.attr in names and (isinstance(x.ctx, ast.Store) or isinstance(t, ast.Subscript) and x is base_of(t)):
                        out.setdefault(f.qual, []).append((x, n))
    return out


def base_of(t):
    while isinstance(t, ast.Subscript):
        t = t.value
    return t


def together(ctx, lazies, k, n):
    """Every path of every function that writes one of the attributes writes both, with or without a value."""
    for q in attr_writes(ctx, {k, n}):
        for o in paths(ctx, ctx.prog.funcs[q]):
            w = {e.name: canon(e.args[0]) is NONE for e, l in flat(o.events()) if e.kind == "write" and e.name in (k, n)}
            if len(w) == 1 or len(set(w.values())) > 1:
                return False
    return True


def classes_of(ctx, node):
    return ctx.types.inst_classes(node)


def related(ctx, c, owner):
    c = ctx.prog.classes.get(c) if isinstance(c, str) else c
    if c is None:
        return False
    own, ext = ctx.prog.mro(c)
    if owner.qual in [k.qual for k in own]:
        return True
    own2, ext2 = ctx.prog.mro(owner)
    return c.qual in [k.qual for k in own2]


def writes(ctx, lazies):
    names = {l.name for l in lazies.values()}
    seen = set()
    for q, sites in attr_writes(ctx, names).items():
        f = ctx.prog.funcs[q]
        if f.name == "__init__":
            continue
        for l in lazies.values():
            if any(x.attr == l.name and any(related(ctx, c, l.cls) for c in classes_of(ctx, x.value)) for x, n in sites):
                seen.add((q, l.cls.qual, l.name))
    for q, cq, n in sorted(seen):
        f = ctx.prog.funcs[q]
        fn = fname(f)
        for o in paths(ctx, f):
            for e, loops in flat(o.events()):
                if e.kind != "write" or e.name != n:
                    continue
                v = canon(e.args[0])
                who = canon(e.recv)
                ctx.saw("writes of lazy attributes", "%s:%s" % (fn, n))
                if v is NONE:
                    ctx.ok("writes", fn + ":" + n)
                    continue
                ts = list(subtoks(v))
                mine = any(x is who for x in ts)
                other = [x for x in ts if x.op == "attr" and x.args[1] == n and canon(x.args[0]) is not who]
                if is_self(who) and len(f.pos_params()) == 1 and not other and (allowed(ctx, lazies, f, n) or same_value(ctx, lazies, n, v)):
                    ctx.ok("writes", fn + ":" + n)
                    continue
                ctx.check(mine and not other and not is_self(who) or v.op in ("new", "call") and not other and not is_const(v), "writes", fn,
                          "%s gets %s" % (n, "the value of another object" if other else "a value not derived from its owner"), where(e),
                          key="%s:%s" % (fn, n))


def allowed(ctx, lazies, f, n):
    """The computing query itself or a part of it."""
    from ..rl import callers_of
    todo, seen = [f.qual], set()
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        if any(q in l.fillers and l.name == n for l in lazies.values()):
            return True
        todo += [g.qual for g, c in callers_of(ctx, q) if g.cls is not None and f.cls is not None and related(ctx, g.cls, f.cls) and g.name != "__init__"
                 and (g.qual == f.qual or q == f.qual or g.name.startswith("_"))]
    return False


def same_value(ctx, lazies, n, v):
    for l in lazies.values():
        if l.name == n:
            for q in l.fillers:
                for o in paths(ctx, ctx.prog.funcs[q]):
                    for e in o.events():
                        if e.kind == "write" and e.name == n and is_self(e.recv) and canon(e.args[0]) is v:
                            return True
    return False


def stale(ctx, lazies):
    """Sources of a value: the attributes of self read when it is computed."""
    for l in lazies.values():
        for q in l.fillers:
            for o in paths(ctx, ctx.prog.funcs[q]):
                for e in o.events():
                    if e.kind == "write" and e.name == l.name and is_self(e.recv):
                        ev = list(flat(o.events()))
                        ts = list(subtoks(canon(e.args[0])))
                        for x, lp in ev:
                            for a in [x.recv] + list(x.args or ()):
                                if isinstance(a, Tok) and x.kind in ("setitem", "call"):
                                    ts += list(subtoks(canon(a)))
                        for t in ts:
                            if t.op == "attr" and is_self(t.args[0]):
                                l.sources.add(t.args[1])
    names = {l.name for l in lazies.values()}
    src = {}
    for l in lazies.values():
        l.sources -= names
        for s in l.sources:
            src.setdefault(s, []).append(l)
    for q, sites in sorted(attr_writes(ctx, set(src)).items()):
        f = ctx.prog.funcs[q]
        if f.name == "__init__":
            continue
        hit = {}
        for x, n in sites:
            for l in src.get(x.attr, ()):
                if any(related(ctx, c, l.cls) for c in classes_of(ctx, x.value)):
                    hit.setdefault(x.attr, set()).add(l)
        if not hit:
            continue
        fn = fname(f)
        from ..rl import callers_of
        if f.name.startswith("_") and f.cls is not None and all(g.name == "__init__" or g.cls is f.cls for g, n in callers_of(ctx, q)) and callers_of(ctx, q) \
                and all(g.name == "__init__" for g, n in callers_of(ctx, q)):
            continue
        for o in paths(ctx, f):
            evs = [e for e, lp in flat(o.events())]
            for e in evs:
                s = None
                if e.kind == "write" and e.name in hit:
                    s, who = e.name, canon(e.recv)
                elif e.kind in ("setitem", "aug", "mut", "delitem") and isinstance(e.recv, Tok):
                    b = canon(e.recv)
                    while b.op == "item":
                        b = canon(b.args[0])
                    if b.op == "attr" and b.args[1] in hit:
                        s, who = b.args[1], canon(b.args[0])
                if s is None:
                    continue
                if who.op == "new" or who.op == "copyof":
                    continue   # a new object: its values are still absent
                for l in hit[s]:
                    done = any(x.kind == "write" and x.name == l.name and canon(x.recv) is who for x in evs)
                    ctx.check(done, "stale", fn, "%s is replaced but %s derived from it stays" % (s, l.name), where(e), key="stale:%s:%s:%s" % (fn, s, l.name))
        ctx.saw("replacements of source data", fn)


def inplace(ctx, lazies):
    names = {"." + l.name: l for l in lazies.values()}
    fillers = {q for l in lazies.values() for q in l.fillers}
    for q, s in sorted(ctx.own.sum.items()):
        for loc, kind in s.mod:
            if kind == "set" or loc[0] != "P":
                continue
            hit = [p for p in loc[2] if p in names]
            if hit and q not in fillers:
                f = ctx.prog.funcs.get(q)
                if f is None:
                    continue
                if not (f.cls is not None and any(related(ctx, f.cls, l.cls) for l in [names[hit[0]]]) and sets(ctx, f, hit[0])):
                    ctx.bad("inplace", fname(q), "the stored %s is modified in place" % hit[0][1:], f.loc(f.node), key="%s:%s" % (fname(q), hit[0]))
        ctx.saw("functions checked for in-place changes", fname(q))
    ctx.ok("inplace", "all functions")


def sets(ctx, f, attr):
    return any(l[2] and l[2][-1] == attr and k == "set" for l, k in ctx.own.sum[f.qual].mod)


# ---------------------------------------------------------------- boxes of patches
def cover(ctx):
    for cn, nd in (("bgem.bspline.bspline.Curve", 1), ("bgem.bspline.bspline.Surface", 2)):
        c = ctx.prog.classes.get(cn)
        f = c.methods.get("bounding_boxes") if c else None
        if f is None:
            continue
        fn = fname(f)
        for o in paths(ctx, f):
            evs = o.events()
            w = {e.name: (i, canon(e.args[0])) for i, e in enumerate(evs) if e.kind == "write" and is_self(e.recv)}
            add = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and e.name == ".add_boxes"]
            con = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == ".construct"]
            if "_tree" in w and "_boxes" in w and add:
                ctx.check(any(canon(e.recv) is w["_tree"][1] for i, e in add), "tree", fn, "the stored tree is not the one the boxes were added to",
                          f.loc(f.node), key="tree:" + fn)
                ctx.check(any(len(e.args) and canon(e.args[-1]) is w["_boxes"][1] for i, e in add), "tree", fn,
                          "the tree is built over other boxes than those stored", f.loc(f.node), key="boxes:" + fn)
                ctx.check(bool(con) and con[-1] > add[-1][0], "tree", fn, "the tree is not constructed after its boxes were added", f.loc(f.node),
                          key="construct:" + fn)
            slices(ctx, f, fn, o, nd)
            windows(ctx, f, fn, o, nd)


def rng(t):
    """Extent of the range the token runs over: the token under range(), for elem-of range(...)."""
    t = canon(t)
    if t.op == "elem" and t.args[0].op in ("call", "pcall", "range") and str(t.args[0].args[0]) in ("builtins.range", "range"):
        a = [x for x in t.args[0].args[1:] if isinstance(x, Tok) and x.op not in ("ver", "v0", "uid", "clk")]
        return a
    return None


def slices(ctx, f, fn, o, nd):
    """Direct windows poles[i:i+k]."""
    toks = [x for e, l in flat(o.events()) for a in [e.recv] + list(e.args or ()) if isinstance(a, Tok) for x in subtoks(canon(a))]
    for x in set(toks):
        if x.op == "item" and canon(x.args[0]).op == "attr" and x.args[0].args[1] == "poles":
            k = x.args[1]
            ks = k.args if k.op == "tuple" else [k]
            for s in ks[:nd]:
                if isinstance(s, Tok) and s.op == "slice":
                    lo, hi = s.args[0], s.args[1]
                    w = width(lo, hi)
                    if w is not None:
                        ctx.check(w >= 3, "cover", fn, "the box of a patch covers %d poles instead of 3 in one direction" % w, f.loc(f.node), key="width:" + fn)
                        ctx.saw("pole windows", fn)


def width(lo, hi):
    lo, hi = canon(lo), canon(hi)
    if lo.op == "const" and hi.op == "const" or lo is NONE or hi is NONE:
        return None
    if hi.op == "op" and hi.args[0] == "+":
        rest = [x for x in hi.args[1:] if x is not lo]
        if len(rest) == 1 and is_const(rest[0]):
            return cval(rest[0])
        if lo.op == "op" and lo.args[0] == "+":
            b1 = [x for x in lo.args[1:] if is_const(x)]
            b2 = [x for x in hi.args[1:] if is_const(x)]
            if b1 and b2 and [x for x in lo.args[1:] if not is_const(x)] == [x for x in hi.args[1:] if not is_const(x)]:
                return cval(b2[0]) - cval(b1[0])
    return None


def windows(ctx, f, fn, o, nd):
    """Windows filled item by item: the offsets taken from the poles and the rows they are stored to."""
    per = {}
    for e, loops in flat(o.events()):
        if e.kind == "setitem" and isinstance(e.args[1], Tok):
            v = canon(e.args[1])
            if v.op == "item" and canon(v.args[0]).op == "attr" and v.args[0].args[1] == "poles" and v.args[1].op == "tuple":
                offs = [offset(x) for x in v.args[1].args[:nd]]
                k = canon(e.args[0])
                row = k.args[0] if k.op == "tuple" else k
                per.setdefault(canon(e.recv), []).append((tuple(offs), row, e))
    for arr, items in per.items():
        if any(None in offs for offs, r, e in items):
            continue
        bases = {tuple(b for b, d in offs) for offs, r, e in items}
        if len(bases) != 1:
            continue
        ctx.saw("pole windows", fn)
        ds = {tuple(d for b, d in offs) for offs, r, e in items}
        want = {(i, j) for i in range(3) for j in range(3)} if nd == 2 else {(i,) for i in range(3)}
        ctx.check(want <= ds, "cover", fn, "the box of a patch does not cover all its poles", where(items[0][2]), key="offsets:" + fn)
        rows = [r for offs, r, e in items]
        if all(is_const(r) for r in rows):
            pairs = {}
            for offs, r, e in items:
                pairs.setdefault(cval(r), set()).add(tuple(d for b, d in offs))
            ctx.check(all(len(s) == 1 for s in pairs.values()), "cover", fn, "poles of a patch overwrite each other in its box",
                      where(items[0][2]), key="rows:" + fn)


def offset(t):
    """(base, constant) of an index base + constant."""
    t = canon(t)
    if t.op == "op" and t.args[0] == "+":
        c = [x for x in t.args[1:] if is_const(x)]
        r = [x for x in t.args[1:] if not is_const(x)]
        if len(c) == 1 and len(r) == 1:
            return r[0], cval(c[0])
        return None
    if is_const(t):
        return None
    return t, 0
