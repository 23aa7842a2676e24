"""P08: ids are unique, recycled last freed first; objects are stored under, freed from and compared by their id."""
import ast
from ..loader import AnalysisError
from ..rl import canon, flat, fname, where, cont_ops
from ..tok import T, show, subtoks, is_const, cval, Tok, const
from ..dc import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive dataflow over the id map (issuing, registering, removing) and over equality and hashing of "
               "the id objects, a who-may-write rule for ids, free lists and the maps themselves over the whole package, "
               "and a linearity rule: no path of a function registers or removes the same object twice and every map holds "
               "objects of its own kind.")
IDM = POLY + "idmap.IdMap"
KIND = {"points": PT, "segments": SEG, "wires": WIRE, "polygons": PGN}
SELF = T("param", "self")


def attr(b, n):
    return T("attr", b, n)


def issue(ctx):
    f = ctx.prog.func(IDM + ".get_new_id")
    c = fname(f)
    forms = set()
    nfree = 0
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        v = canon(o.val)
        evs = [e for e, l in flat(o.events())]
        pops = [e for e in evs if e.kind == "mut" and canon(e.recv) is attr(SELF, "_free_ids")]
        dels = [e for e in evs if e.kind == "delitem" and canon(e.recv) is attr(SELF, "_free_ids")]
        nxt = [e for e in evs if e.kind in ("write", "aug") and e.name == "_next_id"]
        other = [e for e in evs if e.kind in ("write", "setitem", "aug") and e not in nxt]
        ctx.check(not other, "issue", c + "/other", "issuing an id changes something else", where(other[0]) if other else "")
        if nxt:
            new = nxt[-1].args[0] if nxt[-1].args else None
            new = canon(new) if new is not None else None
            base, k = plus(new)
            good = base is attr(SELF, "_next_id") and k is not None and k >= 1 and len(nxt) == 1
            ctx.check(good and k == 1, "issue", c + "/grow", "the counter of ids is set to %s" % show(new), where(nxt[-1]))
            if good:
                if v is new:
                    forms.add("new")
                elif v is attr(SELF, "_next_id"):
                    # read after or before the write
                    forms.add("new" if after_write(o.val, new) else "old")
                else:
                    ctx.bad("issue", c + "/value", "the issued id is %s" % show(v), f.loc(f.node))
            ctx.check(not pops and not dels, "issue", c + "/lost", "a freed id is taken off although a fresh one is issued",
                      where((pops + dels)[0]) if pops or dels else "")
            conds = [(e.recv, str(e.name)) for e in evs if e.kind == "cond"]
        elif pops or dels:
            nfree += 1
            ok = False
            if pops and len(pops) == 1 and not dels:
                p = pops[0]
                last = not p.args or (is_const(p.args[0]) and cval(p.args[0]) == -1)
                ok = p.name == "pop" and last and (p.res is None or canon(p.res) is v or o.val is p.res or same_pop(v, p))
            elif dels and len(dels) == 1 and not pops:
                k = dels[0].args[0]
                ok = is_const(k) and cval(k) == -1 and v is T("item", attr(SELF, "_free_ids"), const(-1))
            ctx.check(ok, "issue", c + "/reuse", "the reused id is not the one taken off the end of the freed ids", where((pops + dels)[0]))
        else:
            ctx.bad("issue", c + "/repeat", "an id is issued without being taken off the freed ids or the counter", f.loc(f.node))
    ctx.check(len(forms) == 1, "issue", c + "/form", "fresh ids are issued as %s" % sorted(forms), f.loc(f.node))
    ctx.check(nfree > 0, "issue", c + "/recycle", "freed ids are never reused", f.loc(f.node))
    return f


def same_pop(v, p):
    return v.op in ("call", "pcall", "popped") and any(canon(x) is attr(SELF, "_free_ids") for x in subtoks(v)) or v.op == "item"


def after_write(raw, new):
    return any(s.op in ("clk", "ver") for s in subtoks(raw))


def plus(t):
    if t is None:
        return None, None
    if t.op == "op" and t.args[0] == "+" and len(t.args) == 3:
        for a, b in ((1, 2), (2, 1)):
            if is_const(t.args[b]) and isinstance(cval(t.args[b]), int):
                base, k = plus(t.args[a])
                return base, (k or 0) + cval(t.args[b])
    return t, 0


def register(ctx):
    f = ctx.prog.func(IDA)
    c = fname(f)
    obj = T("param", f.pos_params()[1])
    for o in ctx.run(f, opaque=[IDM + ".get_new_id"]):
        if o.flow != "return":
            continue
        evs = [e for e, l in flat(o.events())]
        ids = [e for e in evs if e.kind == "call" and e.name == IDM + ".get_new_id"]
        w = [e for e in evs if e.kind == "write" and e.name == "id"]
        s = [x for e in evs for x in cont_ops(e) if x[0] == "set" and canon(x[1]) is SELF and e.name != "setdefault"]
        ctx.check(len(ids) == 1, "register", c + "/one id", "%d ids are issued for one object" % len(ids), f.loc(f.node))
        if not ids:
            continue
        new = canon(ids[0].res)
        ctx.check(len(w) == 1 and canon(w[0].recv) is obj and canon(w[0].args[0]) is new, "register", c + "/id",
                  "the issued id is not given to the object", f.loc(f.node))
        ctx.check(len(s) == 1 and canon(s[0][2]) in (new, attr(obj, "id")) and canon(s[0][3]) is obj, "register", c + "/stored",
                  "the object is not stored under its id", f.loc(f.node))
        if len(s) == 1 and canon(s[0][2]) is attr(obj, "id") and s[0][2].op == "attr":
            ctx.bad("register", c + "/order", "the object is stored under its previous id", f.loc(f.node))
        ctx.check(canon(o.val) is obj, "register", c + "/result", "the registered object is not returned (%s)" % show(o.val), f.loc(f.node))
    f = ctx.prog.func(IDR)
    c = fname(f)
    obj = T("param", f.pos_params()[1])
    for o in ctx.run(f):
        if o.flow != "return":
            continue
        evs = [e for e, l in flat(o.events())]
        d = [x for e in evs for x in cont_ops(e) if x[0] == "del" and canon(x[1]) is SELF]
        a = [x for e in evs for x in cont_ops(e) if canon(x[1]) is attr(SELF, "_free_ids") and e.name not in ("insert", "appendleft")]
        ctx.check(len(d) == 1 and canon(d[0][2]) is attr(obj, "id"), "free", c + "/deleted", "the removed object stays registered", f.loc(f.node))
        ctx.check(len(a) == 1 and a[0][0] == "add" and canon(a[0][2]) is attr(obj, "id"), "free", c + "/freed",
                  "the id of a removed object is not freed exactly once at the end of the freed ids (%d changes)" % len(a), f.loc(f.node))
        x = [e for e in evs if e.kind in ("write", "aug") and e.name != "_free_ids" and not cont_ops(e)]
        ctx.check(not x, "free", c + "/other", "removing changes %s" % (x[0].name if x else ""), where(x[0]) if x else "")
    f = ctx.prog.func(IDM + ".__init__")
    for o in ctx.run(f):
        w = {e.name: e.args[0] for e, l in flat(o.events()) if e.kind == "write"}
        v = w.get("_free_ids")
        ctx.check(v is not None and v.op in ("list", "copyof", "call", "pcall", "new") and not seq_items(v), "register", fname(f) + "/free",
                  "freed ids are not empty at start", f.loc(f.node))
        ctx.check(w.get("_next_id") is not None and is_const(w["_next_id"]) and isinstance(cval(w["_next_id"]), int), "register",
                  fname(f) + "/counter", "the counter is not a number at start", f.loc(f.node))


def owners(ctx):
    """Ids, free lists and the maps are written by the id map only."""
    n = 0
    own = {IDA, IDR, IDM + ".get_new_id", IDM + ".__init__"}
    # helpers of the map
    own |= {q for q in ctx.prog.funcs if q.startswith(IDM + ".")}
    for f in sorted(ctx.prog.funcs.values(), key=lambda x: x.qual):
        if not f.qual.startswith(PKG) or f.qual in own:
            continue
        n += 1
        ctx.saw("functions searched for direct id writes", f.qual)
        ali = {}
        for x in own_nodes(f):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and x.value.attr in KIND:
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        ali[t.id] = x.value.attr

        def is_map(b):
            cs = ctx.types.inst_classes(b)
            return any((q if isinstance(q, str) else q.qual) == IDM for q in cs or ())
        for x in own_nodes(f):
            what = None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in ("id", "_free_ids", "_next_id"):
                cs = {(q if isinstance(q, str) else q.qual) for q in ctx.types.inst_classes(x.value) or ()}
                if x.attr != "id" or not cs or cs & (set(KIND.values()) | {POLY + "idmap.IdObject"}):
                    what = ".%s is written outside of the id map" % x.attr
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and is_map(x.value):
                what = "an id map is changed directly"
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in ("pop", "popitem", "clear", "update", "setdefault", "__setitem__", "__delitem__") and is_map(x.func.value):
                what = "an id map is changed by %s()" % x.func.attr
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 \
                    and isinstance(x.args[1], ast.Constant) and x.args[1].value == "id":
                what = ".id is written by setattr"
            if what:
                ctx.bad("owner", fname(f), what, f.loc(x))
        ctx.ok("owner", fname(f))
    return n


def linear(ctx):
    """No path registers / removes one object twice; maps hold objects of their kind."""
    fs = direct_writers(ctx, [], idmaps=tuple(KIND))
    ctx.counts["functions_registering"] = len(fs)
    for q, f in sorted(fs.items()):
        ctx.saw("functions registering or removing objects", q)
        # kinds by types
        for x in own_nodes(f):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "remove") and x.args \
                    and any((c if isinstance(c, str) else c.qual) in (IDA, IDR) for c in ctx.types.callees.get(x, ())):
                b = x.func.value
                name = b.attr if isinstance(b, ast.Attribute) else None
                cs = {(c if isinstance(c, str) else c.qual) for c in ctx.types.inst_classes(x.args[0]) or ()} & set(KIND.values())
                if name in KIND and cs:
                    ctx.check(KIND[name] in cs, "kind", "%s/%s" % (fname(f), name), "object of %s goes to / from the map of %s" %
                              (", ".join(sorted(cs)), name), f.loc(x))
        pol = field_policy(ctx, [], opaque=["Wire.set_parent"])
        for o in ctx.run(f, policy=pol):
            if o.flow != "return":
                continue
            live = {}
            for e, loops in flat(o.events()):
                r = idmap_ops(e)
                if r is None or r[1] not in KIND or r[2] is None:
                    continue
                k = (r[1], canon(r[2]), loops)
                if k in live and live[k] == r[0]:
                    ctx.bad("once", "%s/%s" % (fname(f), r[1]), "the same object is %s twice" %
                            ("registered" if r[0] == "reg" else "removed"), where(e))
                live[k] = r[0]
                ctx.ok("once", "%s/%s" % (fname(f), r[1]))
                # object of an enclosing scope handled in a loop: repeated
                if loops and not depends(r[2], loops[-1]):
                    ctx.bad("once", "%s/%s" % (fname(f), r[1]), "an object is %s repeatedly in a loop" %
                            ("registered" if r[0] == "reg" else "removed"), where(e))


def depends(t, loop):
    """Does the object change with the iterations?"""
    for s in subtoks(t):
        if s.op in ("elem", "key", "val", "idx", "new", "call", "pcall", "site", "phi", "item", "clk", "ver", "gen"):
            return True
    return False


def compare(ctx):
    n = 0
    base = POLY + "idmap.IdObject"
    for cls in ctx.prog.classes.values():
        if cls.qual != base and cls.qual not in KIND.values():
            continue
        for m in ("__eq__", "__ne__", "__hash__"):
            f = ctx.prog.funcs.get(cls.qual + "." + m)
            if f is None:
                continue
            n += 1
            ctx.saw("comparison functions", f.qual)
            ps = f.pos_params()
            sid = attr(T("param", ps[0]), "id")
            for o in ctx.run(f, keep_conds=True):
                if o.flow != "return":
                    continue
                v = canon(o.val)
                if m == "__hash__":
                    ok = v is sid or (v.op in ("call", "pcall") and any(s is sid for s in v.args) and not any(
                        s.op == "attr" and s is not sid for s in subtoks(v)))
                    ctx.check(ok, "compare", fname(f), "the hash is %s" % show(v), f.loc(f.node))
                    continue
                oid = attr(T("param", ps[1]), "id")
                if is_const(v):
                    # None / foreign object
                    cs = [(canon(e.recv), str(e.name)) for e, l in flat(o.events()) if e.kind == "cond"]
                    idc = [(c, tv) for c, tv in cs if sid in list(subtoks(c)) and oid in list(subtoks(c)) and c.op == "op"]
                    if idc:
                        c, tv = idc[-1]
                        eq = {"==": "True", "is": "True", "!=": "False"}.get(c.args[0])
                        want = (tv == eq) if m == "__eq__" else (tv != eq)
                        ctx.check(eq is not None and bool(cval(v)) == want, "compare", fname(f), "objects of %s id are %s" %
                                  ("the same" if want else "different", "equal" if cval(v) else "different"), f.loc(f.node))
                    else:
                        ctx.check(v is NOTIMPL or bool(cval(v)) == (m == "__ne__") or ident(cs, ps), "compare", fname(f),
                                  "result %s does not depend on the ids" % show(v), f.loc(f.node))
                    continue
                if any(s.op in ("glob", "ext", "name") and "NotImplemented" in str(s.args) for s in subtoks(v)):
                    continue
                ok = v.op == "op" and v.args[0] == ("==" if m == "__eq__" else "!=") and {v.args[1], v.args[2]} == {sid, oid}
                if not ok and v.op == "op" and v.args[0] in ("and", "or", "not"):
                    fields = {s.args[1] for s in subtoks(v) if s.op == "attr"}
                    ok = "id" in fields and fields <= {"id", "__class__"}
                ctx.check(ok, "compare", fname(f), "objects are compared by %s" % show(v), f.loc(f.node))
    if n < 2:
        raise AnalysisError("comparison of id objects not found")


NOTIMPL = const(NotImplemented)


def ident(cs, ps):
    return any(c.op == "op" and c.args[0] == "is" for c, tv in cs)


def run(ctx):
    ctx.rule("issue", "an issued id is the freed id taken off last or the counter increased by one; it is taken off exactly once")
    ctx.rule("register", "a registered object carries the issued id and is stored under it")
    ctx.rule("free", "removing deletes the object and frees its id exactly once")
    ctx.rule("owner", "ids, freed ids and id maps are changed by the id map only")
    ctx.rule("kind", "an id map holds objects of its own kind")
    ctx.rule("once", "no path registers or removes one object twice")
    ctx.rule("compare", "objects are compared and hashed by the id only")
    issue(ctx)
    register(ctx)
    owners(ctx)
    linear(ctx)
    compare(ctx)
    ctx.expect("functions registering or removing objects", 8)
