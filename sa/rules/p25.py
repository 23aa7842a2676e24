"""P25: consumed shape sets are invalidated, others stay usable."""
from ..loader import AnalysisError
from ..tok import T, Tok, NONE, subtoks, is_const, cval, const
from ..rl import bodies, fname, where, canon, root

LEVEL = "other"
TECHNIQUE = "ownership and typestate analysis of shape sets over kernel calls on all abstract paths"
EXPLANATION = ("On every abstract path of every public operation the tags given to a destroying kernel call are traced back to the shape "
               "sets owning them; each such set that the caller can see has to be invalidated before the normal exit, nothing else may "
               "be invalidated, documented tools have to enter as copies, and neither an invalidated set nor a result that still "
               "names destroyed shapes may be used.")
MOD = "bgem.gmsh.gmsh"
OS = MOD + ".ObjectSet"
DESTROY = ("cut", "fragment", "intersect", "fuse")
KEEP = {"cut": ("tools",), "intersect": ("tools",), "fragment": ("tools",), "select_by_intersect": ("tools", "self")}
FIELDS = ("factory", "dim_tags", "regions")


def run(ctx):
    ctx.rule("invalidate", "an invalidated set keeps no data")
    ctx.rule("consumed", "every set whose shapes are destroyed is invalidated")
    ctx.rule("kept", "a set is invalidated only after its shapes were destroyed")
    ctx.rule("preserved", "sets documented as preserved are used through copies")
    ctx.rule("after", "no data of a set are used after it was invalidated")
    ctx.rule("result", "results do not name destroyed shapes")
    inv = ctx.prog.func(OS + ".invalidate")
    for o in ctx.run(inv):
        last = {e.name: e.args[0] for e in o.events() if e.kind == "write" and e.recv.op == "param"}
        for a in FIELDS:
            ctx.check(last.get(a) is NONE, "invalidate", fname(inv), "an invalidated set keeps its '%s'" % a, inv.loc(inv.node),
                      key=fname(inv) + ":" + a)
    for n in KEEP:
        ctx.prog.func(OS + "." + n)
    for cn in ("GeometryOCC", "ObjectSet"):
        for m in ctx.prog.cls(MOD + "." + cn).methods.values():
            if m.name.startswith("_") or m.qual == inv.qual:
                continue
            method(ctx, m)
    ctx.expect("destroying calls", 5)
    ctx.expect("consumed sets", 6)
    ctx.expect("invalidations", 6)


def kernel(e):
    return e.name[1:] if e.kind == "call" and e.name.startswith(".") and e.recv is not None and e.recv.op == "attr" \
        and e.recv.args[1] == "model" else None


def is_kernel_tok(t):
    return t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith(".") and len(t.args) > 1 \
        and isinstance(t.args[1], Tok) and t.args[1].op == "attr" and t.args[1].args[1] == "model"


PHI = {}
CONTENT = {}


def sources(t, out=None):
    """Tokens of tag lists from which the tags of the value are taken."""
    out = [] if out is None else out
    if not isinstance(t, Tok):
        return out
    if t in CONTENT:
        out += [x for x in CONTENT[t] if x not in out]
    if t.op in ("phi", "lphi") and t in PHI:
        for b in PHI[t]:
            if b is not t:
                sources(b, out)
    elif is_kernel_tok(t):
        out.append(t)
    elif t.op == "attr" and t.args[1] == "dim_tags":
        for b in PHI.get(t.args[0], [t.args[0]]) if t.args[0].op == "phi" else [t.args[0]]:
            out.append(t if b is t.args[0] else T("attr", b, "dim_tags"))
    elif t.op == "op" and t.args[0] in ("len", "==", "<", "in", "is"):
        pass
    elif t.op in ("uid", "ver", "v0", "clk", "site", "slice", "new"):
        pass
    elif t.op == "call" and t.args[0] == "gmsh.model.getEntities":
        pass
    elif t.op in ("call", "pcall") and t.args[0] == ".difference" or t.op == "op" and t.args[0] == "-":
        sources(t.args[1], out)
    elif t.op in ("item", "elem", "key", "val"):
        sources(t.args[0], out)
    elif t.op == "comp" and len(t.args) > 1:
        sources(t.args[1], out)
    else:
        for a in t.args:
            sources(a, out)
    return out


def elem_norm(t):
    """elem(X) for X[i] with i over the range of len(X)."""
    t = canon(t)
    if t.op == "item" and isinstance(t.args[1], Tok) and t.args[1].op in ("elem", "idx"):
        if t.args[1].args[0] is t.args[0]:
            return T("elem", t.args[0])
        for s in subtoks(t.args[1].args[0]):
            if s.op == "op" and s.args[0] == "len" and s.args[1] is t.args[0]:
                return T("elem", t.args[0])
    if t.op == "elem":
        return T("elem", t.args[0])
    return t


def destroyed(e):
    """Tag-list tokens destroyed by the kernel call (result tokens or dim_tags attributes)."""
    n = kernel(e)
    if n == "remove":
        return sources(e.args[0]) if e.args else []
    if n not in DESTROY:
        return []
    a = list(e.args) + [None] * 5
    kw = e.kw or {}
    obj = kw.get("objectDimTags", a[0])
    tool = kw.get("toolDimTags", a[1])
    out = []
    for x, f in ((obj, kw.get("removeObject", a[3])), (tool, kw.get("removeTool", a[4]))):
        if x is None or f is not None and is_const(f) and cval(f) is False:
            continue
        out += sources(x)
    return out


def flatten(events, depth=0):
    """(event, enclosing loops, sure): sure when the event happens on every completed path of its loops."""
    for e in events:
        if e.kind == "loop":
            yield e, depth
            for b, fl in bodies(e):
                if fl != "raise":
                    yield from flatten(b, depth + 1)
        else:
            yield e, depth


def inv_sure(events):
    """Sets surely invalidated by the events (elements of a collection by a complete loop)."""
    out = set()
    for e in events:
        if e.kind == "loop":
            bs = [(b, fl) for b, fl in bodies(e) if fl != "raise"]
            if bs and all(fl in ("next", "continue") for b, fl in bs):
                sets = [inv_sure(b) for b, fl in bs]
                out |= set.intersection(*sets)
        elif e.kind == "write" and e.name == "dim_tags" and e.args[0] is NONE:
            out.add(elem_norm(e.recv))
    return out


def method(ctx, f):
    q = fname(f)
    outs = ctx.run(f, keep_conds=True)
    a = f.node.args
    tools = {p for p in [a.vararg.arg if a.vararg else None] if p} | {x.arg for x in a.args[1:]}
    selfname = a.args[0].arg
    PHI.clear()
    PHI.update(ctx.last.phi_info)
    for o in outs:
        CONTENT.clear()
        ev = o.events()
        owner = {}          # tag-list token -> local set it was stored into
        dest = []           # destroyed sets
        dtoks = set()
        for e, depth in flatten(ev):
            if e.kind == "write" and e.name == "dim_tags":
                if e.args[0] is NONE:
                    s = elem_norm(e.recv)
                    ctx.saw("invalidations", q)
                    known = any(s is x or s.op == "elem" and x.op == "item" and x.args[0] is s.args[0] for x, _ in dest) or s.op == "new" and (s in owner and covered(owner[s], dtoks)) \
                        or any(s.op == "lphi" for _ in (1,))
                    ctx.check(known, "kept", q, "a set is invalidated, but its shapes are not destroyed before", where(e), key=q)
                elif e.recv.op == "new":
                    owner[elem_norm(e.recv)] = e.args[0]
                continue
            if e.kind in ("mut", "aug") and e.recv is not None and e.recv.op == "list" and e.args:
                CONTENT.setdefault(e.recv, []).extend(sources(e.args[-1]))
            if e.kind == "new" and e.name == OS:
                bad = [x for a in e.args for x in subtoks(a) if x.op == "elem" and x.args[0] is NONE] or any(a is NONE for a in e.args)
                ctx.check(not bad, "after", q, "a set is made from data of a set invalidated before", where(e), key=q)
            if e.kind == "loop":
                c = e.recv
                xs = [c] + (list(c.args) if c is not None and c.op in ("zip", "enum", "comp") else [])
                ctx.check(not any(x is NONE for x in xs[:3]), "after", q, "data of a set are used after it was invalidated", where(e), key=q)
                continue
            if e.recv is not None and isinstance(e.recv, Tok) and e.kind in ("call", "write", "mut", "setitem"):
                r = root(e.recv)
                ctx.check(r is not NONE, "after", q, "data of a set are used after it was invalidated", where(e), key=q)
            if e.kind == "cond" and e.recv is not None:
                ctx.check(not any(s.op == "op" and s.args[0] == "len" and s.args[1] is NONE for s in subtoks(e.recv)), "after", q,
                          "data of a set are used after it was invalidated", where(e), key=q)
            n = kernel(e)
            if n is None:
                continue
            if any(x is NONE for x in e.args):
                ctx.bad("after", q, "data of a set are passed to the kernel after it was invalidated", where(e), key=q)
            work = destroyed(e)
            for t in work:
                b = elem_norm(t.args[0]) if t.op == "attr" else None
                if b is not None and b.op == "new" and b in owner:
                    work += [x for x in sources(owner[b]) if x not in work]
                ctx.saw("destroying calls", q + ":" + n)
                dtoks.add(t)
                if t.op == "attr":
                    s = elem_norm(t.args[0])
                    ctx.saw("consumed sets", q + ":" + str(len(dest)))
                    dest.append((s, e))
                    r = root(s)
                    if f.cls is not None and f.cls.qual == OS and f.name in KEEP:
                        p = r.args[0] if r.op == "param" else None
                        bad = p in tools and "tools" in KEEP[f.name] or p == selfname and "self" in KEEP[f.name]
                        ctx.check(not bad, "preserved", q, "shapes of '%s' are destroyed, they are documented to be preserved" % p, where(e),
                                  key=q + ":" + str(p))
        if o.flow == "raise":
            continue
        sure = inv_sure(ev)
        import os
        if os.environ.get('DBG') and q.endswith('cut'): print([repr(x[0])[:150] for x in dest], [repr(x)[:150] for x in sure])
        for s, e in dest:
            if s.op == "new":
                continue
            ctx.check(s in sure or s.op == "item" and T("elem", s.args[0]) in sure, "consumed", q, "shapes of a set are destroyed by %s, but the set stays valid" % e.name.strip("."), where(e),
                      key=q + ":" + (root(s).args[0] if root(s).op == "param" else "local"))
        # sets returned by the operation
        if o.val is not None:
            for t in subtoks(o.val) if isinstance(o.val, Tok) else ():
                s = elem_norm(t)
                if s.op == "new" and s in owner and s not in sure:
                    ctx.check(not (set(sources(owner[s])) & dtoks), "result", q, "the result contains shapes destroyed by the operation",
                              f.loc(f.node), key=q)


def covered(tok, dtoks):
    src = sources(tok)
    return not src or any(s in dtoks for s in src)
