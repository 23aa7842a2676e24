"""P35: element quality indicators are measures of shape, and the quality report counts every element once under its own indicator."""
import ast
from .. import heal, simplex as X, symeval as S
from ..loader import AnalysisError
from ..rl import bodies, canon, fname, where
from ..tok import T, Tok, NONE, is_const, cval, subtoks
from .p31 import pairs, relation, walk

LEVEL = "other"
TECHNIQUE = "algebraic normal forms of the quality formulas over symbolic edge lengths, face areas and volume (degree and symmetry analysis); path analysis of the quality report"
EXPLANATION = ("Every quality indicator of the simplex classes is evaluated to a normal form over opaque symbols for the edge lengths, the face "
               "areas and the measure, indexed by the vertices the constant tables give them. Independence of the size of the element is the "
               "homogeneous degree 0 of the normal form, independence of the numbering of vertices its invariance under renaming of the "
               "symbols by the generators of the permutation group, independence of the orientation its invariance under the sign of the "
               "measure. The report is checked on all abstract paths of its loops.")
R = S.Fraction


def indicators(ctx, cls):
    """Public methods of a shape class whose value depends on lengths, areas or the measure and that take no arguments."""
    out = {}
    for k in reversed(ctx.prog.mro(cls)[0]):
        for name, m in k.methods.items():
            if not name.startswith("_") and getattr(m, "kind", None) != "property" and [p for p in m.pos_params() if p != "self"] == []:
                out[name] = m
    return out


def run(ctx):
    ctx.rule("size", "an indicator does not depend on the size of the element")
    ctx.rule("numbering", "an indicator does not depend on the numbering of the vertices")
    ctx.rule("orientation", "an indicator does not depend on the orientation of the element")
    ctx.rule("regular", "the ratio of inscribed and circumscribed radius is 1 for the regular simplex")
    ctx.rule("altitude", "flatness is the least altitude relative to the longest edge")
    ctx.rule("defined", "every indicator named in the quality report exists for all shapes reported")
    ctx.rule("count", "the report counts each reported element once in each histogram, in the bin of its quality")
    ctx.rule("bad", "the bad elements are those of quality at most the tolerance, listed under the indicator that measured them")
    ctx.rule("pairing", "the entries of one record of the report belong to one indicator")
    classes = X.classes(ctx)
    if not classes:
        raise AnalysisError("no dispatch of shape classes by the number of vertices in " + X.MOD)
    for n, c in sorted(classes.items()):
        if n >= 3:
            formulas(ctx, n, c)
    report(ctx, classes)
    ctx.expect("indicators", 6)


def formulas(ctx, n, c):
    et, ft = X.table(ctx, c, "edges"), X.table(ctx, c, "vtxs_faces")
    if not et or not pairs(et[0], n):
        return
    V = S.sym(("V",))
    base = {"edge_lens": [S.sym(("l",) + tuple(sorted(e))) for e in et[0]], "measure": V}
    if n == 4 and ft and pairs(ft[0], n):
        base["face_areas"] = [S.sym(("S",) + tuple(sorted(f))) for f in ft[0]]
    deg = lambda s: {"V": n - 1, "l": 1, "S": 2}[s[0]]
    for name, m in sorted(indicators(ctx, c).items()):
        try:
            v = X.Shape(ctx, c, n, opaque=base).get(name)
        except S.Unknown as e:
            if any(t in str(e) for t in ("nodes", "edge_vectors")) is False:
                ctx.notes.append("%s.%s not evaluated (%s)" % (fname(c.qual), name, e))
            continue
        if not isinstance(v, S.E) or v.is_const() or not all(s[0] in "VlS" for s in syms(v) if isinstance(s, tuple) and isinstance(s[0], str)) \
                or any(isinstance(s[0], int) for s in syms(v)):
            continue
        con = "%s.%s" % (fname(c.qual), name)
        ctx.saw("indicators", con)
        ctx.check(S.degree(v, deg) == 0, "size", con, "the value changes with the size of the element (formula of degree %s)" % S.degree(v, deg), where(m))
        bad = []
        for p in (lambda i: (i + 1) % n, lambda i: {0: 1, 1: 0}.get(i, i)):
            w = S.rename(v, lambda s: (s[0],) + tuple(sorted(p(i) for i in s[1:])))
            if w != v and not S.zero(S.add(w, v, -1)):
                bad.append([p(i) for i in range(n)])
        ctx.check(not bad, "numbering", con, "the value changes when the vertices are renumbered as %s" % bad, where(m))
        try:
            w = X.Shape(ctx, c, n, opaque=dict(base, measure=S.neg(V))).get(name)
            ctx.check(w == v, "orientation", con, "the value changes with the sign of the measure", where(m))
        except S.Unknown:
            pass
        reg = lambda s: {"l": 1.0, "S": 3 ** .5 / 4, "V": 3 ** .5 / 4 if n == 3 else 2 ** .5 / 12}[s[0]]
        if name == "gmsh_gamma":
            x = S.value(v, reg)
            ctx.check(abs(x - 1) < 1e-9, "regular", con, "the value for the regular simplex is %.6g" % x, where(m))
        if name == "flat_indicator":
            L = S.extremum("max", base["edge_lens"])
            want = S.mul(S.absval(V), S.power(L, -2)) if n == 3 else \
                S.mul(S.mul(S.absval(V), S.power(S.extremum("max", base["face_areas"]), -1)), S.power(L, -1)) if "face_areas" in base else None
            if want is not None:
                want = S.mul(S.num(n - 1), want)
                ctx.check(v == want or S.zero(S.add(v, want, -1)) or abs(S.value(v, reg) - S.value(want, reg)) < 1e-9, "altitude", con,
                          "not the least altitude over the longest edge (%.4g instead of %.4g for the regular simplex)"
                          % (S.value(v, reg), S.value(want, reg)), where(m))


def syms(e):
    out = set()

    def at(a):
        if a[0] == "s":
            out.add(a[1])
        elif a[0] in ("sum", "root", "abs"):
            go(a[1])
        elif a[0] == "ext":
            for x in a[2]:
                go(x)

    def go(x):
        for m in x.t:
            for a, _ in m:
                at(a)
    go(e)
    return out


# ---------------------------------------------------------------- report
def measured(t):
    """(shape, method key, call) when a token is getattr(shape, name)()."""
    t = canon(t)
    if t.op in ("call", "pcall"):
        g = canon(t.args[1]) if t.args[0] == "?" and len(t.args) > 1 and isinstance(t.args[1], Tok) else canon(t.args[0]) if isinstance(t.args[0], Tok) else None
        if g is not None and g.op in ("call", "pcall") and g.args[0] == "builtins.getattr":
            return canon(g.args[1]), canon(g.args[2])
    return None


def report(ctx, classes):
    heal_cls = ctx.prog.classes.get(heal.HM)
    seen = 0
    for q, f in sorted(ctx.prog.funcs.items()):
        if f.cls is not heal_cls or f.parent is not None:
            continue
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" for x in ast.walk(f.node)):
            continue
        defined(ctx, f, classes)
        bads, counts, pairing = [], [], []
        n = 0
        for o in ctx.run(f, keep_conds=True, policy=heal.policy):
            for e in walk(o.events()):
                if e.kind != "loop":
                    continue
                for b, fl in bodies(e):
                    ms = [(x, m) for x in b if x.kind == "cond" and isinstance(x.recv, Tok) for m in [rel_measure(x)] if m]
                    direct = [m for x in b for a in list(x.args or ()) if isinstance(a, Tok) for t in subtoks(a) for m in [measured(t)] if m]
                    if not ms and not direct:
                        continue
                    n += 1
                    sh, key = (ms[0][1][3], ms[0][1][4]) if ms else direct[0]
                    eid = eid_of(sh)
                    mk = dict_key(key)
                    app = [y for x in b for y in [added(x)] if y]
                    incs = [x for x in b if x.kind in ("setitem", "aug") and any(measured(t) for a in x.args if isinstance(a, Tok) for t in subtoks(a))]
                    if ms:
                        x, (op, q_, tol, _, _) = ms[0]
                        isbad = op == "<="
                        if len(app) != (1 if isbad else 0):
                            bads.append("an element of quality %s the tolerance is%s listed as bad" % ("at most" if isbad else "above", " not" if isbad else ""))
                        for k, what in app:
                            if mk is not None and k != mk:
                                bads.append("bad elements of one indicator are listed under another")
                            if eid is not None and what != eid:
                                bads.append("the listed id is not the id of the measured element")
                    if len(incs) != 1:
                        counts.append("the element is counted %d times" % len(incs))
                    for x in incs:
                        ix = canon(x.args[0]) if x.kind == "setitem" else None
                        val = canon(x.args[1]) if x.kind == "setitem" and len(x.args) > 1 else None
                        if val is not None and not (val.op == "op" and val.args[0] == "+" and cval_or(val, 1)):
                            counts.append("the count of the bin is not increased by one")
                        if ix is not None and ix.op in ("call", "pcall") and ix.args[0] == "numpy.argmax":
                            r = canon(ix.args[1])
                            if r.op == "op" and r.args[0] in ("<", ">", "<=", ">="):
                                a, c = canon(r.args[1]), canon(r.args[2])
                                less = r.args[0] in ("<", "<=")
                                if measured(c):
                                    a, c, less = c, a, not less
                                if not less:
                                    counts.append("the bin is the first one below the quality")
                                if not has_inf(c):
                                    counts.append("no bin for qualities above the last bound")
                        rk = hist_key(x.recv)
                        if rk is not None and mk is not None and rk != mk:
                            counts.append("the histogram of another indicator is increased")
        if n:
            seen += 1
            ctx.saw("reports", fname(f.qual))
            ctx.check(not bads, "bad", fname(f.qual), "; ".join(sorted(set(bads))), where(f))
            ctx.check(not counts, "count", fname(f.qual), "; ".join(sorted(set(counts))), where(f))
    records(ctx, heal_cls)


def added(x):
    """(key, item) of an id put in a list looked up in a table."""
    r = None
    if x.kind == "mut" and x.name in ("append", "add") and len(x.args) == 1 and canon(x.recv).op == "item":
        r = canon(canon(x.recv).args[1]), canon(x.args[0])
    elif x.kind == "setitem" and len(x.args) > 1:
        v = canon(x.args[1])
        if v.op == "op" and v.args[0] == "+" and canon(v.args[2]).op == "list" and len(canon(v.args[2]).args) == 2:
            r = canon(x.args[0]), canon(canon(v.args[2]).args[1])
    return r if r and r[1].op in ("key", "elem", "item") else None


def cval_or(val, c):
    return any(is_const(canon(a)) and cval(canon(a)) == c for a in val.args[1:3])


def rel_measure(x):
    """Branch comparing a measured quality: (relation of quality to tolerance, quality, tolerance, shape, key)."""
    r = relation(x.recv, neg=str(x.name) != "True")
    if r is None:
        return None
    op, a, b = r
    if measured(b) and not measured(a):
        op, a, b = {">": "<", "<": ">", "<=": ">=", ">=": "<="}[op], b, a
    m = measured(a)
    return ("<=" if op in ("<", "<=") else ">", a, b, m[0], m[1]) if m else None


def eid_of(sh):
    """Id of the element a shape belongs to."""
    sh = canon(sh)
    if sh.op == "attr" and sh.args[1] == "shape":
        e = canon(sh.args[0])
        if heal.called(e, "_make_element") and len(e.args) > 2:
            return canon(e.args[2])
    return None


def dict_key(t):
    """The loop key a value was looked up by: item(table, key) -> key."""
    t = canon(t)
    if t.op == "item":
        k = canon(t.args[1])
        if k.op in ("key", "elem", "item"):
            return k
    return None


def hist_key(t):
    t = canon(t)
    while t.op in ("lphi", "aug"):
        t = canon(t.args[0]) if isinstance(t.args[0], Tok) else t
        break
    if t.op == "val":
        return T("key", *t.args)
    if t.op == "item":
        return dict_key(t)
    return None


def has_inf(t):
    for x in subtoks(canon(t)):
        if is_const(x) and isinstance(cval(x), float) and cval(x) == float("inf"):
            return True
        if x.op == "ext" and str(x.args[0]).endswith("inf"):
            return True
        if x.op in ("param", "attr", "phi", "lphi", "elem") :
            return True        # bounds from elsewhere
    return False


def defined(ctx, f, classes):
    """Names looked up on shapes are methods of all shapes of two and more dimensions."""
    for o in ctx.run(f, keep_conds=True, policy=heal.policy):
        for e in walk(o.events()):
            toks = [a for a in list(e.args or ()) + [e.recv] if isinstance(a, Tok)]
            for a in toks:
                for t in subtoks(a):
                    if t.op in ("call", "pcall") and t.args[0] == "builtins.getattr" and len(t.args) > 2:
                        sh, nm = canon(t.args[1]), canon(t.args[2])
                        if not (sh.op == "attr" and sh.args[1] == "shape"):
                            continue
                        names = None
                        d = canon(nm.args[0]) if nm.op in ("item", "val") else None
                        if d is not None and d.op == "clsattr":
                            r = X.table(ctx, ctx.prog.classes[d.args[0]], d.args[1])
                            if r and isinstance(r[0], dict):
                                names = list(r[0].values())
                        elif d is not None and d.op == "attr" and d.args[0].op == "param":
                            r = X.table(ctx, f.cls, d.args[1])
                            if r and isinstance(r[0], dict):
                                names = list(r[0].values())
                        if names is None:
                            continue
                        for n, c in classes.items():
                            if n < 3:
                                continue
                            for x in names:
                                ctx.check(ctx.prog.find_method(c, x) is not None, "defined", "%s: %s.%s" % (fname(f.qual), fname(c.qual), x),
                                          "the indicator is not defined", where(f))
                        return


def records(ctx, cls):
    """Records {..: a[k], ..: b[k]} stored under k: all parts looked up by the key of the record."""
    for q, f in sorted(ctx.prog.funcs.items()):
        if f.cls is not cls or f.parent is not None or "yaml" not in f.name and "stats" not in f.name:
            continue
        bad, n = [], 0
        for o in ctx.run(f, keep_conds=True, policy=heal.policy):
            for e in walk(o.events()):
                if e.kind != "setitem" or len(e.args) < 2 or canon(e.args[1]).op != "dict":
                    continue
                k = canon(e.args[0])
                if k.op not in ("key", "elem"):
                    continue
                for kv in canon(e.args[1]).args:
                    if not isinstance(kv, Tok) or kv.op != "kv":
                        continue
                    for t in subtoks(canon(kv.args[1])):
                        if t.op == "item" and canon(t.args[0]).op == "comp" and canon(t.args[0]).args[0] == "dc":
                            n += 1
                            if canon(t.args[1]) != k:
                                bad.append(str(cval(kv.args[0])) if is_const(kv.args[0]) else "entry")
        if n:
            ctx.check(not bad, "pairing", fname(f.qual), "the entries %s of a record are looked up by another key" % sorted(set(bad)), where(f))
