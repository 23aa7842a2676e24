"""P38: orientation, flags and closedness of BREP shapes."""
import ast
from ..loader import AnalysisError
from ..tok import Tok, T, const, subtoks, is_const, cval
from ..rl import canon, flat, bodies, where

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the BREP shape classes on access paths: values stored per path and their guards"
EXPLANATION = ("All paths of the methods that create oriented references, set flags, decide the closedness of a wire, bind a face to "
               "its surface and its edges to lines on it are enumerated on access paths; the stored values, their order and the "
               "conditions guarding them are compared with the meaning of the format.")
MOD = "bgem.bspline.brep_writer"
SELF = T("param", "self")
REF = MOD + ".ShapeRef"


def run(ctx):
    ctx.rule("references", "p, m, i, e refer to the shape itself with orientation Forward, Reversed, Internal, External")
    ctx.rule("edge-ends", "an edge refers to its first vertex Forward and to the second one Reversed")
    ctx.rule("closed", "a wire is closed exactly when every vertex ends an even number of its edges; the counters start again from zero")
    ctx.rule("face", "a face is made of closed wires only and keeps the given surface with the given location")
    ctx.rule("flags", "the flag word holds the given values in the order of the format")
    ctx.rule("implicit", "implicit geometry: vertices follow the orientation of the edges, lines lead from the first to the second vertex")
    references(ctx)
    edge_ends(ctx)
    closed(ctx)
    face(ctx)
    flags(ctx)
    implicit(ctx)
    ctx.expect("oriented references", 4)
    ctx.expect("counted vertices", 1)
    ctx.expect("reset counters", 1)
    ctx.expect("faces with a surface", 1)
    ctx.expect("vertex loops", 2)
    ctx.expect("attached edges", 1)


def enumval(name):
    return lambda t: isinstance(t, Tok) and t.op == "enumval" and len(t.args) == 2 and str(t.args[1]) == name and str(t.args[0]).endswith("Orient")


def method(ctx, cls, name):
    f = ctx.prog.find_method(ctx.prog.cls(MOD + "." + cls), name)
    if f is None:
        raise AnalysisError("no %s.%s" % (cls, name))
    return f


def opaque(*names):
    return lambda g: "opaque" if g.__class__.__name__ == "Cls" or g.name in names else None


def ends(ctx, f, **kw):
    return [o for o in ctx.run(f, keep_conds=True, carry=True, **kw) if o.flow != "raise"]


# -------------------------------------------------------------------------------------- references
def references(ctx):
    init = method(ctx, "ShapeRef", "__init__")
    names = init.pos_params()
    for m, want in (("p", "Forward"), ("m", "Reversed"), ("i", "Internal"), ("e", "External")):
        f = method(ctx, "Shape", m)
        for o in ends(ctx, f, policy=opaque()):
            val = canon(o.val) if isinstance(o.val, Tok) else None
            made = [e for e, l in flat(o.events()) if e.kind == "new" and e.name == REF]
            if val is None or val.op != "new" or val.args[0] != REF or len(made) != 1:
                ctx.bad("references", m, "does not return a new reference", where(f))
                continue
            ctx.saw("oriented references", m)
            e = made[0]
            shape, ori = argument(e, names, 1, "shape"), argument(e, names, 2, "orient")
            ctx.check(shape is not None and canon(shape) == SELF, "references", m + "/shape", "the reference is not to the shape itself", where(f))
            if ori is None:
                ctx.check(want == default_orient(init), "references", m, "the reference gets the default orientation, not %s" % want, where(f))
            else:
                ctx.check(enumval(want)(canon(ori)), "references", m, "the reference is oriented %s, not %s" % (ori, want), where(f))


def argument(e, names, i, name):
    if i - 1 < len(e.args):
        return e.args[i - 1]
    kw = getattr(e, "kw", None) or {}
    return kw.get(name)


def default_orient(init):
    a = init.node.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if p.arg == "orient":
            return d.attr if isinstance(d, ast.Attribute) else None
    return None


# --------------------------------------------------------------------------------------- edge ends
def edge_ends(ctx):
    f = method(ctx, "Edge", "__init__")
    outs = ends(ctx, f, policy=opaque("__init__"))
    ctx.check(bool(outs), "edge-ends", "paths", "an edge can not be made", where(f))
    for o in outs:
        last, known = {}, True
        for e, l in flat(o.events()):
            if e.kind != "write" or e.name != "orientation":
                continue
            r = canon(e.recv)
            if r.op == "item" and is_const(r.args[1]) and not l:
                last[cval(r.args[1])] = canon(e.args[-1])
            else:
                known = False
        if not known:
            ctx.notes.append("orientation of the ends of an edge is not stored by position")
            continue
        for i, want in ((0, "Forward"), (1, "Reversed")):
            v = last.get(i, last.get(i - 2))
            ctx.check(v is not None and enumval(want)(v), "edge-ends", "vertex %d" % i, "the reference to the vertex is %s, not %s" % (v, want), where(f))


# ------------------------------------------------------------------------------------------ closed
def parity(t):
    """(counter, truth means even) when the token tests the parity of a counter of edges."""
    t = canon(t)
    neg = False
    while t.op == "not" or t.op == "op" and t.args[0] == "not":
        neg, t = not neg, canon(t.args[-1])
    if t.op == "op" and t.args[0] in ("==", "!=") and any(is_const(x) for x in t.args[1:]):
        a, b = t.args[1:3]
        c, x = (cval(a), b) if is_const(a) else (cval(b), a)
        n = modulo(x)
        if n is None or c not in (0, 1):
            return None
        return n, ((c == 0) == (t.args[0] == "==")) != neg
    n = modulo(t)
    if n is not None:
        return n, neg
    return None


def modulo(x):
    x = canon(x)
    if x.op == "op" and x.args[0] == "%" and is_const(x.args[2]) and cval(x.args[2]) == 2:
        return x.args[1]
    if x.op == "op" and x.args[0] == "&":
        for a, b in (x.args[1:3], x.args[2:0:-1]):
            if is_const(b) and cval(b) == 1:
                return a
    return None


def counter(t):
    return any(s.op in ("attr", "lphi") and "n_edges" in [a for a in s.args if isinstance(a, str)] for s in subtoks(canon(t)))


def written(events):
    return [e for e in events if e.kind in ("write", "aug") and e.name == "n_edges" or
            e.kind == "aug" and isinstance(e.recv, Tok) and e.recv.op == "attr" and "n_edges" in e.recv.args]


def is_zero(e):
    return e.kind == "write" and is_const(canon(e.args[-1])) and cval(canon(e.args[-1])) == 0


def plus_one(e):
    t = canon(e.args[-1])
    if t.op == "op" and t.args[0] == "+":
        for a, b in (t.args[1:3], t.args[2:0:-1]):
            if is_const(b) and cval(b) == 1 and counter(a):
                return True
    return e.kind == "aug" and is_const(t) and cval(t) == 1


def loops(events, out):
    for e in events:
        if e.kind == "loop":
            bs = [(list(b), fl) for b, fl in bodies(e)]
            out.append((e, bs))
            for b, fl in bs:
                loops(b, out)
    return out


def closed(ctx):
    f = method(ctx, "Wire", "_set_closed")
    wh = where(f)
    for o in ends(ctx, f):
        ev = list(o.events())
        decided = None                   # (what becomes of the truth value of the condition: closed)
        ls = loops(ev, [])
        for e, bs in ls:
            counts = [x for b, fl in bs for x in written(b) if not is_zero(x)]
            resets = [x for b, fl in bs for x in written(b) if is_zero(x)]
            if counts:
                ctx.saw("counted vertices", "loop")
                for b, fl in bs:
                    w = [x for x in written(b) if not is_zero(x)]
                    ctx.check(len(w) == 1 and plus_one(w[0]) and fl == "next", "closed", "count",
                              "an end of an edge is not counted exactly once", wh)
            elif resets:
                ctx.saw("reset counters", "loop")
                for b, fl in bs:
                    ctx.check(any(is_zero(x) for x in written(b)) and fl == "next", "closed", "reset",
                              "a path leaves counters of edges that are not back at zero for the next wire", wh)
            for b, fl in bs:
                for c in b:
                    if c.kind == "carry":
                        for a, v in zip(c.args[::2], c.args[1::2]):
                            verdict(ctx, b, a, v, wh)
            tested = [(b, [(parity(c.recv)[1] != bool(c.name)) for c in b if c.kind == "cond" and parity(c.recv) and counter(parity(c.recv)[0])])
                      for b, fl in bs]
            for b, odd in tested:
                if odd:
                    ctx.saw("tested vertices", "path")
                    ctx.check(not any(odd) or any(c.kind == "carry" and any(changes(a, v) for a, v in zip(c.args[::2], c.args[1::2])) for c in b),
                              "closed", "verdict", "a vertex ending an odd number of edges does not change the verdict", wh)
            if all(fl != "next" for b, fl in bs) and bs:
                ctx.bad("closed", "loop", "only the first vertex is considered", wh)
        # the flag at the end
        sets = [(i, e) for i, e in enumerate(ev) if e.kind == "setitem" and len(e.args) > 1 and is_const(canon(e.args[0])) and cval(canon(e.args[0])) == "closed"]
        ctx.check(bool(sets), "closed", "flag", "a path does not set the flag", wh)
        if not sets:
            continue
        i, e = sets[-1]
        conds = [c for c in ev[:i] if c.kind == "cond" and verdict_token(c.recv)]
        v = canon(e.args[1])
        if is_const(v) and conds:
            c = conds[-1]
            ctx.check(bool(cval(v)) == (bool(c.name) == verdict_token(c.recv)[0]), "closed", "flag",
                      "the flag is set to %s for a wire that is %sclosed" % (cval(v), "" if bool(c.name) == verdict_token(c.recv)[0] else "not "), wh)
        elif is_const(v):
            ctx.bad("closed", "flag", "the flag is %s whatever the number of edges at the vertices is" % cval(v), wh)


def verdict_token(t):
    """[truth means closed] for a condition built from the parities of all vertices."""
    t = canon(t)
    if t.op in ("lphi", "phi"):
        init = [x for x in t.args if isinstance(x, Tok) and is_const(x) and isinstance(cval(x), (bool, int))]
        if init and not isinstance(cval(init[0]), str):
            return [bool(cval(init[0]))]
        return None
    if t.op in ("call", "pcall") and str(t.args[0]).split(".")[-1] in ("all", "any"):
        for s in subtoks(t):
            p = parity(s) if s.op in ("op", "not") else None
            if p and counter(p[0]):
                every = str(t.args[0]).endswith("all")
                return [every] if p[1] == every else None
    return None


def changes(a, v):
    a, v = canon(a), canon(v)
    init = [x for x in a.args if isinstance(x, Tok) and is_const(x)]
    if a.op != "lphi" or not init or not isinstance(cval(init[0]), bool):
        return None
    if not is_const(v):
        return None if any(s == a for s in subtoks(v)) else "forgets"
    return bool(cval(v)) != cval(init[0])


def verdict(ctx, body, a, v, wh):
    """One value carried to the next vertex: the verdict changes exactly at a vertex with an odd counter."""
    changed = changes(a, v)
    if changed is None:
        return
    ps = [(parity(c.recv), bool(c.name)) for c in body if c.kind == "cond" and parity(c.recv) and counter(parity(c.recv)[0])]
    odd = [p for p, truth in ps if p[1] != truth]
    even = [p for p, truth in ps if p[1] == truth]
    if changed == "forgets":
        if any(c.kind == "cond" and canon(c.recv) == canon(a) for c in body):      # combined with the previous verdict
            return
        ctx.bad("closed", "verdict", "the verdict depends on the last vertex only", wh)
    elif changed:
        ctx.check(bool(odd) and not even, "closed", "verdict", "the verdict changes at a vertex not known to end an odd number of edges", wh)


# -------------------------------------------------------------------------------------------- face
def face(ctx):
    f = method(ctx, "Face", "__init__")
    wh = where(f)
    sur, loc = T("param", "surface"), T("param", "location")
    for o in ends(ctx, f, policy=lambda g: None):
        ev = [e for e, l in flat(o.events())]
        isnone = [bool(e.name) for e in ev if e.kind == "cond" and none_test(e.recv, sur)]
        given = bool(isnone) and not any(n for n in isnone)
        tests = [(canon(e.recv), bool(e.name)) for e in ev if e.kind == "cond" and closed_test(e.recv)]
        ok = tests and all(truth for t, truth in tests)
        for e, bs in loops(list(o.events()), []):
            for b, fl in bs:
                if fl == "break" and any(c.kind == "cond" and closed_test(c.recv) and c.name for c in b):
                    ctx.bad("face", "closed wires", "the wires after the first closed one are not looked at", wh)
        inside = [fl for e, bs in loops(list(o.events()), []) for b, fl in bs if any(c.kind == "cond" and closed_test(c.recv) and not c.name for c in b)]
        ctx.check(bool(ok) or bool(inside) and all(fl == "raise" for fl in inside), "face", "closed wires",
                  "a face is made without all wires found closed", wh)
        if not given:
            continue
        ctx.saw("faces with a surface", "path")
        w = [e for e in ev if e.kind == "write" and e.name == "repr" and canon(e.recv) == SELF]
        kept = False
        if w:
            t = canon(w[-1].args[-1])
            pairs = [s for s in subtoks(t) if s.op == "tuple" and len(s.args) == 2 and canon(s.args[0]) == sur]
            pairs += [s for e in ev if e.kind == "mut" and e.name == "append" for a in e.args for s in subtoks(canon(a))
                      if s.op == "tuple" and len(s.args) == 2 and canon(s.args[0]) == sur]
            kept = any(canon(p.args[1]) == loc for p in pairs)
        ctx.check(kept, "face", "location", "the given surface is not kept with the given location", wh)


def none_test(t, what):
    t = canon(t)
    return t.op == "op" and t.args[0] in ("is", "==") and what in [canon(x) for x in t.args[1:]] and any(is_const(x) and cval(x) is None for x in t.args[1:])


def closed_test(t):
    t = canon(t)
    return t.op == "item" and is_const(t.args[1]) and cval(t.args[1]) == "closed" or t.op in ("call", "pcall") and str(t.args[0]).endswith(".is_closed")


# ------------------------------------------------------------------------------------------- flags
def flags(ctx):
    names = T("clsattr", MOD + ".ShapeFlag", "flag_names")

    def order(t):
        t = canon(t)
        return t == names or t.op == "attr" and t.args[1] == "flag_names" and canon(t.args[0]) == SELF

    f = method(ctx, "ShapeFlag", "_brep_output")
    n = 0
    for o in ends(ctx, f):
        for e, l in flat(o.events()):
            if e.kind == "loop" and isinstance(e.recv, Tok) and any(order(s) for s in subtoks(canon(e.recv))):
                changed = [s.args[0] for s in subtoks(canon(e.recv)) if s.op == "copyof" and str(s.args[0]).split(".")[-1] in ("sorted", "set", "frozenset", "reversed")]
                ctx.check(not changed, "flags", "output/order", "flags are not written in the order of the flag names", where(f))
            if e.kind == "call" and str(e.name).endswith(".write"):
                for s in subtoks(canon(e.args[-1])):
                    if s.op == "item" and canon(s.args[0]) == SELF:
                        n += 1
                        k = canon(s.args[1])
                        ctx.check(k.op == "elem" and order(k.args[0]), "flags", "output", "flags are not written in the order of the flag names", where(f))
    if n:
        ctx.saw("flag output", "write")
    f = method(ctx, "ShapeFlag", "__init__")
    for o in ends(ctx, f):
        sets = [e for e, l in flat(o.events()) if e.kind == "setitem" and canon(e.recv) == SELF]
        for e in sets:
            k, v = canon(e.args[0]), canon(e.args[1])
            ctx.check(k.op == "elem" and order(k.args[0]) and v.op == "elem" and canon(v.args[0]) == T("param", "args"), "flags", "given",
                      "given flags are not stored under the names in their order", where(f))
    f = method(ctx, "ShapeFlag", "set")
    for o in ends(ctx, f):
        for e, l in flat(o.events()):
            if e.kind == "setitem" and canon(e.recv) == SELF:
                ctx.check(canon(e.args[0]) == T("param", "key"), "flags", "set/key", "another flag is set", where(f))
                v = canon(e.args[1])
                truth = [bool(c.name) for c, l2 in flat(o.events()) if c.kind == "cond" and canon(c.recv) == T("param", "value")]
                if is_const(v) and truth:
                    ctx.check(bool(cval(v)) == truth[-1], "flags", "set/value", "a true value does not set the flag or a false one does", where(f))
    f = method(ctx, "Edge", "set_edge_flags")
    want = [T("param", p) for p in f.pos_params()[1:]]
    for o in ends(ctx, f):
        w = [e for e, l in flat(o.events()) if e.kind == "write" and e.name == "edge_flags"]
        v = canon(w[-1].args[-1]) if w else None
        if v is not None and v.op in ("tuple", "list"):
            got = [canon(x) for x in v.args if isinstance(x, Tok)]
            ctx.check(got == want, "flags", "edge", "the edge flags are not kept in the order given", where(f))
        else:
            ctx.check(v is not None, "flags", "edge", "the edge flags are not kept", where(f))
    f = method(ctx, "ShapeRef", "_writeformat")
    ori = T("attr", SELF, "orientation", None)
    for o in ends(ctx, f):
        for e, l in flat(o.events()):
            for a in e.args or ():
                for s in subtoks(canon(a)) if isinstance(a, Tok) else ():
                    if s.op == "item" and any(x.op == "clsattr" and "orient_chars" in x.args for x in [canon(s.args[0])]):
                        i = canon(s.args[1])
                        ok = i.op == "op" and i.args[0] == "-" and canon(i.args[1]).op == "attr" and canon(i.args[1]).args[1] == "orientation" and \
                            canon(canon(i.args[1]).args[0]) == SELF and is_const(i.args[2]) and cval(i.args[2]) == 1
                        ctx.check(ok, "flags", "orientation sign", "the sign does not belong to the orientation of the reference", where(f))


# ---------------------------------------------------------------------------------------- implicit
def reversed_test(t):
    t = canon(t)
    if t.op == "op" and t.args[0] in ("==", "is", "!="):
        xs = [canon(x) for x in t.args[1:3]]
        for a, b in (xs, xs[::-1]):
            if enumval("Reversed")(a) and b.op == "attr" and b.args[1] == "orientation":
                return [t.args[0] != "!="]
    return None


def turned(events):
    n = 0
    for e in events:
        if e.kind == "mut" and e.name == "reverse":
            n += 1
    return n


def backward(t):
    n = 0
    for s in subtoks(canon(t)):
        if s.op == "slice" and len(s.args) == 3 and isinstance(s.args[2], Tok) and is_const(s.args[2]) and cval(s.args[2]) == -1:
            n += 1
        if s.op in ("call", "pcall", "reversed", "copyof") and str(s.args[0]).endswith("reversed") or s.op == "reversed":
            n += 1
    return n


def implicit(ctx):
    f = method(ctx, "Face", "implicit_surface")
    wh = where(f)
    outs = ends(ctx, f, policy=opaque("plane", "bilinear", "attach_to_plane"))
    phi = {canon(k): [canon(x) for x in v] for k, v in ctx.last.phi_info.items()}
    for o in outs:
        for e, bs in loops(list(o.events()), []):
            for b, fl in bs:
                inner = [x for x in b if x.kind == "loop"]
                if not any(x.kind == "mut" and x.name == "append" for l in inner for bb, ff in bodies(l) for x in bb) and \
                        not any(x.kind == "mut" and x.name in ("append", "extend") for x in b):
                    continue
                conds = [(reversed_test(c.recv), bool(c.name)) for c in b if c.kind == "cond"]
                conds = [(r[0] == truth) for r, truth in conds if r]
                one = lambda t: backward(phi[t][0]) if t.op == "phi" and t in phi else backward(t)      # the value on the path whose condition is kept
                appended = {one(canon(x.recv)) if k == 0 else one(canon(x.args[-1])) for l in inner for bb, ff in bodies(l)
                            for k, x in [(0, l)] + [(1, y) for y in bb if y.kind == "mut" and y.name == "append"] if isinstance(x.recv if k == 0 else x.args[-1], Tok)}
                turn = turned(b) + (1 if any(appended) else 0)
                if conds or turn:
                    ctx.saw("vertex loops", "reversed" if conds and conds[-1] else "forward")
                    ctx.check(bool(conds) and all(c == conds[0] for c in conds) and (turn % 2 == 1) == conds[0], "implicit", "vertex order",
                              "the vertices of an edge are taken in the other order than the orientation of the edge tells", wh)
                else:
                    nested = [x for l in inner for bb, ff in bodies(l) for x in bb if x.kind == "loop"]
                    if not nested and any(x.kind == "mut" and x.name == "append" for l in inner for bb, ff in bodies(l) for x in bb):
                        ctx.bad("implicit", "vertex order", "the orientation of the edge is not considered", wh)
        for e, l in flat(o.events()):
            if e.kind in ("call", "pcall") and str(e.name).endswith("attach_to_plane"):
                ctx.saw("attached edges", "call")
                a = [canon(x) for x in e.args]
                for i in (0, 1):
                    t = a[2 + i] if len(a) > 3 else None
                    ctx.check(t is not None and uv_of(t, i, a[0]), "implicit", "line end %d" % i,
                              "the line does not %s the vertex %d of the edge" % ("start at" if i == 0 else "end at", i), wh)
                if len(a) > 1:
                    ctx.check(any(s.op in ("call", "pcall") and str(s.args[0]).split(".")[-1] in ("plane", "bilinear") for s in subtoks(a[1])) or
                              a[1].op in ("phi", "attr", "item"), "implicit", "surface", "the line does not lie on the surface of the face", wh)
    f = method(ctx, "Edge", "attach_to_plane")
    for o in ends(ctx, f, policy=opaque("attach_to_2d_curve", "line_2d")):
        for e, l in flat(o.events()):
            if e.kind in ("call", "pcall") and str(e.name).endswith("line_2d"):
                xs = [canon(x) for x in e.args if isinstance(x, Tok)]
                seqs = [[canon(y) for y in x.args if isinstance(y, Tok)] for x in xs if x.op in ("list", "tuple")]
                if seqs:
                    ctx.check(seqs[-1] == [T("param", "v0"), T("param", "v1")], "implicit", "plane line", "the line does not lead from v0 to v1", where(f))
    for name in ("attach_to_plane", "implicit_curve"):
        f = method(ctx, "Edge", name)
        for o in ends(ctx, f, policy=opaque("attach_to_2d_curve", "attach_to_3d_curve", "line_2d", "line_3d")):
            for e, l in flat(o.events()):
                if e.kind in ("call", "pcall") and str(e.name).split(".")[-1] in ("attach_to_2d_curve", "attach_to_3d_curve"):
                    r = [x for x in (canon(y) for y in e.args if isinstance(y, Tok)) if x.op in ("tuple", "list") and all(not isinstance(y, Tok) or is_const(y) for y in x.args)]
                    for x in r:
                        got = [cval(y) for y in x.args if isinstance(y, Tok)]
                        ctx.check(got == [0, 1], "implicit", name + "/range", "the line is used on the parameters %s" % got, where(f))
    f = method(ctx, "Edge", "implicit_curve")
    for o in ends(ctx, f, policy=opaque("attach_to_3d_curve", "line_3d")):
        for e, l in flat(o.events()):
            if e.kind in ("call", "pcall") and str(e.name).endswith("line_3d"):
                ctx.check(backward(e.args[-1]) == 0 and turned([x for x, l2 in flat(o.events())]) == 0, "implicit", "space line",
                          "the line leads from the second vertex to the first one", where(f))


def uv_of(t, i, edge):
    """The coordinates stored under the number of the i-th vertex of the edge."""
    if t.op != "item":
        return False
    k = canon(t.args[1])
    if k.op != "attr" or k.args[1] != "id":
        return False
    s = canon(k.args[0])
    if s.op == "attr" and s.args[1] == "shape":
        s = canon(s.args[0])
    if s.op != "item" or not is_const(s.args[1]) or cval(s.args[1]) not in (i, i - 2):
        return False
    return any(x == edge for x in subtoks(canon(s.args[0])))
