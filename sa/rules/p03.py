"""P03: every change of the decomposition is followed by the matching change of the search structures."""
import ast
from ..loader import AnalysisError
from ..rl import canon, same, looked_up, flat, bodies, fname, callers_of, where, root
from ..tok import T, show, subtoks, is_const, cval, NONE, Tok

LEVEL = "other"
EXPLANATION = ("Path-sensitive typestate over every library function that edits the planar decomposition: each edit "
               "(operation creating, removing, moving, splitting or joining a point or segment) leaves an obligation on "
               "the search structure of that kind, discharged on the same path by add_object / rm_object under the id "
               "of that very object with a box over its current coordinates and the snapping tolerance; the primitives "
               "of the structure are checked by dataflow over their array updates.")
D = "bgem.polygons.decomp.Decomposition."
L = "bgem.polygons.aabb_lookup."
OPS = ["add_free_point", "remove_free_point", "new_segment", "delete_segment", "split_segment", "join_segments", "_make_segment",
       "_destroy_segment"]
ADD, RM = L + "AABB_Lookup.add_object", L + "AABB_Lookup.rm_object"
QUERIES = ("closest_candidates", "intersect_candidates")
OPQ = [D + o for o in OPS] + [ADD, RM, L + "make_aabb", "bgem.polygons.point.Point.move"] + [L + "AABB_Lookup." + q for q in QUERIES]


def opclk(e):
    r = e.res
    if isinstance(r, Tok):
        for a in r.args:
            if isinstance(a, Tok) and a.op == "uid":
                return T("clk", *a.args)
    return None


class Need:
    def __init__(self, kind, obj, what, ev, body, coords=None):
        self.kind, self.obj, self.what, self.ev, self.body = kind, canon(obj), what, ev, body
        self.orig = body
        self.coords = coords or []      # alternative coordinate sets
        self.done = False
        self.wrong = None


def box_points(t):
    """Tokens of the points the box is made of, None when the box is not recognised."""
    if t.op in ("pcall", "call") and str(t.args[0]).endswith("make_aabb"):
        a = t.args[1]
        while a.op in ("call", "pcall") and str(a.args[0]).split(".")[-1] in ("array", "asarray", "vstack", "stack", "list", "tuple"):
            a = a.args[1]
        if a.op == "copyof":
            a = a.args[1]
        if a.op == "list":
            return list(a.args[1:]) if not (a.args and isinstance(a.args[0], Tok) and a.args[0].op != "site") else list(a.args)
        if a.op == "tuple":
            return list(a.args)
        return [a]
    return None


def list_items(a):
    return [x for x in a.args if isinstance(x, Tok) and x.op != "site"]


def is_xy(t):
    return t.op == "attr" and t.args[1] == "xy"


class Scan:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.problems = []      # (rule, construct, what, loc)
        self.oks = []
        self.changes = []       # all Needs in order
        self.adds = []          # (kind, obj, ev)
        self.nops = 0
        self.settled = []
        self.at = {}

    def problem(self, rule, what, ev, detail=""):
        self.problems.append((rule, fname(self.f) + (("/" + detail) if detail else ""), what, where(ev) if ev else self.f.loc(self.f.node)))

    def kind_of_lookup(self, t):
        t = canon(t)
        if t.op == "attr" and t.args[1] == "points_lookup":
            return "points"
        if t.op == "attr" and t.args[1] == "segments_lookup":
            return "segments"
        return None

    def scan(self, events, body, pending):
        """pending: list of open Needs (shared with enclosing bodies)."""
        gives = {}
        for e in events:
            if e.kind == "yield" and not body:
                # control leaves the operation: everything has to be in step here
                self.settled.extend(pending)
                del pending[:]
                gives.clear()
                self.adds.append(None)
                continue
            if e.kind == "loop":
                per = []
                loc = []
                for b, flow in bodies(e):
                    if flow == "raise":
                        continue
                    sub = []
                    g = self.scan(b, body + (e,), pending + sub if False else _Chain(pending, sub))
                    per.append(g)
                    loc.extend(n for n in sub if not n.done and n not in loc)
                if per:
                    common = set(per[0])
                    for g in per[1:]:
                        common &= set(g)
                    for k in common:
                        self.give(k, per[0][k], pending, self.at.get(id(per[0][k]), body + (e,)), e)
                        gives.setdefault(k, per[0][k])
                for n in loc:
                    n.body = body
                    pending.append(n)
                continue
            for n in self.change(e, body):
                self.nops += 1
                self.changes.append(n)
                if n.what == "dead":
                    # an object created before in the same part
                    for m in pending:
                        if m.kind == n.kind and m.obj is n.obj and m.what in ("live", "moved"):
                            m.done = True
                pending.append(n)
                # removal announced before
                if n.what == "dead":
                    for (kind, what, obj), ge in gives.items():
                        if kind == n.kind and what == "rm" and obj is n.obj:
                            n.done = True
            if e.kind == "call" and e.name in (ADD, RM):
                kind = self.kind_of_lookup(e.recv)
                if kind is None:
                    self.problem("structure", "search structure %s is not one of the decomposition" % show(e.recv), e)
                    continue
                idt = e.kw.get("id")
                if idt is None or idt.op != "attr" or idt.args[1] != "id":
                    self.problem("own-id", "an object is kept under %s instead of its id" % show(idt), e)
                    continue
                obj = canon(idt.args[0])
                key = (kind, "add" if e.name == ADD else "rm", obj)
                self.at[id(e)] = body
                self.give(key, e, pending, body, None)
                gives.pop((kind, "rm" if e.name == ADD else "add", obj), None)
                gives[key] = e
                if e.name == ADD:
                    self.adds.append((kind, obj, e))
        return gives

    def change(self, e, body):
        """Needs created by an event."""
        out = []
        k = e.kw
        if e.kind == "call" and e.name.startswith(D):
            op = e.name[len(D):]
            if op in ("add_free_point", "new_segment", "split_segment", "_make_segment") and op in OPS:
                self.ctx.saw("edits", "%s:%s" % (fname(self.f), op))
            p = [k.get(x) for x in self.ctx.prog.func(e.name).pos_params()[1:]]
            if op == "add_free_point":
                out.append(Need("points", e.res, "live", e, body, [[p[0]]]))
            elif op == "remove_free_point":
                out.append(Need("points", p[0], "dead", e, body))
            elif op == "new_segment":
                out.append(Need("segments", e.res, "live", e, body, [[p[0], p[1]]]))
            elif op == "_make_segment":
                alt = []
                if p[0].op in ("tuple", "list"):
                    alt = [list_items(p[0])]
                else:
                    alt = [[T("item", p[0], T("const", 0)), T("item", p[0], T("const", 1))]]
                out.append(Need("segments", e.res, "live", e, body, alt))
            elif op in ("delete_segment", "_destroy_segment"):
                out.append(Need("segments", p[0], "dead", e, body))
            elif op == "split_segment":
                out.append(Need("segments", e.res, "live", e, body,
                                [[p[1], T("item", T("attr", canon(p[0]), "vtxs"), T("const", 1))]]))
            elif op == "join_segments":
                out.append(Need("segments", p[2], "dead", e, body))
                out.append(Need("segments", p[1], "moved", e, body))
        elif e.kind == "call" and e.name == "bgem.polygons.point.Point.move":
            out.append(Need("points", k["self"], "moved", e, body))
            out.append(Need("segments", k["self"], "around", e, body))
        elif e.kind in ("write", "aug") and e.name == "xy" and e.recv is not None and e.recv.op != "new":
            out.append(Need("points", e.recv, "moved", e, body))
            out.append(Need("segments", e.recv, "around", e, body))
        return out

    def give(self, key, e, pending, body, loop):
        kind, what, obj = key
        for n in pending:
            if n.kind != kind:
                continue
            if n.what == "dead" and n.obj is obj:
                if what == "rm":
                    n.done = True
                else:
                    n.done = False
                    n.wrong = "a removed object is put back to the search structure"
            elif n.what in ("live", "moved") and n.obj is obj:
                if what == "rm":
                    n.done = False
                    n.wrong = "a live object is removed from the search structure"
                elif loop is None:
                    w = self.box_problem(n, e, body)
                    n.done = w is None
                    n.wrong = w
                elif not n.done and n.wrong is None:
                    w = self.box_problem(n, e, body)
                    n.done = w is None
                    n.wrong = w
            elif n.what == "around" and what == "add":
                # the object is an element of the segments around the moved point
                if self.around(obj, n.obj):
                    w = self.box_problem(n, e, body)
                    if w is None and loop is not None:
                        n.done = True
                    elif w is not None:
                        n.wrong = w

    def around(self, obj, pt):
        """Is the object one of the segments joined to the point?"""
        for s in subtoks(obj):
            if s.op == "gen" or (s.op in ("call", "pcall") and "Point.segments" in str(s.args[0])):
                if any(canon(x) is pt for x in subtoks(s)):
                    return True
        # elements collected before
        r = obj
        while r.op in ("item", "attr"):
            r = r.args[0]
        if r.op == "elem":
            coll = r.args[0]
            for c, item in self.collected:
                if canon(c) is canon(coll) and self.around(canon(item), pt):
                    return True
        return False

    def box_problem(self, n, e, body):
        box = e.kw.get("box")
        pts = box_points(box) if box is not None else None
        if pts is None:
            return "the box %s is not made of the coordinates of the object" % show(box)
        margin = box.args[2] if len(box.args) > 2 and isinstance(box.args[2], Tok) else None
        okm = margin is not None and any(canon(s) is T("attr", T("param", "self"), "tolerance") or
                                         (s.op == "attr" and s.args[1] == "tolerance") for s in subtoks(margin))
        if okm and margin.op == "op" and margin.args[0] in ("*", "/"):
            cs = [cval(a) for a in margin.args[1:] if is_const(a)]
            if cs and ((margin.args[0] == "*" and cs[0] < 1) or (margin.args[0] == "/" and cs[0] > 1)):
                okm = False
        if margin is not None and margin.op == "op" and margin.args[0] == "-":
            okm = False
        if not okm:
            return "the box is enlarged by %s instead of the tolerance" % show(margin)
        obj = canon(e.kw["id"].args[0])
        have = set()
        raw = []
        for p in pts:
            if p.op == "comp" or p.op == "elem":
                src = [s for s in subtoks(p) if canon(s) is T("attr", obj, "vtxs")]
                if src and any(is_xy(s) for s in subtoks(p)):
                    have |= {T("attr", T("item", T("attr", obj, "vtxs"), T("const", i)), "xy") for i in (0, 1)}
                    raw.append(p)
                    continue
            have.add(canon(p))
            raw.append(p)
        want = []
        if n.kind == "points":
            want = [{T("attr", obj, "xy")}]
        else:
            want = [{T("attr", T("item", T("attr", obj, "vtxs"), T("const", i)), "xy") for i in (0, 1)}]
        for alt in n.coords:
            if n.kind == "points":
                want.append({canon(alt[0])})
            else:
                w = {T("attr", canon(a), "xy") for a in alt}
                oc = opclk(n.ev)
                if n.what == "live" and oc is not None and any(
                        canon(t) in w and canon(t) not in want[0] and any(s is oc for s in subtoks(t)) for t in raw):
                    # endpoint of the other segment read after the change
                    continue
                want.append(w)
        if not any(w <= have for w in want):
            return "the box is made of %s" % ", ".join(sorted(show(x) for x in have))
        if n.what in ("moved", "around"):
            oc = opclk(n.ev)
            sameb = tuple(id(x) for x in n.orig) == tuple(id(x) for x in body)[:len(n.orig)]
            if oc is not None and sameb and not n_changed_since(raw, oc, n.what, self.f):
                return "the box is made of coordinates read before the change"
        return None

    collected = ()


class _Chain(list):
    """Pending needs of a loop body: iterates over the enclosing ones too, new ones go to the body."""

    def __init__(self, outer, own):
        super().__init__()
        self.outer, self.own = outer, own

    def __iter__(self):
        for n in self.outer:
            yield n
        for n in self.own:
            yield n

    def append(self, n):
        self.own.append(n)


def n_changed_since(raw, oc, what, f):
    """Do all the read tokens carry a mark of the change?"""
    for t in raw:
        marks = [s for s in subtoks(t) if s.op == "clk"]
        if any(s is oc for s in marks):
            continue
        # value written directly (no read)
        if any(s.op == "op" for s in subtoks(t)):
            continue
        return False
    return True


def collect(ctx, evs):
    out = []
    for e, loops in flat(evs):
        if e.kind == "mut" and e.name in ("add", "append") and e.args:
            out.append((e.recv, e.args[0]))
        if e.kind == "mut" and e.name in ("update", "extend") and e.args:
            out.append((e.recv, e.args[0]))
    return out


def examine(ctx, f):
    outs = ctx.run(f, opaque=OPQ)
    res = []
    nops = 0
    for o in outs:
        if o.flow != "return":
            continue
        evs = o.events()
        s = Scan(ctx, f)
        s.collected = collect(ctx, evs)
        pend = []
        s.scan(evs, (), pend)
        nops += s.nops
        for n in s.settled + pend:
            if n.done:
                res.append(("follows", fname(f), None, None))
            else:
                d = {"live": "a created object is not put to the search structure", "dead": "a removed object stays in the search structure",
                     "moved": "a moved object keeps its old box", "around": "segments of a moved point keep their old boxes"}[n.what]
                res.append(("follows", fname(f) + "/" + n.ev.name.split(".")[-1] + "/" + n.kind,
                            d + " of %s%s" % (n.kind, ": " + n.wrong if n.wrong else ""), where(n.ev)))
        # removals without reason, additions of something else
        for e, loops in flat(evs):
            if e.kind == "call" and e.name == RM:
                kind = s.kind_of_lookup(e.recv)
                idt = e.kw.get("id")
                if kind and idt is not None and idt.op == "attr":
                    obj = canon(idt.args[0])
                    ok = any(n.kind == kind and n.obj is obj and n.what == "dead" for n in s.changes) or \
                        any(k == kind and ob is obj for k, ob, ae in [a for a in s.adds if a])
                    if not ok:
                        res.append(("follows", fname(f) + "/rm_object", "a live object is removed from the search structure of %s" % kind, where(e)))
        for p in s.problems:
            res.append(p)
    return res, nops


def settle(ctx, f, seen):
    """Obligations of a function; a private helper may leave them to its callers."""
    if f.qual in seen:
        return
    seen.add(f.qual)
    res, nops = examine(ctx, f)
    bad = [r for r in res if r[2] is not None]
    if bad and f.name.startswith("_") and not f.deco_is(ctx.prog, "bgem.undo.undoable"):
        cs = {g.qual: g for g, n in callers_of(ctx, f.qual)}
        if cs:
            for g in cs.values():
                settle(ctx, g, seen)
            return
    for rule, c, what, loc in res:
        if what is None:
            ctx.ok(rule, c)
        else:
            ctx.bad(rule, c, what, loc)


def run(ctx):
    P = ctx.prog
    ctx.rule("follows", "each edit of points or segments is followed by the matching edit of the search structure with the current box")
    ctx.rule("own-id", "objects are kept in the search structure under their own id")
    ctx.rule("structure", "points and segments have their own search structures, created with the decomposition and not replaced alone")
    ctx.rule("box", "a box is the minimum and maximum of the coordinates shifted outwards by the margin")
    ctx.rule("table", "adding replaces the row of the id in a large enough table, removing marks the row as empty")
    ctx.rule("search", "searching looks at the used rows only and never reports empty rows")
    ctx.rule("ids", "found ids are resolved among the objects of the same kind")
    fs = {}
    for q in [D + o for o in OPS] + [ADD, RM, "bgem.polygons.point.Point.move"]:
        P.func(q)
        for f, n in callers_of(ctx, q):
            if f.cls is not None and f.cls.qual in ("bgem.polygons.decomp.Decomposition",):
                continue
            fs[f.qual] = f
    for f in P.funcs.values():
        if f.cls is not None and f.cls.qual in ("bgem.polygons.decomp.Decomposition", "bgem.polygons.point.Point"):
            continue
        for n in ast.walk(f.node):
            t = n.target if isinstance(n, ast.AugAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Attribute) and t.attr == "xy" and \
                    any(c == "bgem.polygons.point.Point" for c in ctx.types.inst_classes(t.value)):
                fs[f.qual] = f
    seen = set()
    for q in sorted(fs):
        ctx.saw("functions with edits", q)
        settle(ctx, fs[q], seen)
    ctx.expect("functions with edits", 7)
    ctx.expect("edits", 4)
    # coordinates are changed only by the front end operations
    structure(ctx)
    box_function(ctx)
    table(ctx)
    search(ctx)
    kinds(ctx)


def structure(ctx):
    P = ctx.prog
    C = P.cls("bgem.polygons.polygons.PolygonDecomposition")
    init = P.func(C.qual + ".__init__")
    for o in ctx.run(init, opaque=["Decomposition.__init__", "AABB_Lookup.__init__"]):
        w = {e.name: e.args[0] for e, l in flat(o.events()) if e.kind == "write" and e.recv is T("param", "self")}
        a, b = w.get("points_lookup"), w.get("segments_lookup")
        ctx.check(a is not None and b is not None and a is not b and all(x.op == "new" for x in (a, b)), "structure", fname(init),
                  "points and segments do not have their own new search structures", init.loc(init.node))
    for f in P.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in ("points_lookup", "segments_lookup") \
                    and f.qual != init.qual and f.parent is None:
                others = {m.attr for m in ast.walk(f.node) if isinstance(m, ast.Attribute) and isinstance(m.ctx, ast.Store)}
                ctx.check({"points_lookup", "segments_lookup", "decomp"} <= others or f.name == "__init__", "structure", fname(f),
                          "a search structure is replaced without the decomposition", f.loc(n))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in ("boxes", "n_boxes"):
                inside = f.cls is not None and f.cls.qual == L + "AABB_Lookup"
                typed = any(c == L + "AABB_Lookup" for c in ctx.types.inst_classes(n.value))
                if typed or inside:
                    ctx.check(inside, "structure", fname(f) + "/" + n.attr, "rows of a search structure are changed directly", f.loc(n))


def tail(t):
    return str(t.args[0]).split(".")[-1] if t.op in ("call", "pcall") else None


def is_fn(t, *names):
    return isinstance(t, Tok) and t.op in ("call", "pcall") and tail(t) in names


def box_function(ctx):
    f = ctx.prog.func(L + "make_aabb")
    pts, margin = (T("param", p) for p in f.pos_params()[:2])
    plain = grown = 0
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        v = o.val
        shift = None
        if v.op == "aug" or (v.op == "op" and v.args[0] == "+"):
            toks = [a for a in v.args if isinstance(a, Tok) and a.op != "clk"]
            parts = [a for a in toks if is_fn(a, "concatenate", "hstack", "append", "array", "r_")]
            rest = [a for a in toks if a not in parts]
            if parts and rest:
                v, shift = parts[0], rest[0]
        if is_fn(v, "concatenate", "hstack", "append"):
            seqs = v.args[1]
            items = list_items(seqs) if seqs.op in ("tuple", "list") else [a for a in v.args[1:3]]
            if len(items) == 2:
                def ext(x):
                    m = {"min": "min", "amin": "min", "max": "max", "amax": "max"}
                    for s in subtoks(x):
                        if is_fn(s, *m):
                            return m[tail(s)]
                        if s.op in ("call", "pcall") and str(s.args[0]).startswith("."):
                            n = str(s.args[0])[1:]
                            if n in m:
                                return m[n]
                    return None
                e = [ext(x) for x in items]
                if None not in e:
                    ctx.check(e == ["min", "max"], "box", fname(f) + "/corners", "corners of the box are (%s, %s)" % tuple(e), f.loc(f.node))
        cs = {e.recv: e.name in (True, "True") for e in o.events() if e.kind == "cond"}
        pos = [tv for c, tv in cs.items() if c.op == "op" and c.args[0] in ("<", "<=") and is_const(c.args[1]) and c.args[2] is margin
               and cval(c.args[1]) <= 0]
        neg = [tv for c, tv in cs.items() if c.op == "op" and c.args[0] in ("<", "<=") and is_const(c.args[2]) and c.args[1] is margin
               and cval(c.args[2]) <= 0]
        positive = (pos and pos[0]) or (neg and not neg[0])
        known = bool(pos or neg)
        if shift is None:
            plain += 1
            if positive:
                ctx.bad("box", fname(f) + "/margin", "a positive margin is not applied", f.loc(f.node))
            elif not known and any(s is margin for c in cs for s in subtoks(c)):
                ctx.bad("box", fname(f) + "/margin", "the margin is skipped under another condition than 'not positive'", f.loc(f.node))
        else:
            grown += 1
            if known:
                ctx.check(bool(positive), "box", fname(f) + "/margin", "only non-positive margins are applied", f.loc(f.node))
            sg = signs(ctx, f, shift, margin)
            if sg is not None:
                ctx.check(sg, "box", fname(f) + "/signs", "the margin does not move the lower corner down and the upper one up", f.loc(f.node))
    if not grown:
        # growth may be expressed otherwise; require at least a use of the margin in the result
        used = any(s is margin for o in ctx.run(f) if o.val is not None for s in subtoks(o.val))
        ctx.check(used, "box", fname(f) + "/margin", "the margin is not applied", f.loc(f.node))


def signs(ctx, f, shift, margin):
    """True when the shift is margin * [-1,-1,1,1]; None when not recognised."""
    if shift.op != "op" or shift.args[0] != "*":
        return None
    a, b = shift.args[1], shift.args[2]
    if a is not margin:
        a, b = b, a
    if a is not margin:
        return None
    node = None
    if b.op == "glob":
        m = ctx.prog.mods.get(b.args[0])
        for n in (m.tree.body if m else []):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == b.args[1]:
                node = n.value
    if node is None:
        for s in subtoks(b):
            if s.op in ("list", "tuple") and all(is_const(x) for x in list_items(s)) and len(list_items(s)) == 4:
                v = [cval(x) for x in list_items(s)]
                return v[0] == v[1] <= -1 and v[2] == v[3] >= 1
        return None
    try:
        arg = node.args[0] if isinstance(node, ast.Call) else node
        v = [float(x) for x in ast.literal_eval(arg)]
    except Exception:
        return None
    return len(v) == 4 and v[0] <= -1 and v[1] <= -1 and v[2] >= 1 and v[3] >= 1


def row_of(key, idp):
    return key is idp or (key.op == "tuple" and key.args and key.args[0] is idp)


def table(ctx):
    P = ctx.prog
    self_ = T("param", "self")
    f = P.func(ADD)
    idp, boxp = (T("param", p) for p in f.pos_params()[1:3])
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        evs = [e for e, l in flat(o.events())]
        top = o.events()
        sets = [e for e in evs if e.kind == "setitem"]
        rows = [e for e in sets if row_of(e.args[0], idp)]
        ctx.check(len(rows) >= 1 and rows[-1].args[1] is boxp and rows[-1] in top, "table", fname(f) + "/row",
                  "the box is not stored in the row of its id on every path", f.loc(f.node))
        ctx.check(all(row_of(e.args[0], idp) for e in sets), "table", fname(f) + "/other rows", "rows of other ids are changed", f.loc(f.node))
        nb = [e for e in evs if e.kind == "write" and e.name == "n_boxes"]
        good = False
        for e in nb:
            v = e.args[0]
            if is_fn(v, "max", "maximum"):
                args = [a for a in v.args[1:] if isinstance(a, Tok)]
                good = any(plus(a, idp) is not None and plus(a, idp) >= 1 for a in args) and any(canon(a) is T("attr", self_, "n_boxes") for a in args)
            elif plus(v, idp) is not None:
                good = plus(v, idp) >= 1 and bounded(o, idp, True)
            if not good:
                ctx.bad("table", fname(f) + "/used rows", "the number of used rows becomes %s" % show(v), where(e))
        if not nb:
            good = bounded(o, idp, False)
            ctx.check(good, "table", fname(f) + "/used rows", "the number of used rows does not include the new id", f.loc(f.node))
        elif good:
            ctx.ok("table", fname(f) + "/used rows")
        # growth: rows added to the table are empty
        for e in evs:
            if e.kind == "write" and e.name == "boxes":
                fulls = [s for s in subtoks(e.args[0]) if is_fn(s, "full", "zeros", "ones", "empty")]
                if fulls:
                    ctx.check(all(is_fn(s, "full") and any(canon(x) is T("attr", self_, "inf") for x in subtoks(s)) for s in fulls),
                              "table", fname(f) + "/growth", "rows added to the table are not empty", where(e))
                keep = any(s.op in ("lphi", "attr") for s in subtoks(e.args[0]))
                ctx.check(keep, "table", fname(f) + "/growth keeps", "growing the table forgets the stored boxes", where(e))
        # the row exists: either a loop on the table size or a condition
        size = [c for e in o.events() if e.kind == "cond" for c in [e.recv] if any(s is idp for s in subtoks(c))]
        if size and any(e.kind == "loop" for e in top):
            lastc = [e for e in top if e.kind == "cond" and any(s is idp for s in subtoks(e.recv)) and
                     not any(s.op == "attr" and s.args[1] == "n_boxes" for s in subtoks(e.recv))]
            if lastc:
                c, tv = lastc[-1].recv, lastc[-1].name in (True, "True")
                # id < size must hold
                okc = c.op == "op" and ((c.args[0] == "<" and c.args[1] is idp and tv) or
                                        (c.args[0] in ("<=",) and c.args[2] is idp and not tv) or
                                        (c.args[0] == "<=" and plus(c.args[1], idp) == 1 and tv))
                ctx.check(okc, "table", fname(f) + "/large enough", "the table may be too small for the id (%s is %s)" % (show(c), tv), f.loc(f.node))
    f = P.func(RM)
    idp = T("param", f.pos_params()[1])
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        sets = [e for e, l in flat(o.events()) if e.kind == "setitem" and canon(e.recv) is T("attr", self_, "boxes")]
        rows = [e for e in sets if row_of(e.args[0], idp)]
        okr = len(rows) >= 1 and len(sets) == len(rows) and (canon(rows[-1].args[1]) is T("attr", self_, "inf") or
                                                           any(canon(s) is T("attr", self_, "inf") for s in subtoks(rows[-1].args[1])))
        if okr and rows[-1].args[0].op == "tuple":
            k = rows[-1].args[0].args
            okr = len(k) < 2 or (k[1].op == "slice" and all(a is NONE for a in k[1].args))
        ctx.check(okr, "table", fname(f), "the row of the removed id is not emptied on every path", f.loc(f.node))
        nb = [e for e, l in flat(o.events()) if e.kind == "write" and e.name in ("n_boxes", "boxes")]
        ctx.check(not nb, "table", fname(f) + "/rows", "removing changes the number of used rows", f.loc(f.node))


def plus(t, base):
    """Constant c when the token is base + c."""
    if t is base:
        return 0
    if t.op == "op" and t.args[0] in ("+", "-") and len(t.args) == 3:
        a, b = t.args[1], t.args[2]
        if t.args[0] == "+" and is_const(a):
            a, b = b, a
        if a is base and is_const(b):
            return cval(b) if t.args[0] == "+" else -cval(b)
    return None


def bounded(o, idp, above):
    """Path condition: id >= n_boxes (above) or id < n_boxes."""
    nb = T("attr", T("param", "self"), "n_boxes")
    for e in o.events():
        if e.kind != "cond" or e.recv.op != "op":
            continue
        tv = e.name in (True, "True")
        a = e.recv.args
        if a[0] in ("<", "<=") and len(a) == 3:
            l, r = canon(a[1]), canon(a[2])
            # l < r
            if plus(l, idp) is not None and r is nb:
                c = plus(l, idp)
                less = tv      # id + c <(=) n
                if not above and less and ((a[0] == "<" and c >= 0) or (a[0] == "<=" and c >= 1)):
                    return True
                if above and not less:
                    return True
            if l is nb and plus(r, idp) is not None:
                c = plus(r, idp)
                if above and tv:
                    return True
                if not above and not tv and ((a[0] == "<" and c >= 1) or (a[0] == "<=" and c >= 0)):
                    return True
    return False


def used_rows(t):
    """Every use of the table is limited to the used rows."""
    ok = True
    n = 0
    seen = set()

    def walk(x, sliced):
        nonlocal ok, n
        if not isinstance(x, Tok):
            return
        if (x, sliced) in seen:
            return
        seen.add((x, sliced))
        if x.op == "attr" and x.args[1] == "boxes":
            n += 1
            if not sliced:
                ok = False
            return
        if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "boxes":
            k = x.args[1]
            k0 = k.args[0] if k.op == "tuple" and k.args else k
            good = k0.op == "slice" and canon(k0.args[1]).op == "attr" and canon(k0.args[1]).args[1] == "n_boxes" and \
                (k0.args[0] is NONE or (is_const(k0.args[0]) and cval(k0.args[0]) == 0)) and k0.args[2] is NONE
            walk(x.args[0], good)
            walk(k, False)
            return
        for a in x.args:
            walk(a, False)
    walk(t, False)
    return ok, n


def search(ctx):
    P = ctx.prog
    self_ = T("param", "self")
    inf = T("attr", self_, "inf")
    for name in QUERIES:
        f = P.func(L + "AABB_Lookup." + name)
        tabs = 0
        for o in ctx.run(f, keep_conds=True):
            if o.flow != "return" or o.val is None:
                continue
            okr, n = used_rows(o.val)
            tabs += n
            ctx.check(okr, "search", fname(f) + "/rows", "rows out of the used part are searched", f.loc(f.node))
            ws = [e for e, l in flat(o.events()) if e.kind in ("write", "setitem", "aug") and root(canon(e.recv)) is self_]
            ctx.check(not ws, "search", fname(f) + "/changes", "searching changes the structure", where(ws[0]) if ws else "")
        if not tabs:
            raise AnalysisError("%s does not use the table" % f.qual)
    f = P.func(L + "AABB_Lookup.closest_candidates")
    point = T("param", f.pos_params()[1])
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return" or o.val is None:
            continue
        v = o.val
        if not any(s.op == "attr" and s.args[1] == "boxes" for s in subtoks(v)):
            continue
        conds = [(e.recv, e.name in (True, "True")) for e in o.events() if e.kind == "cond"]
        # the candidates are rows closer than a bound derived from the closest rows; both the empty table and the table
        # of removed rows only are excluded before
        empty = any(is_size(c) for c, tv in conds)
        gone = any(any(canon(s) is inf for s in subtoks(c)) for c, tv in conds) or any(canon(s) is inf for s in subtoks(v))
        guard_v = any(is_fn(s, "logical_and", "isfinite", "bitwise_and") for s in subtoks(v))
        ctx.check(empty, "search", fname(f) + "/empty", "an empty table is searched", f.loc(f.node))
        ctx.check(gone or guard_v, "search", fname(f) + "/removed", "removed ids are reported when no live object is left", f.loc(f.node))
        # polarity of the guard: min distance < c * inf
        for c, tv in conds:
            if c.op == "op" and c.args[0] in ("<", "<=") and any(canon(s) is inf for s in subtoks(c)):
                left = any(canon(s) is inf for s in subtoks(c.args[1]))
                ctx.check(tv == (not left), "search", fname(f) + "/removed polarity", "live objects are skipped, removed ones reported", f.loc(f.node))
                q = c.args[1] if left else c.args[2]
                cst = [cval(s) for s in subtoks(q) if is_const(s) and isinstance(cval(s), (int, float))]
                if q.op == "op" and q.args[0] == "*" and cst:
                    ctx.check(0 < cst[0] < 1, "search", fname(f) + "/removed bound", "removed rows pass the test (%s)" % show(c), f.loc(f.node))
        # distance: signed, positive outside
        for s in subtoks(v):
            if is_fn(s, "maximum") and len([a for a in s.args[1:] if isinstance(a, Tok)]) >= 2:
                a = [x for x in s.args[1:] if isinstance(x, Tok)][:2]
                d = [corner_diff(x, point) for x in a]
                if None in d:
                    continue
                # outside distance: (lower - point), (point - upper); inside extent: (point - lower), (upper - point)
                ctx.check(set(d) in ({("lo", "-p"), ("hi", "p-")}, {("lo", "p-"), ("hi", "-p")}), "search", fname(f) + "/distance",
                          "distance to a box is made of %s" % (d,), f.loc(f.node))
        # bound: circle of the closest boxes
        for s in subtoks(v):
            if s.op == "op" and s.args[0] in ("<", "<=", ">", ">="):
                l, r = s.args[1:3] if s.args[0][0] == "<" else (s.args[2], s.args[1])
                if not (any(x.op == "attr" and x.args[1] == "boxes" for x in subtoks(l)) and
                        any(x.op == "attr" and x.args[1] == "boxes" for x in subtoks(r))):
                    continue
                lk, rk = measure(l, point), measure(r, point)
                if lk is None or rk is None:
                    continue
                ctx.check((lk[0], rk[0]) == ("out", "in"), "search", fname(f) + "/selected",
                          "selected are rows with %s distance below the %s distance" % (lk[0], rk[0]), f.loc(f.node))
                ctx.check(rk[1] >= 2 ** 0.5 - 1e-12, "search", fname(f) + "/bound",
                          "the bound of the closest box does not cover its corners (factor %g)" % rk[1], f.loc(f.node))
    f = P.func(L + "AABB_Lookup.intersect_candidates")
    box = T("param", f.pos_params()[1])
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return" or o.val is None:
            continue
        n = 0
        for s in subtoks(o.val):
            if s.op == "op" and s.args[0] in ("<", "<=", ">", ">="):
                l, r, op = half(s.args[1], box), half(s.args[2], box), s.args[0]
                if l is None or r is None:
                    continue
                if op[0] == ">":
                    l, r, op = r, l, "<" + op[1:]
                n += 1
                ctx.check(l[1] == "hi" and r[1] == "lo" and l[0] != r[0] and op == "<", "search", fname(f) + "/disjoint",
                          "boxes are taken as disjoint when %s %s %s" % (l, op, r), f.loc(f.node), key=fname(f) + "/disjoint")
        pol = polarity(o.val, box)
        if pol is not None:
            ctx.check(pol, "search", fname(f) + "/selected", "the disjoint boxes are reported", f.loc(f.node))
        if n:
            ctx.check(n >= 2, "search", fname(f) + "/sides", "boxes are compared on one side only", f.loc(f.node))
            ands = [s for s in subtoks(o.val) if is_fn(s, "logical_and", "bitwise_and") or (s.op == "op" and s.args[0] == "&")]
            ctx.check(not ands, "search", fname(f) + "/any side", "boxes disjoint in one direction only are reported", f.loc(f.node))


def is_size(c):
    return any(s.op == "attr" and s.args[1] in ("shape", "size", "n_boxes") or (s.op == "op" and s.args[0] == "len") or
               s.op == "nonempty" for s in subtoks(c)) and \
        any((s.op == "attr" and s.args[1] in ("boxes", "n_boxes")) for s in subtoks(c))


def half(t, box=None):
    """('b'|'q', 'lo'|'hi') when the token is the lower / upper corner of the table rows or of the queried box."""
    if t.op != "item":
        return None
    k = t.args[1]
    sl = k
    if k.op == "tuple":
        if not k.args or not (k.args[0].op == "slice"):
            return None
        sl = k.args[-1]
    if sl.op == "slice":
        a, b = sl.args[0], sl.args[1]
        lo = 0 if a is NONE else cval(a) if is_const(a) else None
        hi = 4 if b is NONE else cval(b) if is_const(b) else None
        w = {(0, 2): "lo", (2, 4): "hi"}.get((lo, hi))
        if w is None:
            return None
        if box is not None and t.args[0] is box:
            return ("q", w)
        if any(s.op == "attr" and s.args[1] == "boxes" for s in subtoks(t.args[0])):
            return ("b", w)
    return None


def corner_diff(t, point):
    if t.op == "op" and t.args[0] == "-" and len(t.args) == 3:
        a, b = t.args[1], t.args[2]
        if a is point and half(b):
            return (half(b)[1], "p-")
        if b is point and half(a):
            return (half(a)[1], "-p")
    return None


def measure(t, point):
    """('out'|'in', factor) of a distance expression."""
    f = 1.0
    while True:
        if is_fn(t, "norm"):
            # norm of (x), (x, x)
            x = t.args[1]
            while is_fn(x, "array", "asarray"):
                x = x.args[1]
            its = [y for y in x.args if isinstance(y, Tok) and y.op != "site"] if x.op in ("list", "tuple") else []
            if not its or any(y is not its[0] for y in its):
                return None
            f *= len(its) ** 0.5
            t = its[0]
            continue
        if not (t.op == "op" and t.args[0] == "*"):
            break
        a, b = t.args[1], t.args[2]
        n = number(a)
        if n is None:
            a, b = b, a
            n = number(a)
        if n is None:
            return None
        f *= n
        t = b
    kinds = set()
    # the outermost maximum decides
    todo = [t]
    while todo:
        x = todo.pop()
        if is_fn(x, "maximum"):
            ds = {corner_diff(a, point) for a in x.args[1:] if isinstance(a, Tok)}
            if {("lo", "-p"), ("hi", "p-")} <= ds:
                kinds.add("out")
            elif {("lo", "p-"), ("hi", "-p")} <= ds:
                kinds.add("in")
            continue
        if x.op in ("call", "pcall"):
            todo.extend(a for a in x.args[1:] if isinstance(a, Tok))
    if len(kinds) != 1:
        return None
    return kinds.pop(), f


def number(t):
    if is_const(t) and isinstance(cval(t), (int, float)):
        return float(cval(t))
    if is_fn(t, "sqrt") and is_const(t.args[1]):
        return float(cval(t.args[1])) ** 0.5
    if t.op == "op" and t.args[0] == "**" and is_const(t.args[1]) and is_const(t.args[2]):
        return float(cval(t.args[1])) ** float(cval(t.args[2]))
    return None


def polarity(v, box):
    """Parity of negations between the result and the comparisons: True when non-disjoint rows are reported."""
    todo = [(v, 0)]
    res = set()
    seen = set()
    while todo:
        x, p = todo.pop()
        if not isinstance(x, Tok) or (x, p) in seen:
            continue
        seen.add((x, p))
        if x.op == "op" and x.args[0] in ("<", "<=", ">", ">=") and half(x.args[1], box) and half(x.args[2], box):
            res.add(p % 2 == 1)
            continue
        if is_fn(x, "logical_not", "invert") or (x.op == "op" and x.args[0] in ("not", "~")):
            p += 1
        for a in x.args:
            todo.append((a, p))
    return res.pop() if len(res) == 1 else None


def kinds(ctx):
    """Ids found in a search structure index the objects of the same kind."""
    P = ctx.prog
    for name in QUERIES:
        q = L + "AABB_Lookup." + name
        sites = {f.qual: f for f, n in callers_of(ctx, q)}
        for f in sites.values():
            ctx.saw("searching functions", f.qual)
            for o in ctx.run(f, opaque=OPQ + ["PolygonDecomposition._add_line_new_segments", "PolygonDecomposition._point_on_segment",
                                              "PolygonDecomposition.add_line_for_points"]):
                toks = set()
                for e, l in flat(o.events()):
                    for a in list(e.args) + [e.recv, e.res]:
                        if isinstance(a, Tok):
                            toks.add(a)
                if o.val is not None:
                    toks.add(o.val)
                seen = set()
                for t in toks:
                    for s in subtoks(t):
                        if s in seen:
                            continue
                        seen.add(s)
                        if s.op == "item" and s.args[0].op == "attr" and s.args[0].args[1] in ("points", "segments", "polygons", "wires"):
                            k = s.args[1]
                            while k.op in ("elem", "item"):
                                k = k.args[0]
                            if k.op in ("call", "pcall") and str(k.args[0]).endswith(QUERIES):
                                lk = [x.args[1] for x in subtoks(k) if x.op == "attr" and x.args[1] in ("points_lookup", "segments_lookup")]
                                want = s.args[0].args[1] + "_lookup"
                                ctx.check(lk == [want], "ids", fname(f), "ids found in %s index %s" % (lk, s.args[0].args[1]), f.loc(f.node))
    ctx.expect("searching functions", 3)
