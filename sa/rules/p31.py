"""P31: the vertex/edge/face tables of simplices are consistent with each other and with the code indexing them."""
import ast
from itertools import combinations
from .. import heal, simplex as X, symeval as S
from ..loader import AnalysisError
from ..rl import bodies, canon, fname, where
from ..tok import T, Tok, NONE, const, is_const, cval, subtoks

LEVEL = "other"
TECHNIQUE = "constant-table analysis and algebraic normal forms (polynomial identities over the vertex coordinates) of the expressions indexing the tables"
EXPLANATION = ("The constant vertex, edge and face tables of the simplex classes and of the reference simplex are read from the source "
               "and checked as incidence tables (complete, closed, consistently oriented). The queries built over them are brought to "
               "a polynomial normal form over symbolic vertex coordinates and compared with the identity they stand for (length of the "
               "edge, area of the face, inner normal opposite to its vertex, signed volume); index arithmetic of the healing code is "
               "evaluated on every row of the table it indexes.")
GM = "bgem.gmsh.gmsh.GeometryOCC"


def run(ctx):
    ctx.rule("dispatch", "a shape is made by the class whose tables have as many vertices as the element")
    ctx.rule("edges", "the edge table lists every pair of vertices once")
    ctx.rule("faces", "the face table lists every triple of vertices once, as a closed consistently oriented surface")
    ctx.rule("opposite", "edge i of a triangle is opposite to vertex i, in cyclic orientation")
    ctx.rule("vectors", "edge vector and length i belong to edge i of the table")
    ctx.rule("measure", "measure is the (signed) length, area or volume of the simplex")
    ctx.rule("normals", "face normals are of one orientation, in the order of the face table")
    ctx.rule("areas", "face areas follow the order of the face table")
    ctx.rule("inner", "the node splitting a face is the one vertex not in the face")
    ctx.rule("side", "the outer face of a flat tetrahedron is the one whose normal is alone on its side")
    ctx.rule("project", "a vertex of a flat triangle moves to its projection on the opposite edge")
    ctx.rule("quad", "a quadrilateral flat element splits its four faces along the edges that intersect")
    ctx.rule("intersection", "the node added to a flat quadrilateral is the solution of the equations of both intersecting edges")
    ctx.rule("reference", "the reference simplex has independent points, closed loops and a closed surface")
    classes = X.classes(ctx)
    if not classes:
        raise AnalysisError("no dispatch of shape classes by the number of vertices in " + X.MOD)
    for n, c in sorted(classes.items()):
        ctx.saw("shape classes", fname(c.qual))
        tables(ctx, n, c)
        queries(ctx, n, c)
    inner(ctx, classes)
    side(ctx)
    project(ctx, classes)
    quad(ctx)
    intersection(ctx)
    reference(ctx)
    ctx.expect("shape classes", 3)
    ctx.expect("tables", 4)
    ctx.expect("queries", 5)


def loc_of(k, st):
    return "%s:%d" % (k.mod.path if hasattr(k.mod, "path") else k.mod.name, st.lineno)


def pairs(t, n):
    return isinstance(t, (list, tuple)) and all(isinstance(e, (list, tuple)) and all(type(x) is int for x in e) for e in t)


def tables(ctx, n, c):
    e = X.table(ctx, c, "edges")
    if e and pairs(e[0], n):
        t, k, st = e
        ctx.saw("tables", "%s.edges" % fname(k.qual))
        where_ = k.mod.loc(st) if hasattr(k.mod, "loc") else loc_of(k, st)
        con = fname(c.qual) + ".edges"
        need = sorted(combinations(range(n), 2))
        ok = all(len(x) == 2 for x in t) and sorted(tuple(sorted(x)) for x in t) == need
        used = {v for x in t for v in x}
        ctx.check(used == set(range(n)) or not used and n == 1, "dispatch", con,
                  "an element of %d vertices is made by a class whose edges join the vertices %s" % (n, sorted(used)), where_)
        ctx.check(ok, "edges", con,
                  "the edges %s are not the %d pairs of %d vertices" % (t, len(need), n), where_)
        if n == 3 and ok:
            ctx.check(all(i not in x for i, x in enumerate(t)), "opposite", con,
                      "edge i contains vertex i in %s" % (t,), where_)
            ctx.check(sorted(x[0] for x in t) == [0, 1, 2] and sorted(x[1] for x in t) == [0, 1, 2], "opposite", con + " (orientation)",
                      "a vertex has no incoming or no outgoing edge in %s" % (t,), where_)
    f = X.table(ctx, c, "vtxs_faces")
    if f and pairs(f[0], n) and n >= 3:
        t, k, st = f
        ctx.saw("tables", "%s.vtxs_faces" % fname(k.qual))
        where_ = k.mod.loc(st) if hasattr(k.mod, "loc") else loc_of(k, st)
        con = fname(c.qual) + ".vtxs_faces"
        need = sorted(combinations(range(n), 3))
        ok = all(len(x) == 3 for x in t) and sorted(tuple(sorted(x)) for x in t) == need
        ctx.check(ok, "faces", con, "the faces %s are not the %d triples of %d vertices" % (t, len(need), n), where_)
        if n == 4 and ok:
            d = [(x[i], x[(i + 1) % 3]) for x in t for i in range(3)]
            ctx.check(len(set(d)) == 12, "faces", con + " (orientation)",
                      "two faces of %s pass their common edge in the same direction" % (t,), where_)


def queries(ctx, n, c):
    """Identities of the queries over the coordinates of the vertices."""
    s = X.Shape(ctx, c, n)
    et = X.table(ctx, c, "edges")
    ft = X.table(ctx, c, "vtxs_faces")
    x = s.nodes
    diff = lambda a, b: [S.add(p, q, -1) for p, q in zip(x[a], x[b])]

    def get(name):
        m = ctx.prog.find_method(c, name)
        if m is None:
            return None, None
        try:
            v = s.get(name)
        except S.Unknown as e:
            ctx.notes.append("%s.%s is not evaluated (%s)" % (fname(c.qual), name, e))
            return None, m
        ctx.saw("queries", "%s.%s" % (fname(c.qual), name))
        return v, m
    if et and pairs(et[0], n) and et[0]:
        t = et[0]
        v, m = get("edge_vectors")
        if v is not None and S.isarr(v):
            ctx.check(len(v) == len(t) and all(u == diff(b, a) for (a, b), u in zip(t, v)), "vectors", fname(c.qual) + ".edge_vectors",
                      "edge vector i is not the difference of the second and the first vertex of edge i", where(m))
        v, m = get("edge_lens")
        if v is not None and S.isarr(v):
            want = [S.power(S.total(S.mul(q, q) for q in diff(b, a)), S.Fraction(1, 2)) for a, b in t]
            ctx.check(len(v) == len(t) and all(p == q for p, q in zip(v, want)), "vectors", fname(c.qual) + ".edge_lens",
                      "edge length i is not the distance of the vertices of edge i", where(m))
    v, m = get("measure")
    if isinstance(v, S.E) and n >= 2:
        if n == 4:
            d = S.det([diff(i, 0) for i in (1, 2, 3)])
            want = S.mul(d, S.num(S.Fraction(1, 6)))
            text = "is not a sixth of the determinant of the edge vectors of vertex 0 (positive orientation)"
            ok = S.zero(S.add(v, want, -1))
        else:
            w = S.cross(diff(1, 0), diff(2, 0)) if n == 3 else diff(1, 0)
            want = S.mul(S.total(S.mul(q, q) for q in w), S.num(S.Fraction(1, 4 if n == 3 else 1)))
            text = "is not the %s" % ("area" if n == 3 else "length")
            ok = S.zero(S.add(S.mul(v, v), want, -1))
        ctx.check(ok, "measure", fname(c.qual) + ".measure", "measure " + text, where(m))
    if n == 4 and ft and pairs(ft[0], n) and sorted(tuple(sorted(y)) for y in ft[0]) == sorted(combinations(range(4), 3)):
        t = ft[0]
        vol = S.det([diff(i, 0) for i in (1, 2, 3)])
        v, m = get("face_normals")
        if v is not None and S.isarr(v) and len(v) == 4 and all(S.isarr(u) and len(u) == 3 for u in v):
            tot = [S.total(u[j] for u in v) for j in range(3)]
            ctx.check(all(S.zero(y) for y in tot), "normals", fname(c.qual) + ".face_normals (sum)",
                      "the normals of the four faces do not sum to zero (different orientation or scale)", where(m))
            signs = set()
            for f, u in zip(t, v):
                o, = set(range(4)) - set(f)
                h = S.total(S.mul(p, q) for p, q in zip(u, diff(o, f[0])))
                on = all(S.zero(S.total(S.mul(p, q) for p, q in zip(u, diff(f[i], f[0])))) for i in (1, 2))
                signs.add(1 if on and S.zero(S.add(h, vol, -1)) else -1 if on and S.zero(S.add(h, vol)) else 0)
            ctx.check(signs in ({1}, {-1}), "normals", fname(c.qual) + ".face_normals",
                      "normal i is not the normal of face i, of twice its area and of the orientation of the other faces", where(m))
        v, m = get("face_areas")
        if v is not None and S.isarr(v) and len(v) == 4 and all(isinstance(u, S.E) for u in v):
            bad = []
            for f, u in zip(t, v):
                w = S.cross(diff(f[1], f[0]), diff(f[2], f[0]))
                if not S.zero(S.add(S.mul(u, u), S.mul(S.total(S.mul(q, q) for q in w), S.num(S.Fraction(1, 4))), -1)):
                    bad.append(f)
            ctx.check(not bad, "areas", fname(c.qual) + ".face_areas", "area i is not the area of face i for faces %s" % bad, where(m))


# ---------------------------------------------------------------- code indexing the tables
def table_of(ctx, t):
    """Constant table named by a token."""
    t = canon(t)
    while t.op in ("call", "pcall") and t.args[0] in ("numpy.array", "numpy.asarray", "builtins.list"):
        t = canon(t.args[1])
    if t.op == "clsattr" and t.args[0] in ctx.prog.classes:
        r = X.table(ctx, ctx.prog.classes[t.args[0]], t.args[1])
        return (t.args[1], r[0]) if r and r[0] is not None else None
    if t.op == "attr" and t.args[1] in ("vtxs_faces",):
        r = X.table(ctx, X.classes(ctx)[4], t.args[1])
        return (t.args[1], r[0]) if r and r[0] is not None else None
    return None


def ids_of(t):
    """Index into the node ids of the element (ele.node_ids[X]) of a token."""
    t = canon(t)
    if t.op == "item" and canon(t.args[0]).op == "attr" and canon(t.args[0]).args[1] == "node_ids":
        return canon(t.args[1]), canon(t.args[0])
    return None


def walk(evs):
    for e in evs:
        yield e
        if e.kind == "loop":
            for b, fl in bodies(e):
                yield from walk(b)


def heal_methods(ctx):
    cls = ctx.prog.classes.get(heal.HM)
    if cls is None:
        raise AnalysisError("no class " + heal.HM)
    return [f for q, f in sorted(ctx.prog.funcs.items()) if f.cls is cls and f.parent is None and f.name.startswith("_")]


def inner(ctx, classes):
    """new_ids[i] = ele.node_ids[X(face)] in the elements common to face ele.node_ids[table[face]]."""
    done = {}
    for f in heal_methods(ctx):
        for o in ctx.run(f, keep_conds=True, policy=heal.policy):
            for e in walk(o.events()):
                if e.kind != "loop" or e.recv is None:
                    continue
                coll = canon(e.recv)
                while coll.op in ("copyof", "list") and len(coll.args) == 2:
                    coll = canon(coll.args[1])
                if not heal.called(coll, "common_elements"):
                    continue
                g = ids_of(coll.args[2])
                if g is None or g[0].op != "item":
                    continue
                tb = table_of(ctx, g[0].args[0])
                if tb is None or tb[0] != "vtxs_faces":
                    continue
                p = canon(g[0].args[1])
                for w in (x for b, fl in bodies(e) for x in walk(b)):
                    if w.kind != "setitem":
                        continue
                    new = ids_of(w.args[1])
                    if new is None or new[1] is not g[1] and new[1] != g[1] or p not in list(subtoks(new[0])):
                        continue
                    bad, ev = [], S.Ev(clsattr=lambda c, n: S.lift(X.table(ctx, ctx.prog.classes[c], n)[0]))
                    try:
                        for i, face in enumerate(tb[1]):
                            ev.env = {p: S.num(i)}
                            k = S.idx(ev(new[0]))
                            if not 0 <= k < 4 or k in face:
                                bad.append((i, k))
                    except S.Unknown:
                        continue
                    done.setdefault(f.qual, (f, w, []))[2].extend(bad)
    for q, (f, w, bad) in sorted(done.items()):
        ctx.check(not bad, "inner", fname(q), "the splitting node is a vertex of the split face for (face, node) %s" % sorted(set(bad)), where(f))
        ctx.saw("face splittings", fname(q))


NEG = {">": "<=", "<": ">=", ">=": "<", "<=": ">"}
SWAP = {">": "<", "<": ">", ">=": "<=", "<=": ">="}


def relation(t, neg=False):
    """(op, a, b) of a comparison token, normalised to > or <=."""
    t = canon(t)
    while t.op == "op" and t.args[0] in ("not", "~", "invert") or t.op in ("call", "pcall") and t.args[0] in ("numpy.logical_not", "numpy.invert"):
        t, neg = canon(t.args[1]), not neg
    if t.op == "op" and t.args[0] in NEG and len(t.args) == 3:
        op, a, b = t.args[0], canon(t.args[1]), canon(t.args[2])
        if neg:
            op = NEG[op]
        if is_const(a):
            op, a, b = SWAP[op], b, a
        return op, a, b
    return None


def noclk(t):
    return T(t.op, *[noclk(a) for a in t.args if not (isinstance(a, Tok) and a.op in ("clk", "uid", "ver"))]) \
        if isinstance(t, Tok) and any(isinstance(a, Tok) for a in t.args) else t


def side(ctx):
    seen = 0
    for f in heal_methods(ctx):
        bad, n = [], 0
        for o in ctx.run(f, keep_conds=True, policy=heal.policy):
            evs = list(walk(o.events()))
            count = None
            for e in evs:
                if e.kind == "cond" and isinstance(e.recv, Tok) and str(e.name) == "True":
                    c = canon(e.recv)
                    if c.op == "op" and c.args[0] == "==" and len(c.args) == 3:
                        a, b = canon(c.args[1]), canon(c.args[2])
                        if is_const(a):
                            a, b = b, a
                        if is_const(b) and a.op in ("call", "pcall") and a.args[0] in ("numpy.sum", "builtins.sum", "numpy.count_nonzero", ".sum"):
                            r = relation(a.args[1])
                            if r and cval(b) in (1, 3):
                                count = (cval(b), r)
            if count is None:
                continue
            k, (op, a, b) = count
            want = op if k == 1 else NEG[op]
            for e in evs:
                for x in e.args or ():
                    for t in subtoks(x) if isinstance(x, Tok) else ():
                        if t.op == "item" and table_of(ctx, t.args[0]):
                            i = canon(t.args[1])
                            if i.op in ("call", "pcall") and i.args[0] in ("numpy.argmax", "numpy.argmin", ".argmax"):
                                r = relation(i.args[1])
                                if r and noclk(r[1]) == noclk(a):
                                    n += 1
                                    got = r[0] if not i.args[0].endswith("argmin") else NEG[r[0]]
                                    if got in NEG and got != want and {got, want} not in ({">", ">="}, {"<", "<="}):
                                        bad.append(k)
        if n:
            seen += 1
            ctx.check(not bad, "side", fname(f.qual), "with %s normals on the positive side the outer face is taken from the other side" % sorted(set(bad)),
                      where(f))
    ctx.saw("flat cases", str(seen))


def project(ctx, classes):
    """move_node(ids[k], p) where k is an argument maximising the edge lengths: p is the projection of node k on edge k."""
    tri = classes.get(3)
    if tri is None:
        return
    et = X.table(ctx, tri, "edges")
    if not et or not pairs(et[0], 3):
        return
    for f in heal_methods(ctx):
        res = []
        for o in ctx.run(f, keep_conds=True, policy=heal.policy):
            for e in walk(o.events()):
                if e.kind != "call" or e.name != heal.q("move_node") or len(e.args) < 3:
                    continue
                i = canon(e.args[1])
                if i.op != "item":
                    continue
                found = [x for x in subtoks(canon(i.args[1])) if x.op in ("call", "pcall") and x.args[0] in ("numpy.argmax", ".argmax")]
                if not found:
                    continue
                k = canon(found[0])
                base = canon(k.args[1])
                # the shape whose edges are searched
                b = base.args[1] if base.op in ("call", "pcall") and len(base.args) > 1 else base.args[0] if base.op == "attr" else None
                if not isinstance(b, Tok):
                    continue
                b = noclk(canon(b))
                for kk in range(3):
                    s = X.Shape(ctx, tri, 3)

                    def attr(x, name, ev):
                        return s.get(name) if noclk(canon(x)) == b else None

                    def call(t, args, ev):
                        n = t.args[0]
                        if noclk(t) == noclk(k):
                            return S.num(kk)
                        if isinstance(n, str) and n in ctx.prog.funcs and args and noclk(canon(args[0])) == b:
                            return s.get(ctx.prog.funcs[n].name)
                        return None
                    try:
                        ev = S.Ev(attr=attr, call=call, clsattr=s.clsattr)
                        at = ev(i.args[1])
                        if not any(S.zero(S.add(at, S.num(x), -1)) for x in (kk, kk - 3)):
                            res.append((kk, False))
                            continue
                        v = ev(e.args[2])
                        a, c = et[0][kk]
                        u = [S.add(p, q, -1) for p, q in zip(s.nodes[c], s.nodes[a])]
                        w = [S.add(p, q, -1) for p, q in zip(v, s.nodes[a])]
                        r = [S.add(p, q, -1) for p, q in zip(v, s.nodes[kk])]
                        on = all(S.zero(y) for y in S.cross(w, u))
                        perp = S.zero(S.total(S.mul(p, q) for p, q in zip(r, u)))
                        res.append((kk, on and perp))
                    except S.Unknown as err:
                        ctx.notes.append("%s: projected position not evaluated (%s)" % (fname(f.qual), err))
        if res:
            bad = sorted({k for k, ok in res if not ok})
            ctx.check(not bad, "project", fname(f.qual),
                      "the moved vertex is not moved to its orthogonal projection on the longest edge (for edges %s)" % bad, where(f))
            ctx.saw("projections", fname(f.qual))


def quad(ctx):
    """Faces split in the quadrilateral case: the four faces over two disjoint pairs; each split along one of the pairs."""
    for f in heal_methods(ctx):
        faces, first = [], None
        for o in ctx.run(f, keep_conds=True, policy=heal.policy):
            got = []
            for e in walk(o.events()):
                if e.kind != "call" or e.name != heal.q("common_elements") or len(e.args) < 2:
                    continue
                t = canon(e.args[1])
                if t.op not in ("list", "tuple"):
                    continue
                ks = []
                for x in (t.args[1:] if t.op == "list" else t.args):
                    g = ids_of(x)
                    g = g[0] if g else None
                    if g is None or g.op != "item" or not is_const(canon(g.args[1])):
                        break
                    p = canon(g.args[0])
                    if p.op != "op" or p.args[0] != "+" or len(p.args) != 3 or type(cval(canon(g.args[1]))) is not int:
                        break
                    ks.append(cval(canon(g.args[1])))
                else:
                    if len(ks) == 3:
                        got.append((tuple(ks), e))
            if len(got) > len(faces):
                faces, first = got, o
        if len(faces) < 2:
            continue
        ctx.saw("quadrilateral splittings", fname(f.qual))
        sets = [frozenset(k) for k, e in faces]
        ctx.check(len(set(sets)) == 4 and all(len(s) == 3 and s <= {0, 1, 2, 3} for s in sets), "quad", fname(f.qual),
                  "the split faces %s are not the four faces of the element" % [list(k) for k, e in faces], where(f))
        # the split edge of each face
        edges = set()
        for o in ctx.run(f, keep_conds=True, policy=heal.policy):
            for e in walk(o.events()):
                if e.kind != "loop" or e.recv is None or not heal.called(canon(e.recv), "common_elements"):
                    continue
                t = canon(canon(e.recv).args[2])
                if t.op not in ("list", "tuple"):
                    continue
                xs = t.args[1:] if t.op == "list" else t.args
                face = frozenset(const_item(x) for x in xs)
                ends = set()
                for w in (x for b, fl in bodies(e) for x in walk(b)):
                    if w.kind == "setitem":
                        i = canon(w.args[0])
                        if i.op in ("call", "pcall") and i.args[0] == ".index":
                            c = const_item(i.args[2])
                            if c is not None:
                                ends.add(c)
                if ends and None not in face:
                    edges.add((face, frozenset(ends)))
        bad = [(sorted(a), sorted(b)) for a, b in edges if b not in (frozenset((0, 1)), frozenset((2, 3))) or not b <= a]
        if edges:
            ctx.check(not bad, "quad", fname(f.qual) + " (edge)",
                      "a face is split along an edge that is not one of the intersecting edges: (face, edge) %s" % bad, where(f))


def const_item(x):
    g = ids_of(x)
    if g and g[0].op == "item" and is_const(canon(g[0].args[1])):
        return cval(canon(g[0].args[1]))
    return None


class Lines(S.Ev):
    """Evaluation with points[edge, :] for parameters points, edge as two symbolic points, and the solution of a linear system as symbols."""

    def __init__(self, pick, solve):
        super().__init__()
        self.pick, self.solve = pick, solve

    def ev(self, t):
        if t.op == "item":
            b, k = canon(t.args[0]), canon(t.args[1])
            if k.op == "tuple" and k.args and canon(k.args[1]).op == "slice":
                k = canon(k.args[0])
            if b.op == "param" and k.op == "param":
                return [[S.sym((k.args[0], i, j)) for j in range(3)] for i in range(2)]
        if t.op in ("call", "pcall"):
            if noclk(t) == self.solve:
                return [S.sym(("t", 0)), S.sym(("t", 1))]
            if t.args[0] == "numpy.argmax":
                return S.num(self.pick)
        return super().ev(t)


def intersection(ctx):
    for f in heal_methods(ctx):
        bad, n = [], 0
        for o in ctx.run(f, keep_conds=True, policy=heal.policy):
            for e in walk(o.events()):
                if e.kind != "call" or e.name != heal.q("add_node") or len(e.args) < 2:
                    continue
                pt = canon(e.args[1])
                sol = [x for x in subtoks(pt) if x.op in ("call", "pcall") and x.args[0] == "numpy.linalg.solve"]
                if not sol:
                    continue
                try:
                    for pick in range(3):
                        ev = Lines(pick, noclk(sol[0]))
                        p = ev(pt)
                        A = ev(canon(sol[0].args[1]))
                        B = ev(canon(sol[0].args[2]))
                        n += 1
                        if not on_both(p, A, B):
                            bad.append(pick)
                except S.OutOfTable:
                    n += 1
                    bad.append("index")
                except S.Unknown as err:
                    ctx.notes.append("%s: position of the added node not evaluated (%s)" % (fname(f.qual), err))
        if n:
            ctx.saw("intersections", fname(f.qual))
            ctx.check(not bad, "intersection", fname(f.qual),
                      "the solved equations are not those of a point common to both edges, one of them being the added point", where(f))


def on_both(p, A, B):
    """Is p on the line of one edge with parameter t, and the system A t = B the coordinates of p(t) = q(s) for q on the other edge?"""
    t = [S.sym(("t", 0)), S.sym(("t", 1))]
    names = {s[0] for x in p for s in symbols(x)} - {"t"}
    used = {s[1] for x in p for s in symbols(x) if s[0] == "t"}
    if len(names) != 1 or len(used) != 1 or len(A) != 2 or len(B) != 2:
        return False
    other = {s[0] for r in A for x in r for s in symbols(x)} - {"t"} - names
    if len(other) != 1:
        return False
    me, ot, i = names.pop(), other.pop(), used.pop()

    def at(e, k, v):
        r = S.num(0)
        for m, c in e.t.items():
            x = S.num(c)
            for a, q in m:
                x = S.mul(x, S.power(v if a == ("s", ("t", k)) else E1(a), q))
            r = S.add(r, x)
        return r

    def E1(a):
        return S.E({((a, S.Fraction(1)),): S.Fraction(1)})
    # p runs along its edge
    for k, v in ((0, S.num(0)), (1, S.num(1))):
        ends = [[S.sym((me, j, c)) for c in range(3)] for j in range(2)]
        q = [at(x, i, v) for x in p]
        if not any(all(S.zero(S.add(a, b, -1)) for a, b in zip(q, w)) for w in ends):
            return False
    rows = []
    for r, b in zip(A, B):
        res = S.add(S.total(S.mul(x, y) for x, y in zip(r, t)), b, -1)
        for c in range(3):
            for sg in (1, -1):
                d = S.add(p[c], res, sg)        # p_c - q_c up to the sign of the row
                q0, q1 = at(d, 1 - i, S.num(0)), at(d, 1 - i, S.num(1))
                if not any(s == ("t", i) for s in symbols(d)) and {("x", 0), ("x", 1)} == \
                        {("x", j) for j in range(2) for q in (q0, q1) if S.zero(S.add(q, S.sym((ot, j, c)), -1))}:
                    rows.append(c)
    return len(set(rows)) == 2


def symbols(e):
    out = set()
    for m in e.t:
        for a, _ in m:
            if a[0] == "s":
                out.add(a[1])
            elif a[0] in ("sum", "root", "abs"):
                out |= symbols(a[1])
            elif a[0] == "ext":
                for x in a[2]:
                    out |= symbols(x)
    return out


# ---------------------------------------------------------------- reference simplex
def reference(ctx):
    f = ctx.prog.funcs.get(GM + ".make_simplex")
    if f is None:
        ctx.notes.append("no make_simplex")
        return
    n = 0
    for o in ctx.run(f, keep_conds=True):
        if o.flow != "return":
            continue
        v = top(o)
        if v is None:
            continue
        try:
            dim, pts, lines, loops, where_ = v
        except TypeError:
            continue
        n += 1
        con = "%s (dimension %d)" % (fname(f.qual), dim)
        ctx.saw("reference simplices", con)
        ok = len(pts) == dim + 1
        if ok:
            m = [[S.lift(p[j] - pts[0][j]) for j in range(3)] for p in pts[1:]]
            g = [[S.total(S.mul(a, b) for a, b in zip(r, s)) for s in m] for r in m]
            ok = dim == 0 or S.det(g).const() != 0
        ctx.check(ok, "reference", con + " points", "the vertices %s do not span a simplex of dimension %d" % (pts, dim), where(f))
        if dim >= 1:
            want = sorted(combinations(range(dim + 1), 2))
            ctx.check(sorted(tuple(sorted(l)) for l in lines) == want, "reference", con + " lines",
                      "the lines %s do not join every pair of vertices once" % (lines,), where(f))
        if dim >= 2:
            bad = [l for l in loops if not closed([lines[i] for i in l if i < len(lines)]) or len(set(l)) != 3]
            ctx.check(not bad, "reference", con + " loops", "the lines of %s do not form a closed loop" % bad, where(f))
        if dim == 3:
            cnt = [sum(i in l for l in loops) for i in range(len(lines))]
            ctx.check(len({frozenset(l) for l in loops}) == 4 and all(c == 2 for c in cnt), "reference", con + " surface",
                      "the faces %s do not pass every line twice" % (loops,), where(f))
    if n == 0:
        ctx.notes.append("construction of the reference simplex not evaluated")


def closed(ls):
    deg = {}
    for a, b in ls:
        deg[a] = deg.get(a, 0) + 1
        deg[b] = deg.get(b, 0) + 1
    return len(ls) == 3 and len(deg) == 3 and all(d == 2 for d in deg.values())


class Ids:
    """Evaluation of lists of entity ids: every constructor call evaluates to a tagged tuple."""

    def __init__(self):
        self.env = {}

    def __call__(self, t):
        t = canon(t)
        if t in self.env:
            return self.env[t]
        o, a = t.op, t.args
        if o == "const":
            return cval(t)
        if o in ("tuple", "list"):
            return [self(x) for x in (a[1:] if o == "list" else a)]
        if o == "star":
            return self(a[0])
        if o == "copyof":
            return self(a[1])
        if o == "slice":
            return slice(*[None if x is NONE else self(x) for x in a])
        if o == "item":
            b = self(a[0])
            k = self(a[1])
            if not isinstance(b, (list, tuple)) or not isinstance(k, (int, slice)) or isinstance(b, tuple):
                raise S.Unknown("item")
            try:
                return b[k]
            except IndexError:
                raise S.Unknown("index")
        if o == "comp":
            kind, elt, coll, elem, conds = a[:5]
            if isinstance(conds, Tok) and conds.args:
                raise S.Unknown("filter")
            out, cs = [], self(coll)
            for c in cs:
                saved = dict(self.env)
                self.bind(canon(elem), c)
                self.bind(T("elem", canon(coll), T("v0")), c)
                out.append(self(elt))
                self.env = saved
            return out
        if o in ("call", "pcall") and isinstance(a[0], str) and a[0].split(".")[-1].startswith("add"):
            kind = a[0].split(".")[-1]
            args = []
            for x in a[1:]:
                if not isinstance(x, Tok) or x.op in ("uid", "clk", "ver", "kw", "site"):
                    continue
                x = canon(x)
                if x.op == "attr" and x.args[1] == "model":
                    continue
                v = self(x)
                if x.op == "star":
                    args.extend(v)
                else:
                    args.append(v)
            return (kind, tuple(freeze(x) for x in args))
        raise S.Unknown(o)

    def bind(self, e, c):
        if e.op == "tuple" and isinstance(c, list):
            for x, y in zip(e.args, c):
                self.bind(canon(x), y)
        self.env[e] = c


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, list) else x


def top(o):
    """(dimension, points, lines as vertex indices, loops as line indices) of the entity put in the result."""
    best = None
    for t in subtoks(canon(o.val)) if isinstance(o.val, Tok) else ():
        if t.op in ("call", "pcall") and isinstance(t.args[0], str) and t.args[0].split(".")[-1] in ("addPoint", "addLine", "addPlaneSurface", "addVolume"):
            best = t
            break
    if best is None:
        for e in o.events():
            for x in e.args or ():
                if isinstance(x, Tok) and e.kind == "new":
                    x = canon(x)
                    for t in subtoks(x):
                        if t.op in ("call", "pcall") and isinstance(t.args[0], str) and t.args[0].split(".")[-1] in ("addPoint", "addLine", "addPlaneSurface", "addVolume"):
                            best = best or t
    if best is None:
        return None
    try:
        v = Ids()(best)
    except S.Unknown:
        return None
    pts, lines, loops = [], [], []

    def go(x):
        if not isinstance(x, tuple):
            return
        if len(x) == 2 and x[0] == "addPoint":
            if x not in pts:
                pts.append(x)
            return
        if len(x) == 2 and x[0] == "addLine":
            if x not in lines:
                lines.append(x)
        if len(x) == 2 and x[0] == "addCurveLoop":
            loops.append(x)
        for y in x:
            go(y)
    go(v)
    dim = {"addPoint": 0, "addLine": 1, "addPlaneSurface": 2, "addVolume": 3}[v[0]]
    P = [list(p[1][:3]) for p in pts]
    if any(not isinstance(c, (int, float)) for p in P for c in p) or any(len(p) != 3 for p in P):
        return None
    L = [[pts.index(p) for p in l[1]] for l in lines]
    C = [[lines.index(l) for l in c[1][0]] for c in loops]
    if any(len(l) != 2 for l in L):
        return None
    return dim, P, L, C, None
