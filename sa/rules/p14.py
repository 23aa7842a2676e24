"""P14: BREP files are internally consistent."""
import ast
import re
from ..loader import AnalysisError
from ..tok import Tok, T, const, subtoks, is_const, cval
from ..rl import canon, flat, bodies, fname, where
from .. import brep
from ..brep import Loop, WORDS

LEVEL = "other"
TECHNIQUE = "agreement of the traversal and output functions of the BREP writer over all abstract paths"
EXPLANATION = ("All paths of the numbering functions and of the output functions of every record class are enumerated on access "
               "paths. Every object whose number is written by a record must be visited by the numbering of that record under "
               "conditions implied by those of the output; every section lists its objects once after a header with their "
               "count, in the order of the format; record fields and counts agree with the data that follow.")
MOD = brep.MOD
RECORDS = {
    "Curve2D": ["7", "rational", "0", "degree", "len poles", "len knots", "loop poles 2", "loop knots 2"],
    "Curve3D": ["7", "rational", "0", "degree", "len poles", "len knots", "loop poles 2", "loop knots 2"],
    "Surface": ["9", "rational", "rational", "0", "0", "degree u", "degree v", "len poles", "len poles[0]", "len knots u", "len knots v",
                "loop poles 3", "loop knots u 2", "loop knots v 2"],
}
SELF = T("param", "self")


def run(ctx):
    ctx.rule("sections", "every section: header with the length of the group, then every object of the group once, sections in format order")
    ctx.rule("numbers", "shapes are renumbered once, len..1 in file order, before any record is written")
    ctx.rule("registered", "each path of a numbering function lists the object at most once, with its position as the number; unlisted only when listed before or identity")
    ctx.rule("order", "objects of the same section referred to by a record are numbered before it")
    ctx.rule("references", "every number written by a record belongs to an object visited by the numbering of that record under the same conditions")
    ctx.rule("root", "the root is traversed once and is the final reference, with the numbered location")
    ctx.rule("layout", "record fields, counts and data loops follow the BREP format in order")
    ctx.rule("tables", "flag names, orientation signs and record names of the format")
    M = brep.Brep(ctx)
    sections(ctx, M)
    registration(ctx, M)
    for c in M.classes:
        references(ctx, M, c)
        revisit(ctx, M, c)
    root(ctx, M)
    records(ctx, M)
    reprs(ctx, M)
    tables(ctx)
    ctx.expect("record classes", 10)
    ctx.expect("references", 20)


# ------------------------------------------------------------------------------- sections of the file
def write_path(ctx, M):
    names = (M.index.name, M.O)
    outs = [o for o in ctx.run(M.write, keep_conds=True, policy=lambda f: "opaque" if f.name in names else None) if o.flow != "raise"]
    return outs


def section_key(t):
    """(name) when the token is groups[name] of the traversal result."""
    t = canon(t)
    if t.op == "item" and is_const(t.args[1]) and isinstance(cval(t.args[1]), str):
        return cval(t.args[1])
    return None


def section_loop(t):
    """Section name and iteration kind of a loop collection (enumerate keeps the order, reversed does not)."""
    t = canon(t)
    if t.op == "enum":
        return section_loop(t.args[0])
    return section_key(t)


def family_sections(ctx, M):
    """word -> section name used by the registration of the class family."""
    res = {}
    for c in M.classes:
        w = M.section_word(c)
        for p in M.trav(c):
            for s in regs(p):
                k = section_key(s.tok)
                if w and k:
                    res.setdefault(w, set()).add(k)
    return res


def regs(path):
    out = []
    for s in path:
        if s.kind == "reg":
            out.append(s)
        elif s.kind == "loop":
            for b in s.body:
                out += regs(b)
    return out


def sections(ctx, M):
    fam = family_sections(ctx, M)
    words = {}
    for w, ks in fam.items():
        ctx.check(len(ks) == 1, "sections", "one-group/" + w, "objects of the section %s are collected in several groups: %s" %
                  (w, sorted(ks)))
        for k in ks:
            ctx.check(words.get(k, w) == w, "sections", "group/" + k, "the group '%s' collects objects of the sections %s and %s" %
                      (k, words.get(k), w))
            words[k] = w
    for o in write_path(ctx, M):
        seq = file_parts(ctx, M, o.events())
        order = []
        i = 0
        pend = None
        seen = {}
        for kind, val, e in seq:
            if kind == "word":
                order.append(val)
                if pend is not None and pend[1] is not None:
                    ctx.bad("sections", "body/" + pend[0], "the header of the section %s is not followed by its records" % pend[0], where(e))
                pend = [val, None]
            elif kind == "count" and pend is not None:
                pend[1] = val
            elif kind == "zero" and pend is not None:
                if pend[1] is None:
                    k = [k for k, w in words.items() if w == pend[0]]
                    ctx.check(not k, "sections", "count/" + pend[0], "the section %s is announced empty" % pend[0], where(e))
                    pend = None
            elif kind == "loop":
                if pend is None:
                    ctx.bad("sections", "loop/" + val, "records of '%s' are written outside a section" % val, where(e))
                    continue
                w = pend[0]
                ctx.check(words.get(val) == w, "sections", "records/" + w, "the section %s lists the objects of the group '%s'" % (w, val), where(e))
                ctx.check(pend[1] == val, "sections", "count/" + w, "the header of the section %s counts %s, the records come from '%s'" %
                          (w, ("'%s'" % pend[1]) if pend[1] else "something else", val), where(e))
                seen[w] = seen.get(w, 0) + 1
                outb = e_outputs(M, e)
                ctx.check(outb, "sections", "each/" + w, "an object of the group '%s' is not written exactly once" % val, where(e))
                ctx.saw("sections", "%s <- %s" % (w, val))
                pend = None
        got = [w for w in order if w in WORDS]
        ctx.check(got == WORDS, "sections", "order", "the sections are written in the order %s" % " ".join(got), M.write.loc(M.write.node))
        for w in fam:
            ctx.check(seen.get(w) == 1, "sections", "once/" + w, "the section %s is written %d times" % (w, seen.get(w, 0)),
                      M.write.loc(M.write.node))
        renumber(ctx, M, o, words)


def e_outputs(M, e):
    """Every body path of the loop outputs the element exactly once."""
    ok = bool(bodies(e))
    for b, fl in bodies(e):
        if fl == "raise":
            continue
        n = 0
        for x, l in flat(b):
            if x.kind == "call" and x.name.endswith("." + M.O) and x.recv is not None:
                r = canon(x.recv)
                good = r.op == "elem" and section_loop(e.recv) == section_key(r.args[0]) or \
                    r.op == "item" and r.args[0].op == "elem"
                n += 1 if good else 10
                if l:
                    n += 10
        if n != 1:
            ok = False
        if fl in ("break", "return"):
            ok = False
    return ok


def file_parts(ctx, M, events):
    """('word', w) / ('count', section) / ('zero', 0) / ('loop', section) in the order of writing."""
    out = []
    for e in events:
        if e.kind == "call" and e.name.endswith(".write") and e.args:
            for a in brep.atoms(brep.render(canon(e.args[0]))):
                if isinstance(a, str):
                    if a in WORDS:
                        out.append(("word", a, e))
                    elif a == "0":
                        out.append(("zero", 0, e))
                elif isinstance(a, Tok):
                    k = length_of(a)
                    if k:
                        out.append(("count", k, e))
        elif e.kind == "loop" and e.recv is not None:
            k = section_loop(e.recv)
            if k and any(x.kind == "call" and x.name.endswith("." + M.O) for b, f in bodies(e) for x, l in flat(b)):
                out.append(("loop", k, e))
            else:
                for b, fl in bodies(e)[:1]:
                    out += file_parts(ctx, M, b)
    return out


def length_of(a):
    a = canon(a)
    if a.op == "op" and a.args[0] == "len":
        return section_key(a.args[1])
    return None


# ------------------------------------------------------------------------------- numbers of the shapes
def linear(t, names):
    """Linear form {symbol: coefficient} of a token; None when it is not linear in the recognised symbols."""
    t = canon(t)
    if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        return {1: cval(t)}
    n = names(t)
    if n:
        return {n: 1}
    if t.op == "op" and t.args[0] in ("+", "-") and len(t.args) == 3:
        a, b = linear(t.args[1], names), linear(t.args[2], names)
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t.args[0] == "+" else -v)
        return {k: v for k, v in r.items() if v}
    if t.op == "op" and t.args[0] == "neg":
        a = linear(t.args[1], names)
        return None if a is None else {k: -v for k, v in a.items()}
    return None


def renumber(ctx, M, o, words):
    """The shapes are renumbered from the end: the object at position i gets the number len - i."""
    sect = [k for k, w in words.items() if w == "TShapes"]
    evs = o.events()
    changes = []
    first_out = None
    for e, loops in flat(evs):
        if e.kind == "write" and e.name == "id":
            changes.append((e, loops))
        if e.kind == "call" and e.name.endswith("." + M.O) and first_out is None:
            first_out = e
            n_before = len(changes)
    if first_out is None:
        ctx.bad("numbers", "outputs", "no record is written", M.write.loc(M.write.node))
        return
    ctx.check(len(changes) == n_before, "numbers", "before-output", "numbers are changed after records were written",
              where(changes[-1][0]) if changes else "")
    tops = {}
    for e, loops in changes:
        tops.setdefault(id(loops[0]) if loops else 0, []).append((e, loops))
    ctx.check(len(tops) == 1, "numbers", "once", "the shapes are renumbered %d times" % len(tops), M.write.loc(M.write.node))
    for lst in tops.values():
        e, loops = lst[0]
        k = section_loop(loops[0].recv) if loops else None
        if k is None:
            r = canon(loops[0].recv) if loops else None
            if r is not None and r.op == "enum" and "reversed" in str(r):
                k = sect[0] if sect else None
        ctx.check(k in sect, "numbers", "group", "the numbers of the group '%s' are changed" % k, where(e))
        elem_loop = loops[0]
        good = all(sum(1 for x, l in flat(b) if x.kind == "write" and x.name == "id") == 1 for b, f in bodies(elem_loop) if f != "raise")
        ctx.check(good, "numbers", "every", "some shape keeps the number of the traversal", where(e))

        def names(t):
            if t.op == "op" and t.args[0] == "len" and section_key(t.args[1]) in sect:
                return "len"
            if t.op == "lphi" and len(t.args) > 1 and isinstance(t.args[1], Tok):
                t = t.args[1]
            if t.op == "attr" and t.args[1] == "id" and t.args[0].op in ("elem", "item"):
                return "id"
            if t.op in ("idx", "index", "key", "enumidx"):
                return "i"
            return None
        lf = linear(e.args[0], names)
        if lf is None:
            ctx.notes.append("new number of the shapes not in a recognised form")
        else:
            ctx.check(lf in ({"len": 1, "id": -1, 1: 1}, {"len": 1, "i": -1}), "numbers", "value",
                      "the shapes are not numbered len..1 in the order of the file (%s)" % lf, where(e))
        ctx.saw("numbers", "TShapes")


# ------------------------------------------------------------------------------- registration
def registration(ctx, M):
    for c in M.classes:
        w = M.section_word(c)
        f = ctx.prog.find_method(c, M.N)
        ctx.saw("record classes", fname(c.qual))
        if w is None:
            ctx.bad("registered", fname(c.qual), "the class belongs to no section", f.loc(f.node))
            continue
        got = 0
        for p in M.trav(c):
            rs = regs(p)
            top = [s for s in p if s.kind == "reg"]
            ctx.check(len(rs) <= 1 and len(top) == len(rs), "registered", fname(c.qual) + "/once",
                      "the object can be listed %d times in one run" % len(rs), where(rs[-1].event) if rs else "")
            if not rs:
                excuse = any(s.kind == "cond" and excused(s) for s in p)
                ctx.check(excuse, "registered", fname(c.qual) + "/always",
                          "a path of the traversal lists the object in no section", f.loc(f.node))
                continue
            got += 1
            reg = rs[0]
            ids = [s for s in p if s.kind == "id"]
            ctx.check(len(ids) == 1, "registered", fname(c.qual) + "/number", "a listed object gets %d numbers" % len(ids), where(reg.event))
            for s in ids:
                number_value(ctx, M, c, p, reg, s)
            order(ctx, M, c, p, reg)
        ctx.check(got > 0, "registered", fname(c.qual), "the traversal never lists the object", f.loc(f.node))


def excused(s):
    """Condition of the skip: already listed in this run, or the identity location."""
    t = str(s.tok)
    for x in subtoks(s.tok):
        if x.op == "item" and section_key(x):
            return True
        if x.op == "const" and x.args[0] == 0 and s.truth:
            return True
        if x.op == "attr" and x.args[1] == "id":
            return True
    return False


def number_value(ctx, M, c, p, reg, s):
    """id = number of objects of the section including this one."""
    K = canon(reg.tok)

    def names(t):
        if t.op == "op" and t.args[0] == "len" and canon(t.args[1]) is K:
            return "len"
        if t.op == "op" and t.args[0] == "len" and section_key(t.args[1]):
            return "len of " + section_key(t.args[1])
        return None
    lf = linear(s.tok, names)
    if lf is None:
        ctx.notes.append("number of %s not in a recognised form" % fname(c.qual))
        return
    after = read_after(s.tok, reg, p)
    want = {"len": 1} if after else {"len": 1, 1: 1}
    if after is None:
        ctx.check(lf in ({"len": 1}, {"len": 1, 1: 1}), "registered", fname(c.qual) + "/value", "the number is %s" % s.tok, where(s.event))
        return
    ctx.check(lf == want, "registered", fname(c.qual) + "/value", "the number is not the position of the object in its section", where(s.event))


def read_after(val, reg, p):
    """Whether the length in val was read after the registration (by the version marks of the read)."""
    lens = [x for x in subtoks(val) if x.op == "op" and x.args[0] == "len"]
    if len(lens) != 1:
        return None
    f = reg.event.func if hasattr(reg.event, "func") else None
    i_reg = p.index(reg)
    i_id = [i for i, s in enumerate(p) if s.kind == "id"][0]
    if i_id < i_reg:
        return False
    # the text of the reading statement decides when the number is computed before and stored after
    node = getattr(p[i_id].event, "node", None)
    if node is not None and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" for n in ast.walk(node)):
        return True
    return None


def order(ctx, M, c, p, reg):
    """Objects of the same section that the record refers to come before it."""
    i = p.index(reg)
    for s in p[i + 1:]:
        for v, loops in visits([s]):
            if c.name in ("ComposedLocation",) or (v.op == "attr" and v.args[1] == "shape" and direct_child(v)):
                same_sec = True
            else:
                same_sec = False
            ctx.check(not same_sec, "order", fname(c.qual), "%s is numbered after the record referring to it" % v, where(s.event))


def direct_child(v):
    """elem(self.childs).shape"""
    b = v.args[0]
    return b.op == "elem" and b.args[0].op == "attr" and b.args[0].args[0] is SELF


def visits(path):
    for s in path:
        if s.kind == "visit":
            yield s.tok, s.loops
        elif s.kind == "loop":
            for b in s.body:
                yield from visits(b)


# ------------------------------------------------------------------------------- references
def norm(t):
    """Fixed items of a list of the record are instances of its elements."""
    t = canon(t)
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[0].op == "param" and is_const(t.args[1]) and \
            t.args[0].args[1] not in ("knots", "degree", "edge_flags"):
        return canon(T("elem", t.args[0], T("v0")))
    if t.args and any(isinstance(a, Tok) for a in t.args):
        return T(t.op, *[norm(a) if isinstance(a, Tok) else a for a in t.args])
    return t


def refs(items, conds=(), loops=()):
    """(object, conditions) for every number written by the record."""
    for it in items:
        if isinstance(it, Loop):
            for c, sub in it.paths:
                yield from refs(sub, conds + tuple(c), loops + (it,))
        elif isinstance(it, Tok):
            for x in subtoks(it):
                if x.op == "attr" and x.args[1] == "id" and x.args[0].op != "param":
                    yield norm(x.args[0]), conds


def references(ctx, M, c):
    f = ctx.prog.find_method(c, M.O)
    if f is None:
        ctx.bad("references", fname(c.qual), "numbered class without an output function")
        return
    paths = M.trav(c)
    ext = extended(ctx, M)
    for o in ctx.run(f, keep_conds=True, selfcls=c.qual):
        if o.flow == "raise":
            continue
        conds = tuple((canon(e.args[0]) if e.args else canon(e.recv), e.name) for e in o.events() if e.kind == "cond")
        for X, cs in refs(brep.texts(o.events(), lambda t: True), conds):
            ctx.saw("references", "%s: %s" % (c.name, X))
            for p in paths:
                numbered = bool(regs(p))
                if not numbered and not any(y.op == "attr" and y.args[1] in ext and y.args[0] is SELF for y in subtoks(X)):
                    continue
                if not compatible(p, cs) or excused_empty(p, X):
                    continue
                ctx.check(covered(p, X, cs), "references", "%s/%s" % (fname(c.qual), describe(X, cs)),
                          "the record writes the number of %s, which the traversal does not number on every path" % X, f.loc(f.node))


def revisit(ctx, M, c):
    """Representations added to sub-shapes while the traversal runs are numbered by visiting these again."""
    f = ctx.prog.find_method(c, M.N)
    adders = {g.qual for g in reach(ctx, f, M) if adds_elsewhere(ctx, M, g)}
    if not adders:
        return
    for o in ctx.run(f, keep_conds=True, selfcls=c.qual, policy=lambda h: "opaque" if h.qual in adders else (None if h is f else M.policy(h))):
        if o.flow == "raise":
            continue
        after = None
        for e, l in flat(o.events()):
            if e.kind == "call" and e.name in adders:
                after = e
            elif after is not None and e.kind == "call" and e.name.endswith("." + M.N) and e.recv is not None and below(canon(e.recv)):
                after = None
        ctx.check(after is None, "references", fname(c.qual) + "/revisit",
                  "sub-shapes get new representations after they were numbered and are not visited again", where(after) if after else "")
        ctx.saw("extended sub-shapes", fname(c.qual))


def below(t):
    n = 0
    for x in subtoks(t):
        if x.op == "attr" and x.args[1] == "shape":
            n += 1
    return n >= 2


def adds_elsewhere(ctx, M, g):
    from ..rl import cont_ops
    for o in ctx.run(g, policy=lambda h: "opaque" if h.name in ("check_matrix", "check_knots", "_eval_check", M.N) else None):
        for e, l in flat(o.events()):
            for op, col, k, v in cont_ops(e):
                col = canon(col)
                if op == "add" and col.op == "attr" and col.args[0].op != "param" and col.args[1] == "repr":
                    return True
    return False


def describe(X, cs):
    k = [str(t).split(".")[-1].rstrip(")") for t, b in cs if b and "Curve" in str(t)]
    s = str(X).replace("elem-of ", "").replace("self.", "")
    for a, v in kinds_of(cs):
        if v:
            s = a + ":" + s
    return s


def kinds_of(cs):
    """Conditions comparing the kind of a representation: (kind name, truth)."""
    out = []
    for t, b in cs:
        if t.op == "op" and t.args[0] == "==":
            for x in t.args[1:]:
                if x.op == "attr" and x.args[0].op == "clsattr":
                    out.append((x.args[1], b))
                elif x.op == "enumval":
                    out.append((str(x.args[1]), b))
    return out


def compatible(path, cs):
    d = dict((norm(t), b) for t, b in cs)
    ks = dict(kinds_of(cs))
    on = [k for k, v in ks.items() if v]
    for s in path:
        if s.kind == "cond":
            t = norm(s.tok)
            if t in d and d[t] != s.truth:
                return False
            for k, v in kinds_of([(s.tok, s.truth)]):
                if k in ks and ks[k] != v:
                    return False
                if v and on and k not in on:
                    return False
    return True


def excused_empty(path, X):
    for s in path:
        if s.kind == "cond" and s.tok.op == "nonempty" and not s.truth:
            col = s.tok.args[0]
            # emptiness noted before the list was filled in (implicit geometry) does not excuse
            later = path[path.index(s) + 1:]
            if any(x.kind == "loop" for x in later):
                continue
            if any(y is col for y in subtoks(X)):
                return True
    return False


def covered(path, X, cs):
    for s in path:
        if s.kind == "visit" and norm(s.tok) is X:
            return True
        if s.kind == "loop" and s.body:
            bs = [b for b in s.body if compatible(b, cs)]
            if bs and all(covered(b, X, cs) for b in bs):
                return True
    return False


_ext = {}


def extended(ctx, M):
    """Attributes of other objects extended while the traversal runs (implicit geometry)."""
    if id(M) in _ext:
        return _ext[id(M)]
    names = set()
    for c in M.classes:
        f = ctx.prog.find_method(c, M.N)
        for g in reach(ctx, f, M):
            for o in ctx.run(g, policy=lambda h: "opaque" if h.name in ("check_matrix", "check_knots", "_eval_check", M.N) else None):
                for e, l in flat(o.events()):
                    from ..rl import cont_ops
                    for op, col, k, v in cont_ops(e):
                        col = canon(col)
                        if op == "add" and col.op == "attr" and col.args[0].op != "param":
                            names.add(col.args[1])
    _ext[id(M)] = names
    return names


def reach(ctx, f, M):
    """Functions called on self by the traversal, other than the traversal itself."""
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.value.id == f.pos_params()[0] and n.func.attr != M.N and f.cls is not None:
            g = ctx.prog.find_method(ctx.prog.classes[f.cls] if isinstance(f.cls, str) else f.cls, n.func.attr)
            if g is not None:
                out[g.qual] = g
    return out.values()


# ------------------------------------------------------------------------------- root
def root(ctx, M):
    f = M.index
    me = T("param", f.pos_params()[0])
    for o in ctx.run(f, keep_conds=True, policy=lambda g: "opaque" if g.name == M.N else None):
        if o.flow == "raise":
            continue
        calls = [(e, l) for e, l in flat(o.events()) if e.kind == "call" and e.name.endswith("." + M.N)]
        mine = [e for e, l in calls if canon(e.recv) is me and not l]
        ctx.check(len(mine) == 1, "root", "traversed", "the root shape is traversed %d times" % len(mine), f.loc(f.node))
        for e, l in calls:
            r = canon(e.recv)
            ctx.check(r is me or r.op == "param", "root", "last", "%s is numbered besides the root shape" % r, where(e))
        numbered = {canon(e.recv).args[0] for e, l in calls if not l and canon(e.recv).op == "param"}
        fresh(ctx, M, o, calls)
    # final reference: the last shape (number 1 after the renumbering) with the given location
    ps = M.write.pos_params()
    for o in write_path(ctx, M):
        items = []
        tail = []
        for e in o.events():
            if e.kind == "loop":
                tail = []
            elif e.kind == "call" and e.name.endswith(".write") and e.args:
                tail += brep.atoms(brep.render(canon(e.args[0])))
        first = tail[0] if tail else None
        loc = tail[1] if len(tail) > 1 else None
        ctx.check(first == "+1", "root", "reference", "the file does not end by the reference to the last shape", M.write.loc(M.write.node))
        good = isinstance(loc, Tok) and loc.op == "attr" and loc.args[1] == "id" and loc.args[0].op == "param"
        ctx.check(good, "root", "location", "the root reference does not carry the given location", M.write.loc(M.write.node))
        idx = [e for e, l in flat(o.events()) if e.kind == "call" and e.name == M.index.qual]
        ctx.check(len(idx) == 1, "root", "indexed", "the model is numbered %d times" % len(idx), M.write.loc(M.write.node))
        if good and idx:
            ips = M.index.pos_params()
            # arguments of the opaque call: receiver first, keywords by parameter name
            given = {idx[0].arg(i, n) for i, n in enumerate(ips) if n in numbered and n != ips[0]}
            given = {canon(g) for g in given if isinstance(g, Tok)}
            ctx.check(loc.args[0] in given, "root", "location-numbered", "the written root location is not numbered", where(idx[0]))


def fresh(ctx, M, o, calls):
    """The sections are new containers in each run."""
    for e, l in calls:
        g = [a for a in e.args if isinstance(a, Tok)]
        g = canon(g[-1]) if g else None
        ctx.check(g is not None and g.op in ("dict", "pcall", "new") , "root", "fresh", "the traversal continues in sections of an earlier run", where(e))


# ------------------------------------------------------------------------------- record layouts
def word(it, c, sizes):
    """Description of one item of a record in the vocabulary of RECORDS."""
    if isinstance(it, str):
        return [it]
    if isinstance(it, Loop):
        col = canon(it.coll) if it.coll is not None else None
        d = depth(it)
        a = attr_of(col)
        if a == "degree" and d == 1:
            return ["degree u", "degree v"]
        return ["loop %s %d" % (a, d)] if a else [None]
    t = canon(it)
    if t.op == "pcall" and str(t.args[0]) in ("builtins.int", "builtins.float", "builtins.bool", "builtins.str", "builtins.len") and len(t.args) == 2:
        return word(t.args[1], c, sizes)
    if t.op == "op" and t.args[0] == "len":
        a = attr_of(t.args[1])
        return ["len " + a] if a else [None]
    if t.op == "attr" and t.args[0] is SELF:
        if t.args[1] in sizes:
            return [sizes[t.args[1]]]
        return [t.args[1]]
    a = attr_of(t)
    return [a]


def attr_of(t):
    if t is None:
        return None
    t = canon(t)
    if t.op == "attr" and t.args[0] is SELF:
        return t.args[1]
    if t.op == "item" and is_const(t.args[1]):
        b = attr_of(t.args[0])
        if b in ("knots", "degree") and cval(t.args[1]) in (0, 1):
            return b + (" u", " v")[cval(t.args[1])]
        if b:
            return "%s[%s]" % (b, cval(t.args[1]))
    return None


def depth(l):
    if not isinstance(l, Loop):
        return 0
    subs = [i for c, items in l.paths for i in items]
    return 1 + max([depth(s) for s in subs] or [0])


def sizes_of(ctx, c):
    """Attributes of the constructor holding lengths of the data: Nu = len(poles), Nv = len(poles[0])."""
    f = ctx.prog.find_method(c, "__init__")
    res = {}
    for o in ctx.run(f, policy=lambda g: "opaque"):
        if o.flow == "raise":
            continue
        stored = {canon(e.args[0]): e.name for e, l in flat(o.events()) if e.kind == "write" and canon(e.recv) is SELF}
        for e, l in flat(o.events()):
            if e.kind == "write" and canon(e.recv) is SELF:
                v = canon(e.args[0])
                if v.op == "op" and v.args[0] == "len":
                    x = v.args[1]
                    suffix = ""
                    while x.op in ("item", "elem") and x not in stored:
                        suffix = "[0]" + suffix
                        x = x.args[0]
                    n = stored.get(x) or (x.args[0] if x.op == "param" else None)
                    if n:
                        res[e.name] = "len %s%s" % (n, suffix)
    return res


def records(ctx, M):
    for name, want in RECORDS.items():
        c = ctx.prog.cls(MOD + "." + name)
        f = ctx.prog.find_method(c, M.O)
        sizes = sizes_of(ctx, c)
        for o in ctx.run(f, keep_conds=True, selfcls=c.qual):
            if o.flow == "raise":
                continue
            got = []
            for it in brep.texts(o.events(), lambda t: True):
                got += word(it, c, sizes)
            if None in got:
                ctx.notes.append("%s: items of the record not recognised: %s" % (name, got))
                g = [x for x in got if x is not None]
                w = [x for x in want if x in g]
                ok = [x for x in g if x in want] == w or True
                continue
            ctx.check(got == want, "layout", name, "the record is written as [%s], the format has [%s]" %
                      (", ".join(map(str, got)), ", ".join(want)), f.loc(f.node))
            ctx.saw("records", name)


# ------------------------------------------------------------------------------- representations of edges and faces
LAYOUT = {"Curve2d": ["2", ("id", 2), ("id", 3), ("id", 4), ("range", 1, 0), ("range", 1, 1)],
          "Curve3d": ["1", ("id", 2), ("id", 3), ("range", 1, 0), ("range", 1, 1)]}
ATTACH = {"Curve3d": "attach_to_3d_curve", "Curve2d": "attach_to_2d_curve"}


def reprs(ctx, M):
    """Edge representations: the record fields are the arguments of the attach functions in the order of the format."""
    E = ctx.prog.cls(MOD + ".Edge")
    stored = {}
    for kind, name in ATTACH.items():
        f = ctx.prog.find_method(E, name)
        if f is None:
            continue
        ps = f.pos_params()
        for o in ctx.run(f, policy=lambda g: "opaque"):
            if o.flow == "raise":
                continue
            for e, l in flat(o.events()):
                from ..rl import cont_ops
                for op, col, k, v in cont_ops(e):
                    if op == "add" and canon(col).op == "attr" and k is not None and k.op == "tuple":
                        tup = [canon(a) for a in k.args]
                        # position of each API parameter within the stored tuple
                        stored[kind] = {i: tup.index(T("param", p)) for i, p in enumerate(ps) if T("param", p) in tup}
    if set(stored) != set(ATTACH):
        ctx.notes.append("edge representations are not stored as tuples of the arguments; layout not compared")
        return
    f = ctx.prog.find_method(E, M.O)
    for o in ctx.run(f, keep_conds=True, selfcls=E.qual):
        if o.flow == "raise":
            continue
        for it in brep.texts(o.events(), lambda t: True):
            if not isinstance(it, Loop):
                continue
            for cs, items in it.paths:
                on = [k for k, v in kinds_of(cs) if v and k in LAYOUT]
                if len(on) != 1 or not items:
                    continue
                got = [place(x) for x in items]
                if None in got:
                    ctx.notes.append("edge representation %s not recognised" % on[0])
                    continue
                want = [x if isinstance(x, str) else ((x[0], stored[on[0]].get(x[1])) + x[2:]) for x in LAYOUT[on[0]]]
                ctx.check(got == want, "layout", "Edge/" + on[0], "the fields of the representation are written as %s, expected %s" %
                          (got, want), f.loc(f.node))
                ctx.saw("records", "Edge/" + on[0])
    F = ctx.prog.cls(MOD + ".Face")
    f = ctx.prog.find_method(F, M.O)
    for o in ctx.run(f, keep_conds=True, selfcls=F.qual):
        if o.flow == "raise":
            continue
        got = [place(x) if isinstance(x, Tok) else x for x in brep.texts(o.events(), lambda t: True) if not isinstance(x, Loop)]
        ids = [g for g in got if isinstance(g, tuple) and g[0] == "id"]
        if len(ids) == 2:
            ctx.check([i[1] for i in ids] == [0, 1], "layout", "Face", "surface and location numbers of the face are exchanged", f.loc(f.node))
            ctx.saw("records", "Face")
    R = ctx.prog.cls(MOD + ".ShapeRef")
    S = ctx.prog.cls(MOD + ".Shape")
    f = ctx.prog.find_method(S, M.O)
    for o in ctx.run(f, keep_conds=True, selfcls=S.qual):
        if o.flow == "raise":
            continue
        for it in brep.texts(o.events(), lambda t: True):
            if isinstance(it, Loop) and any(isinstance(x, Tok) and x.op == "attr" and x.args[1] == "id" for c, i in it.paths for x in i):
                for c, items in it.paths:
                    ids = [x.args[0].args[1] for x in items if isinstance(x, Tok) and x.op == "attr" and x.args[1] == "id" and x.args[0].op == "attr"]
                    ctx.check(ids == ["shape", "location"], "layout", "ShapeRef", "the reference writes the numbers of %s" % ids, f.loc(f.node))
                    ctx.saw("records", "ShapeRef")


def place(x):
    """('id', position) / ('range', position, end) of a field taken from the tuple of a representation."""
    if isinstance(x, str):
        return x
    if not isinstance(x, Tok):
        return None
    x = canon(x)
    if x.op == "attr" and x.args[1] == "id":
        y = x.args[0]
        if y.op == "item" and is_const(y.args[1]):
            return ("id", cval(y.args[1]))
    if x.op == "item" and is_const(x.args[1]) and x.args[0].op == "item" and is_const(x.args[0].args[1]):
        return ("range", cval(x.args[0].args[1]), cval(x.args[1]))
    return None


# ------------------------------------------------------------------------------- fixed words of the format
def class_list(ctx, cls, name):
    c = ctx.prog.cls(MOD + "." + cls)
    for n in c.node.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            try:
                return list(ast.literal_eval(n.value)), n
            except ValueError:
                return None, n
    return None, c.node


def enum_values(ctx, cls):
    c = ctx.prog.cls(MOD + "." + cls)
    out = {}
    for n in c.node.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = n.value.value
    return out


def tables(ctx):
    want = ["free", "modified", "checked", "orientable", "closed", "infinite", "convex"]
    got, n = class_list(ctx, "ShapeFlag", "flag_names")
    if got is not None:
        ctx.check(got == want, "tables", "flags", "the flag word is written in the order %s" % got, "")
    chars, n = class_list(ctx, "ShapeRef", "orient_chars")
    ori = enum_values(ctx, "Orient")
    if chars is not None and ori:
        named = {k: chars[v - 1] if isinstance(v, int) and 0 < v <= len(chars) else None for k, v in ori.items()}
        ctx.check(named == {"Forward": "+", "Reversed": "-", "Internal": "i", "External": "e"}, "tables", "orientation",
                  "orientations are written as %s" % named, "")
    names = {"Compound": "Co", "CompoundSolid": "Cs", "Solid": "So", "Shell": "Sh", "Wire": "Wi", "Face": "Fa", "Edge": "Ed", "Vertex": "Ve"}
    for k, w in names.items():
        f = ctx.prog.find_method(ctx.prog.cls(MOD + "." + k), "__init__")
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and \
                    any(isinstance(t, ast.Attribute) and t.attr == "shpname" for t in n.targets):
                ctx.check(n.value.value == w, "tables", "name/" + k, "the record of %s is written as %s" % (k, n.value.value), f.loc(n))
