"""P22: mesh files written are read back unchanged."""
from ..loader import AnalysisError
from ..tok import T, Tok, is_const, cval, subtoks
from ..rl import canon, bodies, fname
from ..textio import W, L, Line, Rep, Reader, Unknown, script, name_of

LEVEL = "other"
TECHNIQUE = "abstract interpretation of the reader on the symbolic text emitted by the writer"
EXPLANATION = ("The text written by each writer is derived from its source as lines of literal and symbolic words with repetitions; the "
               "reader's abstract paths are evaluated on that text and every value it stores has to be the value written, under the "
               "same key, converted without loss; counts and section ends are compared with the records written.")
MOD = "bgem.gmsh.gmsh_io"
G = MOD + ".GmshIO"
NUM = {"nodes": "float", "elements": "int"}


def dict_of(c):
    """Name X when the collection walks the whole dictionary self.X."""
    while isinstance(c, Tok):
        if c.op == "copyof":
            c = c.args[1]
        elif c.op in ("keys", "items", "values"):
            c = c.args[0]
        elif c.op == "attr" and c.args[0].op == "param":
            return c.args[1]
        else:
            return None
    return None


def place(t):
    """Where a written value comes from: (container, 'key'|'val', index...)."""
    if not isinstance(t, Tok):
        return None
    t = canon(t)
    if t.op == "copyof" and t.args[0] in ("builtins.sorted", "builtins.set", "builtins.reversed") or \
            name_of(t) in ("builtins.reversed", "builtins.sorted") or \
            t.op == "item" and t.args[1].op == "slice" and not all(is_const(x) and cval(x) in (None, 0) for x in t.args[1].args):
        p = place(t.args[1] if t.op != "item" else t.args[0])
        return p + ("reordered or incomplete",) if p and t.op != "key" else None
    if t.op == "key":
        d = dict_of(t.args[0])
        return (d, "key") if d else None
    if t.op == "val":
        d = dict_of(t.args[0])
        return (d, "val") if d else None
    if t.op == "elem":
        b = t.args[0]
        while b.op == "copyof":
            b = b.args[1]
        d = dict_of(b)
        if d:
            return (d, {"items": "item", "values": "val"}.get(b.op, "key"))
        b2 = source(b)
        if b2.op == "param":
            return (b2.args[0], "row")
        p = place(b)
        return p + ("each",) if p else None
    if t.op == "item":
        b = t.args[0]
        p = place(b)
        if p and is_const(t.args[1]):
            if p[1:] == ("item",):
                return (p[0], "key" if cval(t.args[1]) == 0 else "val")
            return p + (cval(t.args[1]),)
        d = dict_of(b)
        if d and place(t.args[1]) == (d, "key"):
            return (d, "val")
        return None
    if t.op in ("pcall", "call") and name_of(t) in ("builtins.int", "builtins.str", "builtins.float") and len(t.args) >= 2:
        return place(t.args[1])
    if t.op == "param":
        return (t.args[0],)
    return None


def source(t):
    """Array a reshaped / converted array was made from."""
    while isinstance(t, Tok) and t.op in ("pcall", "call") and name_of(t).split(".")[-1] in ("reshape", "asarray", "array", "atleast_2d") \
            and len(t.args) > 1 and isinstance(t.args[1], Tok):
        t = t.args[1]
    return t


def counted(t):
    """('rows'|'cols', token) for a number of rows / columns of a token."""
    t = canon(t)
    if t.op == "op" and t.args[0] == "len" or name_of(t) == "builtins.len":
        x = t.args[1]
        if x.op == "item":
            return ("cols", source(x.args[0]))
        if x.op == "elem":
            return ("cols", source(x.args[0]))
        if name_of(x).endswith("atleast_1d") and x.args[1].op == "item":
            return ("cols", source(x.args[1].args[0]))
        while x.op in ("copyof", "keys", "items", "values"):
            x = x.args[1] if x.op == "copyof" else x.args[0]
        return ("rows", source(x))
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]):
        x = t.args[0].args[0]
        if name_of(x).endswith("atleast_1d") and x.args[1].op == "item":
            return ("cols", source(x.args[1].args[0])) if cval(t.args[1]) in (0, -1) else None
        if name_of(x).endswith("reshape") and x.args[2].op == "tuple":
            i = cval(t.args[1])
            if -2 <= i < 2 and len(x.args[2].args) == 2:
                return counted(x.args[2].args[i])
        return ({0: "rows", 1: "cols", -1: "cols"}.get(cval(t.args[1]), "other"), source(x))
    if t.op == "op" and t.args[0] in ("+", "-", "*", "//", "/") and any(counted(x) for x in t.args[1:] if isinstance(x, Tok)):
        return ("other", t)
    if t.op == "attr" and t.args[1] == "size":
        return ("other", t)
    return None


def family(c):
    """Collections whose lengths are the number of records of the walked collection."""
    out = set()
    todo = [canon(c)]
    while todo:
        x = todo.pop()
        if not isinstance(x, Tok) or x in out:
            continue
        out.add(x)
        if x.op == "copyof":
            todo.append(x.args[1])
        elif x.op in ("keys", "items", "values", "enum"):
            todo.append(x.args[0])
        elif x.op == "zip":
            todo += list(x.args)
        out.add(source(x))
        if source(x) is not x:
            todo.append(source(x))
    return out


def count_ok(tok, coll):
    """True / False / None: the written count is the number of records."""
    c = counted(tok)
    if c is None:
        return None
    if c[0] != "rows":
        return False
    return c[1] in family(coll)


def lossless(w, kind):
    s = w.spec
    if s in ("", "s", "r", "%r"):
        return True
    s = s.lstrip("%")
    if kind == "int":
        return s in ("d", "i", "0d")
    if s[-1:] in "gGeE" and "." in s:
        d = s.split(".")[1][:-1]
        return d.isdigit() and int(d) >= (17 if s[-1] in "gG" else 16)
    return False


def run(ctx):
    ctx.rule("count", "each section states the number of records it holds")
    ctx.rule("section", "each section is opened and terminated by its own words and no record is left out")
    ctx.rule("agree", "the reader stores every written value under its key, in its place and without loss")
    p = ctx.prog
    rd = p.func(G + ".read")
    wm, we, wf = p.func(G + ".write_ascii"), p.func(G + ".write_element_data"), p.func(G + ".write_fields")
    ctx.saw("functions", fname(rd))
    outs = [o for o in ctx.run(rd, keep_conds=True, carry=True) if o.flow == "return"]
    rpaths = []
    for o in outs:
        evs = o.events()
        if not any(e.kind == "loop" for e in evs):
            continue
        rpaths.append(evs)
    if not rpaths:
        raise AnalysisError("no reading loop found in GmshIO.read")
    if not any(line_wise(evs) for evs in rpaths):
        ctx.notes.append("GmshIO.read does not read line by line: agreement is not decided")
        rpaths = []
    meshes = scripts(ctx, wm)
    datas = scripts(ctx, we)
    for f, ss, want in ((wm, meshes, {"nodes", "elements", "physical"}), (we, datas, None)):
        for s in ss:
            sections(ctx, f, s, want)
    for s in scripts(ctx, wf):
        read_back(ctx, rd, rpaths, wf, s, set(), True)
    for s in meshes:
        read_back(ctx, rd, rpaths, wm, s, {"nodes", "elements", "physical"}, False)
        for d in datas:
            read_back(ctx, rd, rpaths, wm, s + d, {"nodes", "elements", "physical"}, True)
    for d in datas:
        # the documented order of the header with any time and time step
        if len(d) > 8 and [isinstance(x, Line) and x.lit() for x in d[3:7]] == ["1", "0", "3", "0"]:
            d = list(d)
            d[4], d[6] = Line([W(T("param", "time"))]), Line([W(T("param", "t_idx"))])
            read_back(ctx, rd, rpaths, we, d, set(), True, True)
    ctx.expect("sections", 4)
    if not ctx.violations and rpaths:
        ctx.expect("stores", 4)


def is_stream(t):
    t = canon(t)
    while t.op in ("phi", "lphi", "enter", "with") and t.args and isinstance(t.args[-1], Tok):
        t = t.args[-1]
    n = name_of(t)
    if n.endswith("open") or n.endswith("StringIO") or n in (".readlines", ".splitlines", "builtins.iter"):
        return True
    if t.op in ("param", "phi", "lphi"):
        return True
    return False


def scripts(ctx, f):
    ctx.saw("functions", fname(f))
    out, seen = [], set()
    for o in ctx.run(f, keep_conds=True):
        if o.flow == "raise":
            continue
        try:
            s, rest = script(o.events(), is_stream)
        except Unknown as ex:
            ctx.notes.append("%s: %s" % (fname(f), ex))
            continue
        if rest:
            s = s + [Line(rest)]
        if s and str(s) not in seen:
            seen.add(str(s))
            out.append(s)
    if not out:
        raise AnalysisError("no text is written by %s" % fname(f))
    return out


def sections(ctx, f, s, want):
    """Section words, counts and completeness of the records."""
    fn = fname(f)
    open_, seen = None, set()
    prev = None
    for it in s:
        if isinstance(it, Line):
            w = it.lit()
            loc = it.ev.loc() if it.ev is not None else f.loc(f.node)
            if w and w.startswith("$"):
                if w.startswith("$End"):
                    ctx.check(open_ is not None and w[4:] == open_, "section", fn, "section '%s' is closed by '%s'" % (open_, w), loc,
                              key="%s:end:%s" % (fn, open_ or w))
                    open_ = None
                else:
                    ctx.check(open_ is None, "section", fn, "section '%s' is not terminated" % open_, loc, key="%s:end:%s" % (fn, open_))
                    open_ = w[1:]
                    ctx.saw("sections", open_)
            prev = it
            continue
        loc = it.ev.loc() if it.ev is not None else ""
        d = dict_of(it.coll) if it.coll is not None else None
        if d:
            seen.add(d)
        if it.coll is not None and it.coll.op == "zip":
            odd = [a for a in it.coll.args if a.op == "copyof" and a.args[0] in ("builtins.sorted", "builtins.set", "builtins.reversed")
                   or name_of(a) in ("builtins.reversed", "builtins.sorted") or a.op == "item"]
            ctx.check(not odd or len({str(o) for o in odd}) != len(odd) or len(odd) == len(it.coll.args), "agree", fn,
                      "rows of section '%s' combine values of different records" % open_, loc, key="%s:zip:%s" % (fn, open_))
        ctx.check(all(it.alts), "section", fn, "some records of section '%s' are not written" % open_, loc, key="%s:skip:%s" % (fn, open_))
        w = None
        if isinstance(prev, Line):
            ws = [x for x in prev.parts if isinstance(x, W)]
            w = ws[-1].tok if len(ws) == 1 and prev.parts and not any(isinstance(x, str) and x.strip() for x in prev.parts) else None
            lit = prev.lit()
            if lit is not None and lit.isdigit():
                ctx.bad("count", fn, "the number of records of section '%s' is constant" % open_, loc, key="%s:count:%s" % (fn, open_))
        ok = None if w is None or it.coll is None else count_ok(w, it.coll)
        if ok is not None:
            ctx.check(ok, "count", fn, "the count written for section '%s' is not the number of its records" % open_, loc,
                      key="%s:count:%s" % (fn, open_))
        prev = it
    ctx.check(open_ is None, "section", fn, "section '%s' is not terminated" % open_, f.loc(f.node), key="%s:end:%s" % (fn, open_))
    for x in sorted(want or ()):
        ctx.check(x in seen, "section", fn, "'%s' is not written" % x, f.loc(f.node), key="%s:missing:%s" % (fn, x))


def limits(c):
    p = place(c)
    if p == ("nodes", "val"):
        return (3, 3)
    if p == ("elements", "val", 1):
        return (0, None)
    if p == ("elements", "val", 2):
        return (1, None)
    return (1, None)


def free(w):
    p = place(w.tok)
    return p is not None and (p[:2] == ("physical", "key") or len(p) == 1 and p[0] not in ("self", "time", "t_idx") and w.tok.op != "op")


def equal(x, y):
    """Number read against a length of a row."""
    for a, b in ((x, y), (y, x)):
        if a[0] == "int" and isinstance(a[1], W) and b[0] == "n" and b[1] == 0 and len(b[2]) == 1:
            c = counted(a[1].tok)
            if c is None:
                return None
            return c[0] == "cols"
    return None


def line_wise(evs):
    for e in evs:
        if e.kind == "call" and e.name.endswith(".readline"):
            return True
        if e.kind == "loop" and (e.recv is not None and is_stream(e.recv) or any(line_wise(b) for b, fl in bodies(e))):
            return True
    return False


def read_back(ctx, rd, rpaths, wf, scr, want, data, sym=False):
    fn, rn = fname(wf), fname(rd)
    if not rpaths:
        return
    final = []
    for evs in rpaths:
        r = reader()
        try:
            runs = r.run(evs, scr)
        except Unknown as ex:
            ctx.notes.append("%s on %s: %s" % (rn, fn, ex))
            return
        for x in runs:
            probs, unk = judge(x, want, data, sym)
            final.append((x, probs, unk))
    if not final:
        ctx.bad("agree", rn, "no path of the reader accepts what %s writes" % fn, rd.loc(rd.node), key="%s:%s:none" % (rn, fn))
        return
    sure = [f for f in final if not f[0].unsure and not f[2]]
    okay = [f for f in final if not f[1]]
    bad = [f for f in sure if f[1]] or ([] if okay or any(f[2] for f in final) else final)
    ctx.saw("reads", "%s of %s" % (rn, fn))
    for x, probs, unk in final:
        for s in x.stores:
            ctx.saw("stores", "%s[..] from %s" % (show_cont(s[0]), fn))
    if not bad:
        ctx.ok("agree", "%s: %s" % (rn, fn))
        if not sure:
            ctx.notes.append("%s on %s: not decided completely" % (rn, fn))
        return
    seen = set()
    for x, probs, unk in bad:
        for key, text, loc in probs:
            if key not in seen:
                seen.add(key)
                ctx.bad("agree", rn, "%s (written by %s)" % (text, fn), loc or rd.loc(rd.node), key="%s:%s:%s" % (rn, fn, key))


def rowof(c):
    """Row of an array, whatever the shape it was brought to."""
    if c.op in ("elem", "item"):
        b = source(c.args[0])
        if b is not c.args[0] or b.op == "param":
            return T("rowof", b)
    return c


def cols(t):
    c = counted(t)
    return T("rowof", c[1]) if c is not None and c[0] == "cols" else None


def reader():
    return Reader(limits, free, is_stream, equal, rowof, cols)


def show_cont(c):
    if c.op == "attr":
        return c.args[1]
    d = data_cont(c)
    return "element_data" if d else c.op


def data_cont(c):
    """Field token when the container is self.element_data[field]."""
    c = canon(c)
    if c.op in ("pcall", "call") and name_of(c) == ".setdefault" and c.args[1].op == "attr" and c.args[1].args[1] == "element_data":
        return c.args[2]
    if c.op == "item" and c.args[0].op == "attr" and c.args[0].args[1] == "element_data":
        return c.args[1]
    return None


def undecided(v):
    if v is None:
        return False
    if v[0] == "t":
        return v[1].op != "dict"
    if v[0] == "cat":
        return any(undecided(x) for x in v[1])
    return False


def show(v):
    if v is None:
        return "nothing"
    if v[0] == "cat":
        return "(%s)" % ", ".join(show(x) for x in v[1])
    if v[0] == "map":
        return "%s of %s" % (v[1], place(v[2].coll))
    if v[0] in ("int", "float", "int of float"):
        return "%s of %s" % (v[0], place(v[1].tok) if isinstance(v[1], W) else v[1])
    if v[0] == "s":
        return "text %s" % [place(x.tok) if isinstance(x, W) else x for x in v[1]]
    if v[0] == "bad":
        return v[1]
    return str(v[1:])


def scalar(v, want, kind):
    """Problem with a value which has to be the one at the place; None if it is that value (or not known)."""
    if v[0] == "bad":
        return v[1]
    if v[0] == "t":
        return None
    if kind == "str":
        if v[0] == "s" and len(v[1]) == 1 and isinstance(v[1][0], W):
            p = place(v[1][0].tok)
            return None if p is None or p == want else show(v)
        return show(v)
    if v[0] != kind and not (v[0] == "int of float" and kind == "int"):
        return show(v)
    w = v[1]
    if not isinstance(w, W):
        return show(v)
    p = place(w.tok)
    if p is not None and p != want:
        return show(v)
    if not lossless(w, kind):
        return "%s printed as '%s'" % (show(v), w.spec)
    return None


def listed(v, want, kind):
    """The value has to be the list at the place."""
    if v[0] == "t":
        return None
    if v[0] == "bad":
        return v[1]
    if v[0] != "cat":
        return show(v)
    items = v[1]
    if len(items) == 1 and items[0][0] == "map":
        conv, l = items[0][1], items[0][2]
        if conv != kind and not (conv == "int of float" and kind == "int"):
            return show(v)
        p = place(l.coll)
        if p is not None and p != want:
            return show(v)
        w = l.parts[0]
        q = place(w.tok)
        if q is not None and p is not None and q != p + ("each",):
            return show(v)
        return None if lossless(w, kind) else "%s printed as '%s'" % (show(v), w.spec)
    if not items:
        return "an empty list"
    for i, x in enumerate(items):
        if x[0] == "map":
            return show(v)
        r = scalar(x, want + (i,), kind)
        if r:
            return r
    if want == ("nodes", "val") and len(items) != 3:
        return show(v)
    return None


def foreign(v, env):
    """The value does not come from the text read."""
    if v is not None and v[0] == "t" and v[1].op in ("elem", "idx") and isinstance(v[1].args[0], Tok) and \
            name_of(v[1].args[0]) == "builtins.range":
        return True
    return v is not None and v[0] == "t" and v[1].op != "dict" and not any(t in env for t in subtoks(v[1]))


def judge(x, want, data, sym=False):
    """Problems of one abstract run, and whether something in it is unknown."""
    probs = [("fail:" + t, t, loc) for t, loc in x.fails]
    unk = False
    got = set()
    rows, heads = [], []
    for cont, k, v, e in x.stores:
        loc = e.loc()
        if cont.op == "attr" and cont.args[0].op == "param" and cont.args[1] in ("nodes", "elements", "physical"):
            n = cont.args[1]
            got.add(n)
            unk = unk or any(undecided(q) and not foreign(q, x.env) for q in (k, v))
            if n == "physical":
                ps = [scalar(k, (n, "key"), "str")]
                if v[0] == "cat" and len(v[1]) == 2:
                    ps += [scalar(v[1][0], (n, "val", 0), "int"), scalar(v[1][1], (n, "val", 1), "int")]
                elif v[0] != "t":
                    ps.append(show(v))
            elif n == "nodes":
                ps = [scalar(k, (n, "key"), "int"), listed(v, (n, "val"), "float")]
            else:
                ps = [scalar(k, (n, "key"), "int")]
                if v[0] == "cat" and len(v[1]) == 3:
                    ps += [scalar(v[1][0], (n, "val", 0), "int"), listed(v[1][1], (n, "val", 1), "int"),
                           listed(v[1][2], (n, "val", 2), "int")]
                elif v[0] != "t":
                    ps.append(show(v))
            if foreign(k, x.env) or foreign(v, x.env):
                ps.append("a value which is not in the file")
            for q in ps:
                if q:
                    probs.append((n, "an entry of '%s' is read back as %s" % (n, q), loc))
            continue
        if v is not None and v[0] == "cat" and len(v[1]) == 2 and v[1][1][0] == "t" and v[1][1][1].op == "dict":
            heads.append((cont, k, v, loc))
        elif v is not None:
            rows.append((cont, k, v, loc))
    for n in sorted(want):
        if n not in got:
            probs.append(("lost:" + n, "'%s' written is not read back" % n, ""))
    if data:
        field = False
        for cont, k, v, loc in heads:
            f = data_cont(cont)
            if f is None:
                unk = True
                continue
            fv = reader().ev(f, dict(x.env))
            unk = unk or undecided(fv) or undecided(k) or undecided(v[1][0])
            r = fv[1] if fv[0] == "bad" else show(fv) if fv[0] not in ("s", "t") else None
            if fv[0] == "s" and not (len(fv[1]) == 1 and isinstance(fv[1][0], W) and place(fv[1][0].tok) in (("name",), None)):
                r = show(fv)
                if any(isinstance(p, W) and place(p.tok) and place(p.tok)[0] in ("fields", "name") for p in fv[1]) and len(fv[1]) == 1:
                    r = None
            if r:
                probs.append(("field", "the field name is read back as %s" % r, loc))
            if k[0] == "bad" or v[1][0][0] == "bad":
                probs.append(("time", "time index or time are read from %s" % show(k if k[0] == "bad" else v[1][0]), loc))
            else:
                if k[0] not in ("c", "int", "t"):
                    probs.append(("time", "the time index is read back as %s" % show(k), loc))
                if v[1][0][0] not in ("c", "float", "t") or v[1][0][0] == "c" and not isinstance(v[1][0][1], float):
                    probs.append(("time", "the time is read back as %s" % show(v[1][0]), loc))
                elif sym:
                    for q, n in ((scalar(k, ("t_idx",), "int"), "time index"), (scalar(v[1][0], ("time",), "float"), "time")):
                        if q:
                            probs.append(("time", "the %s is read as %s" % (n, q), loc))
            for c2, k2, v2, l2 in rows:
                if c2 is canon(v[1][1][1]):
                    field = True
                    unk = unk or any(undecided(q) and not foreign(q, x.env) for q in (k2, v2))
                    for q in (scalar(k2, ("ele_ids", "row"), "int"), listed(v2, ("values", "row"), "float"),
                              "a value which is not in the file" if foreign(k2, x.env) or foreign(v2, x.env) else None):
                        if q:
                            probs.append(("values", "element values are read back as %s" % q, l2))
        if not heads or not field:
            if rows and not field or not rows:
                probs.append(("lost:data", "element data written are not read back", ""))
        for n, rep, e in x.counts:
            if n[0] == "int" and isinstance(n[1], W) and rep.coll is not None:
                if count_ok(n[1].tok, rep.coll) is False:
                    probs.append(("rows", "the number of rows is read from another field of the header", e.loc()))
            elif n[0] in ("c", "bad"):
                probs.append(("rows", "the number of rows is read from %s" % show(n), e.loc()))
    return probs, unk
