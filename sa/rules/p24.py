"""P24: region assignments follow their shapes."""
from ..loader import AnalysisError
from ..tok import T, Tok, NONE, subtoks, is_const, cval, const, show
from ..rl import bodies, fname, where, canon, root, flat

LEVEL = "other"
TECHNIQUE = "alignment (index-space) analysis of tag and region sequences on all abstract paths"
EXPLANATION = ("Every sequence of tags or regions gets the index space it is aligned with (the entities of one set, a filter of it, the "
               "concatenation over sets, a row of the kernel's fragment map between the offsets of one set, ...). Whenever a shape "
               "set is built or changed, or sequences are walked in parallel, both sides must have the same index space; regions "
               "are completed by the dimension of the entity at the same position, and tags are filed under their own region.")
MOD = "bgem.gmsh.gmsh"
OS, GO, RG = MOD + ".ObjectSet", MOD + ".GeometryOCC", MOD + ".Region"
OPAQUE = {GO + ".group", GO + ".fragment", OS + ".copy", OS + ".invalidate", GO + ".synchronize", OS + ".cut", OS + ".intersect",
          OS + ".fragment", OS + ".select_by_intersect", OS + ".split_by_cut"}
DIMS = {"addPoint": 0, "addLine": 1, "addCircle": 1, "addBSpline": 1, "addSpline": 1, "addRectangle": 2, "addPlaneSurface": 2, "addDisk": 2,
        "addBox": 3, "addCylinder": 3, "addSphere": 3, "addVolume": 3, "addCone": 3, "addTorus": 3}
ROLES = ("dim_tags", "regions")


def run(ctx):
    ctx.rule("aligned", "tags and regions of a set have the same index space")
    ctx.rule("parallel", "sequences walked in parallel have the same index space")
    ctx.rule("offset", "the rows of the fragment map are taken between the offsets of their own set")
    ctx.rule("complete", "a region is completed by the dimension of its own entity")
    ctx.rule("filed", "tags are filed under their own region and become its physical group")
    ctx.rule("ctor", "the constructor spreads one region or requires one region per entity")
    ctx.rule("dims", "new shapes get the dimension of what was created")
    ctx.rule("own", "each entity of a new set gets its own region, not the one at a fixed position")
    ctx.rule("selected", "selection keeps exactly the entities that are met")
    ctx.rule("parts", "the parts of a cut are the difference of each side and their common entities")
    ctx.rule("shared", "regions, which several sets share, are changed only by their own operations")
    ctx.rule("ids", "every new region gets an id never used before")
    ctx.rule("names", "regions of the same name get different names before they are written")
    ctx.rule("boundary", "the boundary of each region gets a region of its own, of the dimension of the boundary")
    ctx.rule("cut", "every part of a cut takes the regions of its own side")
    for cn in ("GeometryOCC", "ObjectSet"):
        for m in ctx.prog.cls(MOD + "." + cn).methods.values():
            if m.name.startswith("__") or m.name.startswith("_") and m.name not in ("_assign_physical_groups", "_apply_operation"):
                continue
            if m.qual in (OS + ".invalidate",):
                continue
            Method(ctx, m).run()
    ctor(ctx)
    complete(ctx)
    pairing(ctx)
    selected(ctx)
    fresh_ids(ctx)
    unique_names(ctx)
    boundary(ctx)
    ctx.expect("sets built", 8)
    ctx.expect("parallel walks", 4)
    ctx.expect("completed", 3)
    ctx.expect("physical groups", 1)


def policy_for(f):
    def pol(g):
        c = getattr(g, "cls", None)
        if not hasattr(g, "deco_is"):
            return "opaque" if g.qual in (OS, RG) else None
        if g is f:
            return None
        if g.qual in OPAQUE or c is not None and c.qual == RG or g.qual == OS + ".__init__":
            return "opaque"
        return None
    return pol


def is_kernel(t):
    return t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith(".") and len(t.args) > 1 \
        and isinstance(t.args[1], Tok) and t.args[1].op == "attr" and t.args[1].args[1] == "model"


def strip(t):
    """Token without version marks and without list copies."""
    return canon(t)


class Method:
    def __init__(self, ctx, f):
        self.ctx, self.f, self.q = ctx, f, fname(f)

    def run(self):
        ctx, f = self.ctx, self.f
        outs = ctx.run(f, keep_conds=True, policy=policy_for(f))
        self.phi = {canon(k): [canon(x) for x in v] for k, v in ctx.last.phi_info.items()}
        for o in outs:
            if o.flow == "raise":
                continue
            self.content = {}     # local list -> space of its appended items
            self.items = {}       # local list -> appended tokens
            self.fields = {}
            self.conds = []
            self.walk(o.events(), None)
            for s, d in self.fields.items():
                D = d.get("dim_tags", T("attr", s, "dim_tags"))
                R = d.get("regions", T("attr", s, "regions"))
                if D is NONE or R is NONE:
                    continue
                self.pair(D, R, d["e"])
            if f.qual == OS + ".dimtagreg":
                self.dimtagreg(o)
            if f.qual == OS + ".split_by_cut":
                self.cutparts(o)

    # ------------------------------------------------------------ index spaces
    def same_set(self, s):
        s = canon(s)
        while s.op in ("call", "pcall") and s.args[0] == OS + ".copy" and len(s.args) > 1:
            s = s.args[1]
        return T("elem", s.args[0]) if s.op == "elem" else s

    def space(self, t):
        t = canon(t)
        if t.op == "attr" and t.args[1] in ROLES:
            return ("S", self.same_set(t.args[0]))
        if t.op == "lphi" and len(t.args) > 3 and t.args[2] in ROLES:
            return ("S", self.same_set(t.args[3]))
        if t in self.content:
            return self.content[t]
        if t.op == "copyof":
            if t.args[0] in ("builtins.reversed",):
                return ("rev", self.space(t.args[1]))
            if t.args[0] in ("builtins.sorted", "builtins.set", "builtins.frozenset"):
                return ("shuffled", t)
            if t.args[0] in ("builtins.dict",):
                return ("dict", t)
            return self.space(t.args[1])
        if t.op == "comp":
            kind, elt, coll, elem, conds = t.args[:5]
            if coll.op == "tuple" and elem is None or coll.op == "tuple" and not isinstance(elem, Tok):
                inner = self.space(coll.args[-1])
                base = ("flat", self.collkey(coll.args[0])) if inner[0] in ("S", "tok") else ("flat", self.collkey(coll.args[0]), inner)
            else:
                base = self.space(coll)
            return ("F", base, frozenset(show(c) for c in conditions(conds))) if isinstance(conds, Tok) else base
        if t.op == "zip":
            for a in t.args:
                s = self.space(a)
                if s[0] not in ("tok", "cat"):
                    return s
            return self.space(t.args[0])
        if t.op == "enum":
            return self.space(t.args[0])
        if t.op in ("keys", "values", "items"):
            return ("dict", t.args[0])
        if is_kernel(t):
            return self.space(t.args[2]) if t.args[0] == ".copy" and len(t.args) > 2 else ("tok", t)
        if t.op in ("call", "pcall") and t.args[0] in ("itertools.chain", "itertools.chain.from_iterable"):
            a = t.args[1]
            if a.op == "star":
                a = a.args[0]
            if a.op == "comp" and not isinstance(a.args[4], Tok):
                return ("flat", self.collkey(a.args[2]))
            return ("cat", tuple(self.space(x) for x in t.args[1:] if isinstance(x, Tok) and x.op != "uid"))
        if t.op == "op" and t.args[0] == "+" and len(t.args) == 3:
            a, b = self.space(t.args[1]), self.space(t.args[2])
            return ("cat", (a, b)) if a[0] != "tok" and b[0] != "tok" else ("tok", t)
        if t.op == "item" and is_const(t.args[1]) and cval(t.args[1]) == 1 and is_kernel(t.args[0]) \
                and t.args[0].args[0] in (".fragment", ".cut", ".intersect", ".fuse"):
            a = [x for x in t.args[0].args[2:] if isinstance(x, Tok) and x.op not in ("kw", "uid")]
            sp = [self.space(x) for x in a[:2] if not (x.op == "list" and len(x.args) == 1)]
            return sp[0] if len(sp) == 1 else ("cat", tuple(sp)) if sp else ("tok", t)
        if t.op == "item" and isinstance(t.args[1], Tok) and t.args[1].op == "slice":
            return self.slice(t, self.space(t.args[0]), t.args[1])
        if t.op == "item" and t.args[0].op == "zipstar":
            return ("unz", t.args[0])
        return ("tok", t)

    def collkey(self, c):
        return ("tok", canon(c))

    def opts(self, t):
        out, todo, seen = [], [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            p = self.phi.get(x)
            if p and x.op in ("phi", "lphi"):
                todo += p
            else:
                out.append(x)
        return out

    def slice(self, t, sp, sl):
        a, b = sl.args[0], sl.args[1]
        step = sl.args[2] if len(sl.args) > 2 else NONE
        if step is not NONE and not (is_const(step) and cval(step) in (None, 1)):
            return ("rev", sp) if is_const(step) and cval(step) == -1 and a is NONE and b is NONE and sp[0] != "tok" else ("tok", t)
        if sp[0] not in ("tok", "cat", "flat"):
            if (a is NONE or is_const(a) and cval(a) == 0) and b is NONE:
                return sp
            if all(x is NONE or is_const(x) for x in (a, b)):
                return ("part", sp, show(sl))
        zero = a is NONE or is_const(a) and cval(a) in (0, None)
        if sp[0] == "cat" and a.op == "op" and a.args[0] == "neg" and length_of(a.args[1]) is not None and b is NONE:
            s = self.space(length_of(a.args[1]))
            return s if s == sp[1][-1] else ("part", sp, show(sl)) if s[0] != "tok" else ("tok", t)
        lb = length_of(b)
        if sp[0] == "cat":
            if zero and lb is not None:
                s = self.space(lb)
                if s == sp[1][0]:
                    return s
                return ("part", sp, show(sl)) if s[0] != "tok" else ("tok", t)
            if not zero and b is NONE and length_of(a) is not None and self.space(length_of(a)) == sp[1][0] and len(sp[1]) == 2:
                return sp[1][1]
            return ("tok", t)
        if sp[0] == "flat":
            L = sp[1][1]
            one = self.row(a, b, L)
            if one is True:
                return ("S", T("elem", L))
            if one is False:
                return ("part", sp, show(sl))
            return ("tok", t)
        return ("tok", t)

    def row(self, a, b, L):
        """Do the bounds a..b cover the rows of the walked element of L?  None: not recognised."""
        def size(x):
            l = length_of(x)
            return l is not None and l.op in ("attr", "lphi") and self.elemset(l) is L

        def end(x):
            # accumulated sizes over L
            if x.op == "elem" and x.args[0].op in ("call", "pcall") and x.args[0].args[0] == "itertools.accumulate":
                c = x.args[0].args[1]
                kws = [y for y in x.args[0].args[2:] if isinstance(y, Tok) and y.op not in ("uid",)]
                return not kws and c.op == "comp" and not isinstance(c.args[4], Tok) and canon(c.args[2]) is L and size(c.args[1])
            return False
        vocab = all(s.op in ("const", "lphi", "phi", "op", "call", "pcall", "comp", "elem", "idx", "attr", "param", "v0", "uid", "ver", "clk",
                             "copyof", "item") for x in (a, b) for s in subtoks(x))
        if a.op == "op" and a.args[0] == "-" and a.args[1] is b and size(a.args[2]):
            return end(b)
        if end(b):
            if a.op == "lphi":
                o = self.opts(a)
                if len(o) == 2 and b in o and any(is_const(x) and cval(x) == 0 for x in o):
                    return True
            return False if vocab else None
        if b.op == "op" and b.args[0] == "+" and a.op == "lphi" and (b.args[1] is a and size(b.args[2]) or b.args[2] is a and size(b.args[1])):
            o = [x for x in self.opts(a) if not (x.op == "op" and x.args[0] == "+" and any(is_const(y) and cval(y) == 0 for y in x.args[1:])
                                                 and any(size(y) for y in x.args[1:]))]
            return len(o) == 2 and b in o and any(is_const(x) and cval(x) == 0 for x in o)
        return False if vocab else None

    def elemset(self, l):
        """Collection whose walked element has the attribute l."""
        b = l.args[0] if l.op == "attr" else l.args[3] if len(l.args) > 3 else None
        if l.op == "attr" and l.args[1] not in ROLES:
            return None
        return b.args[0] if isinstance(b, Tok) and b.op == "elem" else None

    # ------------------------------------------------------------ events
    def walk(self, events, loop):
        for e in events:
            if e.kind == "loop":
                if e.recv is not None:
                    self.zips(e.recv, e)
                self.appends(e)
                for b, fl in bodies(e):
                    if fl != "raise":
                        n = len(self.conds)
                        self.walk(b, e)
                        del self.conds[n:]
                continue
            for a in list(e.args or ()) + ([e.recv] if isinstance(e.recv, Tok) else []):
                if isinstance(a, Tok):
                    self.zips(a, e)
            if e.kind == "cond":
                self.conds.append((canon(e.recv), bool(e.name)))
            elif e.kind == "new" and e.name == OS:
                self.new(e)
            elif e.kind == "write" and e.name in ROLES and e.recv.op != "new":
                self.fields.setdefault(canon(e.recv), {})[e.name] = e.args[0]
                self.fields[canon(e.recv)]["e"] = e
            elif e.kind == "write" and e.name in ("name", "dim", "id") and region_of(canon(e.recv)):
                self.ctx.bad("shared", self.q, "the %s of a region other sets may have is changed" % e.name, where(e), key=self.q)
            elif e.kind == "call" and e.name == RG + ".complete":
                self.complete(e)
            elif e.kind == "call" and e.name == "gmsh.model.addPhysicalGroup":
                self.group(e)
            elif e.kind == "call" and e.name == "gmsh.model.setPhysicalName":
                a = [canon(x) for x in e.args]
                rs = {x.args[0] for x in (a[0], a[2]) if x.op == "attr"}
                gid = a[1]
                if gid.op == "call" and gid.args[0] == "gmsh.model.addPhysicalGroup" and gid.args[1].op == "attr":
                    rs.add(gid.args[1].args[0])
                self.ctx.check(len(rs) < 2, "filed", self.q, "the name given to a physical group is not the name of its region", where(e),
                               key=self.q + ":name")

    def zips(self, t, e):
        for z in subtoks(t):
            if z.op != "zip":
                continue
            sp = [self.space(a) for a in z.args]
            known = [s for s in sp if s[0] != "tok"]
            if len(known) < 2:
                continue
            self.ctx.saw("parallel walks", self.q + ":" + str(len(show(z))))
            ok = all(agree(a, b) for a in known for b in known)
            part = [s for s in known if s[0] == "part"]
            self.ctx.check(ok, "offset" if part else "parallel", self.q,
                           "sequences of different sets are paired: " + " / ".join(describe(s) for s in known), where(e), key=self.q)

    def appends(self, loop):
        """Local lists filled by the loop."""
        per = {}
        bs = [(b, fl) for b, fl in bodies(loop) if fl not in ("raise",)]
        for i, (b, fl) in enumerate(bs):
            for e in b:
                if e.kind == "mut" and e.name in ("append", "extend") and e.recv is not None:
                    r = canon(e.recv)
                    sub = None
                    if r.op == "item" and r.args[0].op == "list":
                        sub, r = r.args[1], r.args[0]
                    if r.op == "list":
                        per.setdefault((r, sub), []).append((i, e.name, canon(e.args[0])))
                    self.file(r if sub is None else e.recv, e, loop)
        for (r, sub), ops in per.items():
            cnt = [sum(1 for o in ops if o[0] == i) for i in range(len(bs))]
            items = [o[2] for o in ops]
            if sub is not None:
                inner = r.args[1:]
                for k, l in enumerate(inner):
                    l = canon(l)
                    sp = ("app", id(loop.node), tuple(cnt), sub, k)
                    self.content[l] = sp
                    self.items[l] = items
                self.content[r] = ("rows", len(inner))
                continue
            self.items[r] = items
            if all(o[1] == "append" for o in ops) and cnt and all(c == 1 for c in cnt) and loop.recv is not None and \
                    all(fl in ("next", "continue") for b, fl in bs):
                self.content[r] = self.space(loop.recv)
            elif all(o[1] == "extend" for o in ops) and cnt and all(c == 1 for c in cnt) and loop.recv is not None and \
                    all(x.op in ("attr", "lphi") for x in items):
                self.content[r] = ("flat", self.collkey(loop.recv))
            else:
                self.content[r] = ("app", id(loop.node), tuple(cnt), None, 0)

    def file(self, r, e, loop):
        """A tag stored under a region in a mapping."""
        r = canon(r)
        k = None
        x = r
        while x.op in ("item", "attr", "call", "pcall"):
            if x.op == "item" and x.args[0].op in ("dict", "new", "call"):
                k = x.args[1]
                break
            if x.op in ("call", "pcall") and x.args[0] == ".setdefault" and len(x.args) > 2:
                k = x.args[2]
                break
            x = x.args[1] if x.op in ("call", "pcall") and len(x.args) > 1 and isinstance(x.args[1], Tok) else x.args[0]
            if not isinstance(x, Tok):
                return
        v = canon(e.args[0])
        tag = tag_elem(v)
        if k is None or tag is None:
            return
        base = k.args[0] if k.op == "attr" else k
        if k.op == "attr" and k.args[1] in ("name", "dim"):
            self.ctx.bad("filed", self.q, "tags are filed by the %s of the region, which several regions can share" % k.args[1], where(e),
                         key=self.q)
            return
        if base.op == "elem":
            a, b = self.space(base.args[0]), self.space(tag.args[0])
            self.ctx.check(a == b or "tok" in (a[0], b[0]), "filed", self.q, "a tag is filed under the region of another entity", where(e),
                           key=self.q)
        self.filed = getattr(self, "filed", {})
        self.filed[x.args[0] if x.op == "item" else x] = (v, tag)

    def new(self, e):
        a = list(e.args) + [None] * 3
        kw = e.kw or {}
        D, R = kw.get("dim_tags", a[1]), kw.get("regions", a[2])
        if D is None or R is None:
            return
        D, R = canon(D), canon(R)
        self.ctx.saw("sets built", self.q + ":" + str(e.node.lineno if e.node is not None else 0))
        one = R.args[1:] if R.op == "list" and R not in self.content else None
        if one is not None and len(one) == 1:
            self.single(D, canon(one[0]), e)
            return
        self.pair(D, R, e)

    def fixed(self, R, e):
        for x in chosen(R):
            self.ctx.bad("own", self.q, "all entities get the region at position %s" % show(x.args[1]), where(e), key=self.q)

    def single(self, D, r, e):
        chk = self.ctx.check
        if not (D.op == "list" and D not in self.content and len(D.args) == 2):
            self.fixed(r, e)
        if D.op == "list" and D not in self.content and len(D.args) == 2 and D.args[1].op == "tuple":
            dim, tag = D.args[1].args[:2]
            if r.op == "item" and r.args[0].op in ("attr", "clsattr") and "default_region" in r.args[0].args:
                chk(r.args[1] is dim, "aligned", self.q, "the default region is of another dimension than the entity", where(e), key=self.q)
            if is_kernel(tag) and tag.args[0][1:] in DIMS:
                d = cval(dim) if is_const(dim) else None
                if d is None:
                    for c, v in self.conds:
                        if v and c.op == "op" and c.args[0] == "==" and dim in c.args[1:]:
                            o = [x for x in c.args[1:] if x is not dim]
                            d = cval(o[0]) if o and is_const(o[0]) else d
                if d is not None:
                    chk(d == DIMS[tag.args[0][1:]], "dims", self.q, "a shape made by %s is registered with dimension %s" % (tag.args[0][1:], d),
                        where(e), key=self.q)
            return
        dv, rv = D, r
        # entry of a mapping region -> (region, tags)
        bd, br = root_val(D), root_val(r)
        if bd is not None and br is not None:
            chk(bd is br, "filed", self.q, "tags and region come from different entries", where(e), key=self.q)
            self.used(D, e, False)
            return
        if D.op == "elem" and r.op == "elem":
            a, b = self.space(D.args[0]), self.space(r.args[0])
            if a[0] != "tok" and b[0] != "tok":
                chk(agree(a, b), "offset" if "part" in (a[0], b[0]) else "aligned", self.q,
                    "parts of an entity get the region of another one", where(e), key=self.q)

    def pair(self, D, R, e):
        D, R = canon(D), canon(R)
        d, r = self.space(D), self.space(R)
        ok = True
        self.fixed(R, e)
        kd = D.args[0] if D.op == "item" and is_const(D.args[1]) else D
        if kd.op == "call" and d[0] == "tok" and (is_kernel(kd) or isinstance(kd.args[0], str) and kd.args[0].startswith("gmsh.model.")):
            while r[0] == "F":
                r = r[1]
            self.ctx.check(r[0] != "S", "aligned", self.q, "new entities get the regions of %s" % describe(r), where(e), key=self.q + ":new")
        if d[0] != "tok" and r[0] != "tok":
            ok = d == r
        elif r[0] == "tok" and R.op == "comp":
            ok = True
        self.ctx.check(ok, "aligned", self.q, "tags (%s) and regions (%s) are not aligned" % (describe(d), describe(r)), where(e), key=self.q)
        # roles of the stored items
        for t, role, sp in ((D, "dim_tags", d), (R, "regions", r)):
            for x in self.elements(t):
                k = elem_role(x)
                if k is not None:
                    self.ctx.check(k == role, "aligned", self.q, "%s are stored as %s" % (k, role), where(e), key=self.q + ":role")
        # default regions of the tags
        for x in subtoks(R):
            if x.op == "item" and x.args[0].op in ("attr", "clsattr") and "default_region" in x.args[0].args:
                k = x.args[1]
                if k.op == "item" and k.args[0].op == "elem" and is_const(k.args[1]):
                    self.ctx.check(cval(k.args[1]) == 0, "complete", self.q, "a default region is selected by the tag, not by the dimension",
                                   where(e), key=self.q + ":default")

    def elements(self, t):
        if t in self.items:
            return self.items[t]
        if t.op == "comp":
            return [t.args[1]]
        if t.op == "item" and t.args[0].op == "zipstar" and is_const(t.args[1]):
            z = t.args[0].args
            out = []
            for s in z:
                s = s.args[0] if s.op == "star" else s
                for x in self.items.get(canon(s), ()):
                    if x.op == "item" and x.args[0].op == "tuple" and x.args[1].op == "slice" and all(is_const(y) for y in x.args[1].args):
                        x = T("tuple", *x.args[0].args[slice(*[cval(y) for y in x.args[1].args])])
                    if x.op == "tuple" and len(x.args) > cval(t.args[1]):
                        out.append(x.args[cval(t.args[1])])
            return out
        return []

    def complete(self, e):
        a = [canon(x) for x in e.args]
        if len(a) < 2:
            return
        r, d = a[0], a[1]
        self.ctx.saw("completed", self.q)
        if d.op == "item" and is_const(d.args[1]) and elem_role(d.args[0]) == "dim_tags":
            if not self.ctx.check(cval(d.args[1]) == 0, "complete", self.q, "a region is completed by a tag instead of a dimension", where(e),
                                  key=self.q):
                return
            if r.op == "elem":
                x, y = self.space(r.args[0]), self.space(d.args[0].args[0])
                self.ctx.check(agree(x, y) or "tok" in (x[0], y[0]), "complete", self.q, "a region is completed by the dimension of another entity",
                               where(e), key=self.q)

    def used(self, D, e, tag):
        """Were whole dim-tags / tags filed in the mapping used here?"""
        m = mapping(D)
        for k, (v, t) in getattr(self, "filed", {}).items():
            if k is m:
                ok = v.op == "item" and is_const(v.args[1]) and cval(v.args[1]) == 1 if tag else v is t
                self.ctx.check(ok, "filed", self.q, "the filed values are not %s" % ("tags" if tag else "entities"), where(e),
                               key=self.q + ":value")

    def group(self, e):
        a = [canon(x) for x in e.args] + [canon(v) for v in (e.kw or {}).values()]
        self.ctx.saw("physical groups", self.q)
        dim, tags = a[0], a[1]
        if dim.op == "attr":
            self.ctx.check(dim.args[1] == "dim", "filed", self.q, "a physical group is not made for the dimension of its region", where(e),
                           key=self.q + ":dim")
            bd, br = root_val(tags), root_val(dim.args[0])
            if bd is not None and br is not None:
                self.ctx.check(bd is br, "filed", self.q, "a physical group gets the tags of another region", where(e), key=self.q)
        self.used(tags, e, True)

    # ------------------------------------------------------------ particular methods
    def parts(self, i, D, R, e):
        """Part i of a cut on two sides with entities a, c and b, c."""
        try:
            d = list(small(D))
        except NoKey as x:
            self.ctx.bad("parts", self.q + ":%d" % i, "part %d of a cut of {a, c} and {b, c} takes %s from the other side" % (i, x), where(e),
                         key=self.q + ":%d" % i)
            return
        except Unable:
            return
        want = [["a"], ["b"], ["c"], ["c"]][i]
        self.ctx.check(sorted(d) == want, "parts", self.q + ":%d" % i,
                       "part %d of a cut of {a, c} and {b, c} is {%s}" % (i, ", ".join(sorted(map(str, d)))), where(e), key=self.q + ":%d" % i)
        try:
            r = list(small(R))
        except (Unable, NoKey):
            return
        side = "obj" if i % 2 == 0 else "tool"
        self.ctx.check(r == [(side, k) for k in d], "parts", self.q + ":%d" % i, "the regions of part %d are not those of its entities" % i,
                       where(e), key=self.q + ":r%d" % i)

    def dimtagreg(self, o):
        v = canon(o.val)
        if v.op == "zip" and len(v.args) == 2:
            ok = v.args[0].op == "attr" and v.args[0].args[1] == "dim_tags" and v.args[1].op == "attr" and v.args[1].args[1] == "regions"
            self.ctx.check(ok, "aligned", self.q, "the pairs are not (entity, region)", self.f.loc(self.f.node), key=self.q)

    def cutparts(self, o):
        v = canon(o.val)
        its = v.args[1:] if v.op == "list" else v.args if v.op == "tuple" else ()
        if len(its) != 4:
            return
        news = {canon(e.res): e for e, l in flat(o.events()) if e.kind == "new" and e.name == OS}
        for i, t in enumerate(its):
            e = news.get(canon(t))
            if e is None or len(e.args) < 3:
                continue
            sides = set()
            for s in (x for a in e.args[2:3] for x in vals_of(canon(a))):
                if s.op == "item" and s.args[0].op == "call" and s.args[0].args[0] == GO + ".fragment" and is_const(s.args[1]):
                    sides.add(cval(s.args[1]))
            if len(sides) == 1:
                self.parts(i, canon(e.args[1]), canon(e.args[2]), e)
                self.ctx.check(sides == {i % 2}, "cut", self.q + ":%d" % i, "a part of the cut takes the regions of the other side", where(e),
                               key=self.q + ":%d" % i)


def conditions(c):
    return c.args if c.op == "conds" else (c,)


def length_of(t):
    """X of len(X) (constant offsets excluded)."""
    return canon(t.args[1]) if isinstance(t, Tok) and t.op == "op" and t.args[0] == "len" else None


def agree(a, b):
    """Can the spaces be walked together?"""
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if x[0] == "cat" and x[1] and x[1][0] == y:
            return True
        if x[0] == "rows" or y[0] == "tok":
            return True
    return False


def describe(s):
    if s[0] == "S":
        return "entities of " + show(s[1])[:60]
    if s[0] == "F":
        return "filtered " + describe(s[1])
    if s[0] == "flat":
        return "concatenation over " + show(s[1][1])[:60]
    if s[0] == "part":
        return "rows " + str(s[2])[:80]
    if s[0] == "dict":
        return "entries of " + show(s[1])[:40]
    return s[0]


def tag_elem(v):
    """Element of a tag sequence the value is, or is a component of."""
    if v.op == "item" and is_const(v.args[1]):
        v = v.args[0]
    return v if elem_role(v) == "dim_tags" else None


def elem_role(x):
    """Role of a walked element of a set's sequence."""
    if x.op == "elem":
        c = x.args[0]
        if c.op == "attr" and c.args[1] in ROLES:
            return c.args[1]
        if c.op == "lphi" and len(c.args) > 2 and c.args[2] in ROLES:
            return c.args[2]
    return None


def root_val(t):
    """The entry (val of a mapping) the value is a component of."""
    while t.op == "item":
        t = t.args[0]
    return t if t.op == "val" else None


def mapping(t):
    v = root_val(t)
    return v.args[0] if v is not None else None


def vals_of(t):
    """Tokens the values of the mapping are read from (its keys and filters excluded)."""
    if t.op in ("values", "copyof") or t.op in ("call", "pcall") and t.args[0] == "builtins.dict":
        for a in t.args:
            if isinstance(a, Tok):
                yield from vals_of(a)
    elif t.op == "comp":
        k = t.args[1]
        yield from vals_of(k.args[-1] if k.op in ("kv", "tuple") else k)
    elif t.op == "item":
        yield t
        yield from vals_of(t.args[0])
    elif t.op == "zip":
        for a in t.args:
            yield from vals_of(a)
    elif t.op == "attr":
        yield from vals_of(t.args[0])


def ctor(ctx):
    f = ctx.prog.func(OS + ".__init__")
    p = f.pos_params()
    D, R = T("param", p[2]), T("param", p[3])
    q = fname(f)
    for o in ctx.run(f, keep_conds=True):
        if o.flow == "raise":
            continue
        w = {e.name: canon(e.args[0]) for e in o.events() if e.kind == "write"}
        d, r = w.get("dim_tags"), w.get("regions")
        if d is None or r is None:
            ctx.bad("ctor", q, "a path of the constructor does not store both tags and regions", f.loc(f.node), key=q)
            continue
        ctx.check(strip_copy(d).op == "param" and strip_copy(d).args[0] == p[2], "ctor", q, "the tags stored are not those given", f.loc(f.node),
                  key=q + ":tags")
        if strip_copy(r).op == "param":
            conds = [(canon(e.recv), bool(e.name)) for e in o.events() if e.kind == "cond"]
            ok = any(v and c.op == "op" and c.args[0] == "==" and {show(length_of(x)) for x in c.args[1:] if length_of(x) is not None}
                     == {p[2], p[3]} for c, v in conds)
            ctx.check(ok and strip_copy(r).args[0] == p[3], "ctor", q, "regions are stored without checking that there is one per entity",
                      f.loc(f.node), key=q + ":count")
        elif r.op == "comp":
            coll = strip_copy(r.args[2])
            ok = not isinstance(r.args[4], Tok) and (coll.op == "param" and coll.args[0] == p[2] or any(s.op == "param" and s.args[0] == p[2]
                                                                                                     for s in subtoks(coll)))
            ctx.check(ok, "ctor", q, "the single region is not spread over all entities", f.loc(f.node), key=q + ":spread")


def strip_copy(t):
    while t.op == "copyof":
        t = t.args[1]
    return t


def complete(ctx):
    """Region.complete sets the dimension once and rejects another one afterwards."""
    f = ctx.prog.func(RG + ".complete")
    q = fname(f)
    p = f.pos_params()
    stored = False
    for o in ctx.run(f, keep_conds=True):
        if o.flow == "raise":
            continue
        wr = [canon(e.args[0]) for e in o.events() if e.kind == "write" and e.name == "dim"]
        stored = stored or bool(wr)
        conds = [(canon(e.recv), bool(e.name)) for e in o.events() if e.kind == "cond"]
        none = [v for c, v in conds if c.op == "op" and c.args[0] == "is" and NONE in c.args]
        eq = [v for c, v in conds if c.op == "op" and c.args[0] == "=="]
        if wr:
            ctx.check(wr[-1].op == "param" and wr[-1].args[0] == p[1], "complete", q, "the dimension stored is not the one given",
                      f.loc(f.node), key=q + ":value")
            if none or eq:
                ctx.check(none == [True] or none == [False] and eq == [True] or eq == [True], "complete", q,
                          "a region of another dimension is taken over", f.loc(f.node), key=q + ":over")
            else:
                ctx.bad("complete", q, "a region of another dimension is taken over", f.loc(f.node), key=q + ":over")
        else:
            ctx.check(any(eq), "complete", q, "a region of another dimension is accepted", f.loc(f.node), key=q + ":accept")
        v = canon(o.val) if o.val is not None else NONE
        ctx.check(v.op == "param" and v.args[0] == p[0], "complete", q, "the completed region is not returned", f.loc(f.node), key=q + ":ret")
    ctx.check(stored, "complete", q, "a region without dimension is not completed", f.loc(f.node), key=q + ":store")
    # set_region and the physical groups complete every region they assign
    for qual in (OS + ".set_region", GO + "._assign_physical_groups"):
        g = ctx.prog.func(qual)
        for o in ctx.run(g, keep_conds=True, policy=policy_for(g)):
            if o.flow == "raise":
                continue
            n = 0
            for e, loops in flat(o.events()):
                if e.kind == "loop" and e.recv is not None and walks_tags(e.recv):
                    bs = [(b, fl) for b, fl in bodies(e) if fl != "raise"]
                    if bs and all(any(x.kind == "call" and x.name == RG + ".complete" for x, _ in flat(b)) for b, fl in bs):
                        n += 1
            ctx.check(n, "complete", fname(g), "regions are assigned to entities without completing their dimension", g.loc(g.node),
                      key=fname(g) + ":all")


def walks_tags(t):
    t = canon(t)
    if t.op == "attr":
        return t.args[1] == "dim_tags"
    return any(walks_tags(a) for a in t.args if isinstance(a, Tok)) if t.op in ("zip", "enum", "tuple", "comp") else False


def pairing(ctx):
    """The fragments are returned in the order of the given sets."""
    f = ctx.prog.func(GO + ".fragment")
    for o in ctx.run(f, keep_conds=True, policy=policy_for(f)):
        if o.flow == "raise":
            continue
        m = Method(ctx, f)
        m.phi, m.content, m.items, m.fields, m.conds = {}, {}, {}, {}, []
        loops = [e for e, l in flat(o.events()) if e.kind == "loop"]
        for e in loops:
            m.appends(e)
        v = canon(o.val)
        sp = m.content.get(v)
        if sp is not None:
            ctx.check(sp[0] == "tok" and sp[1].op == "param", "parallel", fname(f), "there is not one result per given set, in their order",
                      f.loc(f.node), key=fname(f) + ":order")


class Unable(Exception):
    pass


class NoKey(Exception):
    pass


def small(t, env=None):
    """Value of a token of split_by_cut in the model: object entities a, c; tool entities b, c."""
    env = env or {}
    t = canon(t)
    if t in env:
        return env[t]
    if t.op == "new" and t.args[0] == "builtins.set":
        return set()
    side = None
    if t.op in ("attr", "lphi") and (t.args[1] if t.op == "attr" else t.args[2] if len(t.args) > 2 else None) in ROLES:
        role = t.args[1] if t.op == "attr" else t.args[2]
        b = t.args[0] if t.op == "attr" else t.args[3]
        if isinstance(b, Tok) and canon(b).op == "item" and canon(b).args[0].op == "call" and canon(b).args[0].args[0] == GO + ".fragment" \
                and is_const(canon(b).args[1]):
            side = cval(canon(b).args[1])
            keys = [["a", "c"], ["b", "c"]][side] if side in (0, 1) else None
            if keys is not None:
                return keys if role == "dim_tags" else [(("obj", "tool")[side], k) for k in keys]
        raise Unable
    if t.op == "zip":
        return list(zip(*[small(a, env) for a in t.args]))
    if t.op == "tuple":
        return tuple(small(a, env) for a in t.args)
    if t.op == "list":
        return [small(a, env) for a in t.args[1:]]
    if t.op == "kv":
        return tuple(small(a, env) for a in t.args[:2])
    if t.op in ("keys", "values", "items"):
        d = small(t.args[0], env)
        if not isinstance(d, dict):
            raise Unable
        return list({"keys": d.keys, "values": d.values, "items": d.items}[t.op]())
    if t.op == "copyof" or t.op in ("call", "pcall") and t.args[0] in ("builtins.dict", "builtins.set", "builtins.list", "builtins.sorted",
                                                                          "builtins.tuple", "builtins.frozenset"):
        v = small(t.args[1], env)
        k = t.args[0].split(".")[-1]
        if k in ("set", "frozenset"):
            return set(v)
        if k == "dict":
            return dict(v)
        return sorted(v) if k == "sorted" else v if isinstance(v, (set, dict)) and k == "copy" else list(v)
    if t.op == "op" and len(t.args) == 3:
        o = t.args[0]
        if o in ("in", "not in"):
            r = small(t.args[1], env) in small(t.args[2], env)
            return r if o == "in" else not r
        a, b = small(t.args[1], env), small(t.args[2], env)
        if o in ("-", "&", "|", "^"):
            if isinstance(a, (list, dict)):
                a = set(a)
            if isinstance(b, (list, dict)):
                b = set(b)
            return a - b if o == "-" else a & b if o == "&" else a | b if o == "|" else a ^ b
        if o == "==":
            return a == b
    if t.op == "not":
        return not small(t.args[0], env)
    if t.op == "op" and t.args[0] == "not":
        return not small(t.args[1], env)
    if t.op in ("call", "pcall") and t.args[0] in (".difference", ".intersection", ".union", ".get") and len(t.args) > 2:
        a, b = small(t.args[1], env), small(t.args[2], env)
        if t.args[0] == ".get":
            return a.get(b)
        a, b = set(a), set(b)
        return a - b if t.args[0] == ".difference" else a & b if t.args[0] == ".intersection" else a | b
    if t.op == "item":
        b, k = small(t.args[0], env), small(t.args[1], env) if not is_const(t.args[1]) else cval(t.args[1])
        try:
            return b[k]
        except KeyError:
            raise NoKey(str(k))
        except (IndexError, TypeError):
            raise Unable
    if t.op == "comp" and len(t.args) > 4 and isinstance(t.args[3], Tok):
        kind, elt, coll, elem, conds = t.args[:5]
        cs = conditions(conds) if isinstance(conds, Tok) else ()
        out = []
        vals = small(coll, env)
        for v in sorted(vals) if isinstance(vals, set) else vals:
            en = dict(env)
            el = canon(elem)
            en[el] = v
            if el.op == "tuple" and isinstance(v, tuple) and len(v) == len(el.args):
                en.update(zip([canon(x) for x in el.args], v))
            if all(small(c, en) for c in cs):
                out.append(small(elt, en))
        return dict(out) if canon(elt).op == "kv" or kind in ("dict", "d", "dc") else set(out) if kind in ("set", "sc") else out
    raise Unable


def chosen(R):
    """Reads at a fixed position of the regions of a set that are taken over as regions."""
    R = canon(R)
    if R.op == "item" and is_const(R.args[1]) and isinstance(cval(R.args[1]), int):
        b = canon(R.args[0])
        if b.op == "attr" and b.args[1] == "regions" or b.op == "lphi" and len(b.args) > 2 and b.args[2] == "regions":
            yield R
    elif R.op == "comp":
        yield from chosen(R.args[1])
    elif R.op in ("list", "copyof"):
        for a in R.args[1:]:
            if isinstance(a, Tok):
                yield from chosen(a)
    elif R.op == "op" and R.args[0] in ("+", "*"):
        for a in R.args[1:]:
            yield from chosen(a)


def region_of(t):
    """Is the token a region taken from a set?"""
    if t.op == "elem":
        return elem_role(t) == "regions"
    if t.op == "item":
        b = canon(t.args[0])
        return b.op == "attr" and b.args[1] == "regions" or "default_region" in b.args
    return False


def number(c, n, row):
    """Truth of a condition when the row has n entries; None when it does not depend on it alone."""
    c = canon(c)
    if c is row or c.op == "nonempty" and canon(c.args[0]) is row:
        return n > 0
    if c.op == "not" or c.op == "op" and c.args[0] == "not":
        v = number(c.args[-1], n, row)
        return None if v is None else not v
    if c.op == "op" and len(c.args) == 3:
        v = []
        for x in c.args[1:]:
            x = canon(x)
            if is_const(x) and isinstance(cval(x), int):
                v.append(cval(x))
            elif length_of(x) is row:
                v.append(n)
            else:
                return None
        return {"<": v[0] < v[1], "<=": v[0] <= v[1], ">": v[0] > v[1], ">=": v[0] >= v[1], "==": v[0] == v[1], "!=": v[0] != v[1],
                "is": v[0] == v[1]}.get(c.args[0])
    return None


def holds(events, n, row):
    """Can the events happen when the row has n entries?"""
    for e in events:
        if e.kind == "cond" and e.recv is not None:
            v = number(e.recv, n, row)
            if v is not None and v != bool(e.name):
                return False
    return True


def selected(ctx):
    f = ctx.prog.func(OS + ".select_by_intersect")
    q = fname(f)
    for o in ctx.run(f, keep_conds=True, policy=policy_for(f)):
        if o.flow != "return":
            continue
        for e in o.events():
            if e.kind != "loop" or e.recv is None:
                continue
            rows = set()
            for b, fl in bodies(e):
                for x, l in flat(b):
                    if x.kind == "cond" and x.recv is not None:
                        for t in [canon(x.recv)] + list(subtoks(canon(x.recv))):
                            if t.op == "elem" and any(is_kernel(y) for y in subtoks(t)):
                                rows.add(t)
            if len(rows) != 1:
                continue
            row = rows.pop()
            ctx.saw("selections", q)
            for n in (0, 1):
                for b, fl in bodies(e):
                    if fl == "raise" or not holds([x for x, l in flat(b)], n, row):
                        continue
                    kept = any(x.kind == "mut" and x.name in ("append", "add", "extend") for x, l in flat(b))
                    ctx.check(kept == bool(n), "selected", q, "an entity met by %d entities of the intersection is %s" % (n, "kept" if kept else "left out"),
                              f.loc(f.node), key=q + ":%d" % n)


def fresh_ids(ctx):
    f = ctx.prog.find_method(ctx.prog.cls(RG), "get")
    q = fname(f)
    order = [a for a in ("dim", "id", "name")]
    for o in ctx.run(f, keep_conds=True, policy=lambda g: "opaque" if not hasattr(g, "deco_is") else None):
        if o.flow != "return":
            continue
        ev = list(o.events())
        new = [e for e in ev if e.kind == "new" and e.name == RG]
        if not new:
            continue
        kw = new[0].kw or {}
        v = kw.get("id")
        if v is None and len(new[0].args) > 1:
            a = [x for x in new[0].args]
            v = a[order.index("id")] if len(a) >= 3 else None
        if v is None:
            continue
        ctx.saw("region ids", q)
        v = canon(v)
        wr = [canon(e.args[0]) for e in ev if e.kind == "write" and isinstance(e.name, str) and "id" in e.name and e.recv.op != "new"]
        if is_const(v):
            ctx.check(any(is_const(w) and cval(w) >= cval(v) or not is_const(w) for w in wr), "ids", q, "the counter of region ids is not advanced",
                      f.loc(f.node), key=q)
            continue
        up = [w for w in wr if w.op in ("op", "aug") and w.args[0] == "+" and any(is_const(canon(x)) and cval(canon(x)) for x in w.args[1:3])]
        if v.op in ("attr", "clsattr", "op", "aug", "call", "pcall") and (v.op not in ("call", "pcall") or v.args[0] == "builtins.next"):
            if v.op in ("call", "pcall"):
                continue
            ctx.check(bool(up), "ids", q, "the counter of region ids is not advanced", f.loc(f.node), key=q)
            if up:
                old = [canon(x) for x in up[-1].args[1:3] if not is_const(canon(x))]
                ctx.check(v is up[-1] or v in old or v.op in ("attr", "clsattr"), "ids", q, "the id given is not the advanced counter", f.loc(f.node),
                          key=q + ":value")


def unique_names(ctx):
    f = ctx.prog.func(GO + "._assign_physical_groups")
    q = fname(f)
    for o in ctx.run(f, keep_conds=True, policy=policy_for(f)):
        if o.flow != "return":
            continue
        for e in o.events():
            if e.kind != "loop" or not any(x.kind == "call" and str(x.name).endswith(".set_unique_name") for b, fl in bodies(e) for x, l in flat(b)):
                continue
            rows = {canon(x.recv) for b, fl in bodies(e) for x, l in flat(b) if x.kind == "cond"}
            rows = {t for r in rows for t in subtoks(r) if t.op in ("val", "elem")}
            if len(rows) != 1:
                continue
            row = rows.pop()
            ctx.saw("names", q)
            for b, fl in bodies(e):
                evs = [x for x, l in flat(b)]
                if fl == "raise" or not holds(evs, 2, row):
                    continue
                ctx.check(any(x.kind == "call" and str(x.name).endswith(".set_unique_name") for x in evs), "names", q,
                          "two regions of the same name keep it", f.loc(f.node), key=q)
                for x in evs:
                    if x.kind == "call" and str(x.name).endswith(".set_unique_name") and len(x.args) > 1:
                        ctx.check(not is_const(canon(x.args[1])), "names", q, "regions of the same name get the same suffix", f.loc(f.node), key=q + ":suffix")


def boundary(ctx):
    f = ctx.prog.func(OS + ".get_boundary_per_region")
    q = fname(f)

    def pol(g):
        return "opaque" if getattr(g, "qual", "") in (OS + ".set_region", OS + ".get_boundary", OS + ".split_by_region") else policy_for(f)(g)
    for o in ctx.run(f, keep_conds=True, policy=pol):
        if o.flow != "return":
            continue
        for e in o.events():
            if e.kind != "loop":
                continue
            for b, fl in bodies(e):
                evs = [x for x, l in flat(b)]
                made = {canon(x.res): x for x in evs if x.kind == "call" and x.res is not None}
                for x in evs:
                    if x.kind != "call" or x.name != OS + ".set_region" or len(x.args) < 2:
                        continue
                    ctx.saw("boundary regions", q)
                    r = canon(x.args[1])
                    c = made.get(r)
                    ctx.check(c is not None or r.op not in ("call", "phi", "lphi", "attr", "param"), "boundary", q,
                              "boundaries of several regions get one region", where(x), key=q + ":own")
                    if c is not None and c.name == RG + ".get":
                        d = (c.kw or {}).get("dim")
                        d = canon(d if d is not None else c.args[2]) if d is not None or len(c.args) > 2 else NONE
                        if d is NONE:
                            continue
                        ok = d.op == "op" and d.args[0] in ("-", "+") and any(is_const(canon(y)) and cval(canon(y)) == (1 if d.args[0] == "-" else -1)
                                                                           for y in d.args[1:]) and any(canon(y).op == "attr" and canon(y).args[1] == "dim"
                                                                                                         for y in d.args[1:])
                        ctx.check(ok or d.op not in ("op", "attr", "const"), "boundary", q, "the region of a boundary is of dimension %s" % show(d)[-30:], where(x),
                                  key=q + ":dim")
