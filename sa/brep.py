"""Model of the BREP writer shared by P14 and P15: traversal (numbering) functions, output functions, sections."""
import ast
import string
from .loader import AnalysisError
from .tok import Tok, T, const
from .rl import canon, flat, bodies

MOD = "bgem.bspline.brep_writer"
# family of classes -> section word of the BREP format
WORDS = ["Locations", "Curve2ds", "Curves", "Polygon3D", "PolygonOnTriangulations", "Surfaces", "Triangulations", "TShapes"]
FAMILY = [("Location", "Locations"), ("Curve2D", "Curve2ds"), ("Curve3D", "Curves"), ("Surface", "Surfaces"), ("Shape", "TShapes")]


class Brep:
    def __init__(self, ctx):
        self.ctx = ctx
        p = ctx.prog
        self.mod = p.mods[MOD] if MOD in p.mods else None
        if self.mod is None:
            raise AnalysisError("module %s not found" % MOD)
        self.index = p.func(MOD + ".Shape.index_all")
        self.write = p.func(MOD + ".write_model")
        self.N = self.numbering_name()
        self.classes = [c for q, c in p.classes.items() if q.startswith(MOD + ".") and p.find_method(c, self.N)]
        self.O = self.output_name()
        self.memo = {}

    def numbering_name(self):
        """Name of the traversal method: called on self with the dict of sections in index_all."""
        f = self.index
        me = f.pos_params()[0]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == me and n.args:
                return n.func.attr
        raise AnalysisError("no traversal call on self in Shape.index_all")

    def output_name(self):
        p = self.ctx.prog
        for c in ("_brep_output",):
            if p.find_method(p.cls(MOD + ".Surface"), c):
                return c
        raise AnalysisError("output method of brep_writer.Surface not found")

    def section_word(self, cls):
        own, _ = self.ctx.prog.mro(cls)
        for c in own:
            for name, w in FAMILY:
                if c.qual == MOD + "." + name:
                    return w
        return None

    # ------------------------------------------------------------------ traversal
    def policy(self, f):
        if f.name in (self.N, "check_matrix", "check_knots", "implicit_surface", "implicit_curve", "_eval_check"):
            return "opaque"
        return None

    def paths(self, f, cls):
        """Normal paths of a traversal function analysed with the class of self."""
        return [o for o in self.ctx.run(f, keep_conds=True, selfcls=cls.qual,
                                        policy=lambda g: None if g is f else self.policy(g)) if o.flow != "raise"]

    def trav(self, cls):
        """Composed normal paths of the traversal of one class: lists of (kind, token, loops, conds, event) with kind
        'reg' (section key token, value), 'visit', 'id' (written value), 'mark'; base calls on self are expanded."""
        key = cls.qual
        if key not in self.memo:
            self.memo[key] = self._trav(self.ctx.prog.find_method(cls, self.N), cls, 0)
        return self.memo[key]

    def _trav(self, f, cls, depth):
        if depth > 6:
            raise AnalysisError("recursive base calls in %s" % f.qual)
        res = []
        me = f.pos_params()[0]
        SELF = T("param", me)
        for o in self.paths(f, cls):
            lists = [[]]

            def walk(evs, loops, conds):
                nonlocal lists
                for e in evs:
                    if e.kind == "cond":
                        conds = conds + ((canon(e.args[0]) if e.args else canon(e.recv), e.name),)
                        for l in lists:
                            l.append(Step("cond", conds[-1][0], loops, conds, e, truth=e.name))
                    elif e.kind == "loop":
                        for l in lists:
                            l.append(Step("loop", canon(e.recv) if e.recv is not None else None, loops, conds, e,
                                          body=[self.body(b, loops + (e,), conds, SELF) for b, fl in bodies(e) if fl != "raise"]))
                    else:
                        for s in self.steps(e, loops, conds, SELF):
                            if s.kind == "base":
                                g = self.ctx.prog.func(s.event.name)
                                sub = [[x.rebase() for x in q] for q in self._trav(g, cls, depth + 1)]
                                lists = [l + q for l in lists for q in sub]
                            else:
                                for l in lists:
                                    l.append(s)
            walk(o.events(), (), ())
            res += lists
        return res

    def body(self, evs, loops, conds, SELF):
        out = []
        for e in evs:
            if e.kind == "cond":
                conds = conds + ((canon(e.args[0]) if e.args else canon(e.recv), e.name),)
                out.append(Step("cond", conds[-1][0], loops, conds, e, truth=e.name))
            elif e.kind == "loop":
                out.append(Step("loop", canon(e.recv) if e.recv is not None else None, loops, conds, e,
                                body=[self.body(b, loops + (e,), conds, SELF) for b, fl in bodies(e) if fl != "raise"]))
            else:
                out += [s for s in self.steps(e, loops, conds, SELF)]
        return out

    def steps(self, e, loops, conds, SELF):
        if e.kind == "call" and e.name.endswith("." + self.N) and e.recv is not None:
            if canon(e.recv) is SELF:
                return [Step("base", SELF, loops, conds, e)]
            return [Step("visit", canon(e.recv), loops, conds, e)]
        from .rl import cont_ops
        out = []
        for op, c, k, v in cont_ops(e):
            c = canon(c)
            if op == "add" and c.op == "item" and c.args[1].op == "const" and k is not None:
                k = canon(k)
                if k is SELF:
                    out.append(Step("reg", c, loops, conds, e))
                elif k.op == "pcall" and "id" in str(k.args[0]) and SELF in k.args:
                    out.append(Step("mark", c, loops, conds, e))
            elif op == "set" and c.op == "item" and k is not None and SELF in (canon(k), ) + tuple(canon(k).args):
                out.append(Step("mark", c, loops, conds, e))
        if e.kind == "write" and e.recv is not None and canon(e.recv) is SELF and e.name == "id":
            out.append(Step("id", e.args[0], loops, conds, e))
        return out


class Step:
    __slots__ = ("kind", "tok", "loops", "conds", "event", "body", "truth", "based")

    def __init__(self, kind, tok, loops, conds, event, body=None, truth=None):
        self.kind, self.tok, self.loops, self.conds, self.event, self.body, self.truth = kind, tok, loops, conds, event, body, truth
        self.based = False

    def rebase(self):
        s = Step(self.kind, self.tok, self.loops, self.conds, self.event, self.body, self.truth)
        s.based = True
        return s


# ---------------------------------------------------------------------- text of an output function
class Loop:
    def __init__(self, coll, paths):
        self.coll, self.paths = coll, paths      # paths: list of (conds, items)

    def __repr__(self):
        return "loop(%s: %s)" % (self.coll, " | ".join(str(i) for c, i in self.paths))


def render(t):
    """Parts of a text value: str, Tok or Loop."""
    if not isinstance(t, Tok):
        return [str(t)]
    if t.op == "const":
        return [str(t.args[0])]
    if t.op == "fstr":
        out = []
        for a in t.args:
            out += render(a)
        return out
    if t.op == "fmt":
        return render(t.args[0])
    if t.op == "pcall":
        n = str(t.args[0])
        if n == ".format" and t.args[1].op == "const":
            return fill(str(t.args[1].args[0]), t.args[2:])
        if n == "builtins.str" and len(t.args) == 2:
            return render(t.args[1])
        if n == ".join" and len(t.args) == 3:
            sep, c = t.args[1], t.args[2]
            if c.op == "comp" and isinstance(c.args[2], Tok):
                return [Loop(canon(c.args[2]), [((), atoms(render(c.args[1]) + [" "]))])]
            if c.op in ("list", "tuple"):
                out = []
                for x in c.args[1:] if c.op == "list" else c.args:
                    out += render(x) + render(sep)
                return out
        return [t]
    if t.op == "op" and t.args[0] == "+" and len(t.args) == 3:
        return render(t.args[1]) + render(t.args[2])
    if t.op == "op" and t.args[0] == "%" and isinstance(t.args[1], Tok) and t.args[1].op == "const":
        args = list(t.args[2].args) if t.args[2].op == "tuple" else [t.args[2]]
        out, s = [], str(t.args[1].args[0])
        i = 0
        while "%" in s and i < len(args):
            a, s = s.split("%", 1)
            s = s.lstrip("0123456789.+-#")[1:]
            out += [a] + render(args[i])
            i += 1
        return out + [s]
    return [t]


def fill(fmt, args):
    out = []
    pos = 0
    named = {a.args[0]: a.args[1] for a in args if isinstance(a, Tok) and a.op in ("kw", "kwarg") and len(a.args) == 2}
    plain = [a for a in args if not (isinstance(a, Tok) and a.op in ("kw", "kwarg"))]
    try:
        parsed = list(string.Formatter().parse(fmt))
    except ValueError:
        return [T("unknown", fmt)]
    for lit, field, spec, conv in parsed:
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            i, pos = pos, pos + 1
            out += render(plain[i]) if i < len(plain) else [T("missing", i)]
        elif field.isdigit():
            out += render(plain[int(field)]) if int(field) < len(plain) else [T("missing", field)]
        else:
            out += render(named[field]) if field in named else [T("missing", field)]
    return out


def atoms(parts):
    """Parts split to words; tokens and loops stay."""
    out = []
    for p in parts:
        if isinstance(p, str):
            out += p.split()
        else:
            out.append(p)
    return out


def texts(events, is_stream):
    """Items (str words, Tok, Loop) written to the stream in order, over one path."""
    parts = []
    for e in events:
        if e.kind == "call" and e.name.endswith(".write") and e.recv is not None and is_stream(e.recv) and e.args:
            parts += render(canon(e.args[0]))
        elif e.kind == "loop":
            ps = []
            for b, fl in bodies(e):
                if fl == "raise":
                    continue
                cs = tuple((canon(x.args[0]) if x.args else canon(x.recv), x.name) for x in b if x.kind == "cond")
                ps.append((cs, texts(b, is_stream)))
            if any(i for c, i in ps):
                parts.append(Loop(canon(e.recv) if e.recv is not None else None, ps))
    return atoms(parts)
