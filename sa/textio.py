"""Symbolic text files: what a writer emits (lines of literal and symbolic words, repetitions) and an abstract evaluation
of a reader on such text.  Nothing of the library is executed: both sides are token traces of the analysed source."""
import ast
import string
from .tok import T, Tok, is_const, cval, subtoks
from .rl import canon, bodies, cont_ops


class W:
    """A symbolic value printed with a format."""
    def __init__(self, tok, spec=""):
        self.tok, self.spec = tok, spec

    def __repr__(self):
        return "W(%r)" % (self.tok,)


class L:
    """Values of a collection printed one after another (sep between them)."""
    def __init__(self, coll, parts, sep):
        self.coll, self.parts, self.sep = coll, parts, sep

    def __repr__(self):
        return "L(%r)" % (self.coll,)


class Line:
    def __init__(self, parts, ev=None):
        self.parts, self.ev = parts, ev

    def lit(self):
        return "".join(self.parts).strip() if all(isinstance(p, str) for p in self.parts) else None

    def __repr__(self):
        return "Line%r" % (self.parts,)


class Rep:
    def __init__(self, coll, alts, ev=None):
        self.coll, self.alts, self.ev = coll, alts, ev

    def __repr__(self):
        return "Rep(%r, %r)" % (self.coll, self.alts)


# ---------------------------------------------------------------- text values
def name_of(t):
    if isinstance(t, Tok) and t.op in ("pcall", "call"):
        return str(t.args[0])
    return ""


def render(t, spec=""):
    if not isinstance(t, Tok):
        return [str(t)]
    o = t.op
    if o == "const":
        v = t.args[0]
        if isinstance(v, str) or not spec:
            return [str(v)]
        try:
            return [format(v, spec)]
        except (ValueError, TypeError):
            return [W(t, spec)]
    if o == "fstr":
        out = []
        for a in t.args:
            out += render(a)
        return out
    if o == "fmt":
        sp = t.args[2] if len(t.args) > 2 else ""
        if isinstance(sp, Tok):
            sp = "".join(x for x in render(sp) if isinstance(x, str))
        return render(t.args[0], sp or "")
    if o == "pcall":
        n = name_of(t)
        a = [x for x in t.args[1:] if not (isinstance(x, Tok) and x.op in ("ver", "v0"))]
        if n == ".format" and is_const(a[0]):
            return fill(str(cval(a[0])), a[1:])
        if n == "builtins.str" and len(a) == 1:
            return render(a[0])
        if n == "builtins.repr" and len(a) == 1:
            return [W(a[0], "r")]
        if n == ".join" and len(a) == 2 and is_const(a[0]):
            sep, c = str(cval(a[0])), a[1]
            while c.op == "copyof":
                c = c.args[1]
            if c.op == "comp" and isinstance(c.args[2], Tok) and len(c.args) > 3:
                if len(c.args) > 4 and isinstance(c.args[4], Tok) and c.args[4].args:
                    return [W(t, "?")]
                pieces = portions(c.args[2])
                if len(pieces) > 1:
                    sp = each_spec(c.args[1], c.args[3])
                    if sp is None:
                        return [W(t, "?")]
                    out = []
                    for i, (kind, x) in enumerate(pieces):
                        out += [sep] if i else []
                        out += [W(x, sp)] if kind == "one" else [L(canon(x), [W(T("elem", canon(x)), sp)], sep)]
                    return out
                return [L(canon(c.args[2]), render(c.args[1]), sep)]
            if name_of(c) == "builtins.map" and len(c.args) >= 3:
                f = c.args[1]
                fn = str(f.args[0]) if f.op == "ext" else ""
                if fn in ("builtins.str", "builtins.repr"):
                    coll = canon(c.args[2])
                    return [L(coll, [W(T("elem", coll), "" if fn.endswith("str") else "r")], sep)]
            if c.op in ("list", "tuple"):
                its = c.args[1:] if c.op == "list" else c.args
                out = []
                for i, x in enumerate(its):
                    out += ([sep] if i else []) + render(x)
                return out
        return [W(t, spec)]
    if o == "op" and t.args[0] == "+" and len(t.args) == 3:
        ps = render(t.args[1]) + render(t.args[2])
        if any(isinstance(p, (str, L)) for p in ps):
            return ps
        return [W(t, spec)]
    if o == "op" and t.args[0] == "%" and isinstance(t.args[1], Tok) and is_const(t.args[1]) and isinstance(cval(t.args[1]), str):
        args = list(t.args[2].args) if t.args[2].op == "tuple" else [t.args[2]]
        out, s, i = [], cval(t.args[1]), 0
        while "%" in s:
            a, s = s.split("%", 1)
            if s.startswith("%"):
                out.append(a + "%")
                s = s[1:]
                continue
            k = 0
            while k < len(s) and s[k] in "0123456789.+-# ":
                k += 1
            sp = s[:k + 1]
            s = s[k + 1:]
            if i >= len(args):
                return [W(t, "?")]
            out += ([a] if a else []) + render(args[i], "" if sp == "s" else sp)
            i += 1
        return out + ([s] if s else [])
    return [W(t, spec)]


def portions(c):
    """A list built of pieces: ('one', item) and ('all', collection)."""
    while c.op == "copyof" and c.args[0] in ("builtins.list", "builtins.tuple"):
        c = c.args[1]
    if c.op == "op" and c.args[0] == "+" and len(c.args) == 3:
        return portions(c.args[1]) + portions(c.args[2])
    if c.op == "list":
        return [("one", x) for x in c.args[1:]]
    if c.op == "tuple":
        return [("one", x) for x in c.args]
    return [("all", c)]


def each_spec(body, elem):
    """Format applied to each element, None when the text is not simply the element."""
    r = render(body)
    if len(r) == 1 and isinstance(r[0], W) and (r[0].tok is elem or r[0].tok.op == "elem"):
        return r[0].spec
    return None


def fill(fmt, args):
    out, pos = [], 0
    named = {a.args[0]: a.args[1] for a in args if isinstance(a, Tok) and a.op in ("kw", "kwarg") and len(a.args) == 2}
    plain = [a for a in args if not (isinstance(a, Tok) and a.op in ("kw", "kwarg"))]
    try:
        parsed = list(string.Formatter().parse(fmt))
    except ValueError:
        return [W(T("unknown", fmt), "?")]
    for lit, field, spec, conv in parsed:
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            field = str(pos)
            pos += 1
        if field.isdigit() and int(field) < len(plain):
            out += render(plain[int(field)], spec or "")
        elif field in named:
            out += render(named[field], spec or "")
        else:
            out.append(W(T("unknown", field), "?"))
    return out


def emitted(e, is_stream):
    """Parts written by the event, None if it does not write."""
    if e.kind == "call" and e.name.endswith(".write") and e.recv is not None and is_stream(e.recv) and e.args:
        return render(e.args[0])
    if e.kind == "call" and e.name == "builtins.print" and e.kw and "file" in e.kw and is_stream(e.kw["file"]):
        sep = e.kw.get("sep")
        end = e.kw.get("end")
        sep = " " if sep is None or not is_const(sep) or cval(sep) is None else str(cval(sep))
        end = "\n" if end is None or not is_const(end) or cval(end) is None else str(cval(end))
        out = []
        for i, a in enumerate(e.args):
            out += ([sep] if i and sep else []) + render(a)
        return out + [end]
    return None


class Unknown(Exception):
    pass


def script(events, is_stream):
    """Lines and repetitions written along one path."""
    out = []
    cur = []

    def push(parts, ev):
        nonlocal cur
        for p in parts:
            if not isinstance(p, str):
                cur.append(p)
                continue
            while "\n" in p:
                a, p = p.split("\n", 1)
                if a:
                    cur.append(a)
                out.append(Line(cur, ev))
                cur = []
            if p:
                cur.append(p)
    for e in events:
        if e.kind == "loop":
            alts = []
            for b, fl in bodies(e):
                if fl == "raise":
                    continue
                alts.append(script(b, is_stream))
            if not any(a or r for a, r in alts):
                continue
            if all(not a for a, r in alts) and len({str(r) for a, r in alts}) == 1:
                # values written on one line
                r = alts[0][1]
                sep = r[-1] if len(r) > 1 and isinstance(r[-1], str) and not r[-1].strip() else ""
                cur.append(L(canon(e.recv), r[:-1] if sep else r, sep or " "))
                continue
            if cur or any(r for a, r in alts):
                raise Unknown("a line is composed across a loop")
            out.append(Rep(canon(e.recv) if e.recv is not None else None, [a for a, r in alts], e))
        else:
            ps = emitted(e, is_stream)
            if ps is not None:
                push(ps, e)
    return out, cur


# ---------------------------------------------------------------- abstract values of the reader
# ('s', parts)  text;  ('w', items) words;  ('c', v) constant;  ('int'|'float'|'str', W or const) converted word
# ('n', const, (coll,..)) count;  ('cat', items) list;  ('map', conv, L);  ('t', token) anything else;  ('unbound', name)
def parts_strip(parts, chars=None):
    parts = list(parts)
    while parts and isinstance(parts[0], str):
        p = parts[0].lstrip(chars)
        if p:
            parts[0] = p
            break
        parts.pop(0)
    while parts and isinstance(parts[-1], str):
        p = parts[-1].rstrip(chars)
        if p:
            parts[-1] = p
            break
        parts.pop()
    return parts


def words(parts, maxsplit=-1, free=lambda w: False):
    """Words of a text: items are part lists, L (several words) or ('free', W) (text with spaces)."""
    parts = parts_strip(parts)
    out, cur = [], []
    parts = list(parts)
    while parts:
        p = parts.pop(0)
        if maxsplit >= 0 and len(out) >= maxsplit:
            rest = parts_strip(cur + [p] + parts)
            if rest:
                out.append(rest)
            return out
        if isinstance(p, str):
            i = 0
            while i < len(p) and not p[i].isspace():
                i += 1
            if i:
                cur.append(p[:i])
            if i < len(p):
                if cur:
                    out.append(cur)
                    cur = []
                rest = p[i:].lstrip()
                if rest:
                    parts.insert(0, rest)
        elif isinstance(p, L):
            if not p.sep.isspace():
                cur.append(W(T("joined", p.coll), "?"))
            else:
                if cur:
                    # glued to the previous word
                    return out + [("free", None)]
                out.append(p)
                nxt = parts[0] if parts else " "
                if not (isinstance(nxt, str) and nxt[:1].isspace()):
                    return out + [("free", None)]
        elif free(p):
            out.append(("free", p))
        else:
            cur.append(p)
    if cur:
        out.append(cur)
    return out


class Reader:
    """Abstract run of a reader over a script."""
    def __init__(self, limits, free, is_stream, equal=None, normcoll=None, cols=None, budget=400000):
        self.limits = limits        # L.coll -> (min, max) number of values
        self.free = free
        self.is_stream = is_stream
        self.equal = equal or (lambda a, b: None)
        self.budget = budget
        self.normcoll = normcoll or (lambda c: c)
        self.cols = cols or (lambda t: None)
        self.inside = {}

    # -------------------------------------------------- evaluation
    def ev(self, t, env):
        if not isinstance(t, Tok):
            return ("c", t)
        if t in env:
            return env[t]
        c = canon(t)
        if c in env:
            return env[c]
        memo = env.setdefault("#memo", {})
        if t in memo:
            return memo[t]
        r = self.ev1(t, env)
        memo[t] = r
        return r

    def ev1(self, t, env):
        o = t.op
        ev = lambda x: self.ev(x, env)
        if o == "const":
            return ("c", cval(t))
        if o == "lphi":
            if len(t.args) > 1 and isinstance(t.args[1], Tok) and t.args[1].op != "v0":
                return ev(t.args[1])
            return ("unbound", str(t.args[2]))
        if o == "copyof":
            return ev(t.args[1])
        if o in ("tuple", "list"):
            return ("cat", [ev(x) for x in (t.args[1:] if o == "list" else t.args)])
        if o == "slice":
            return ("slice", [ev(x) for x in t.args])
        if o == "elem":
            if self.is_stream(t.args[0]) and "#line" in env:
                return env["#line"]
            v = ev(t.args[0])
            if v[0] == "w":
                return ("each", v)
            return ("t", t)
        if o == "comp" and isinstance(t.args[2], Tok) and len(t.args) > 3:
            if len(t.args) > 4 and isinstance(t.args[4], Tok) and t.args[4].args:
                return ("t", t)
            coll = ev(t.args[2])
            if coll[0] == "bad":
                return coll
            if coll[0] != "w":
                return ("t", t)
            body = t.args[1]
            conv = name_of(body)
            if conv == "builtins.int" and len(body.args) == 2 and name_of(body.args[1]) == "builtins.float" and \
                    self.is_elem(body.args[1].args[1], t):
                return ("cat", [self.convert("builtins.int of float", x) for x in coll[1]])
            if body is t.args[3]:
                conv = "builtins.str"
            elif not (conv in ("builtins.int", "builtins.float", "builtins.str") and len(body.args) == 2 and
                      self.is_elem(body.args[1], t)):
                return ("t", t)
            return ("cat", [self.convert(conv, x) for x in coll[1]])
        if o == "item":
            return self.item(ev(t.args[0]), ev(t.args[1]), t)
        if o == "op":
            return self.op(t, env)
        if o in ("pcall", "call"):
            n = name_of(t)
            a = [x for x in t.args[1:] if not (isinstance(x, Tok) and x.op in ("ver", "v0", "uid"))]
            if n in (".strip", ".rstrip", ".lstrip") and a:
                v = ev(a[0])
                if v[0] == "s":
                    ch = ev(a[1]) if len(a) > 1 else ("c", None)
                    if ch[0] == "c":
                        ps = parts_strip(v[1], ch[1])
                        return ("s", ps if n == ".strip" else ps)
            if n == ".split" and a:
                v = ev(a[0])
                sp = ev(a[1]) if len(a) > 1 else ("c", None)
                mx = ev(a[2]) if len(a) > 2 else ("c", -1)
                for x in a[1:]:
                    if x.op == "kw" and x.args[0] == "maxsplit":
                        mx = ev(x.args[1])
                        sp = ("c", None) if x is a[1] else sp
                if v[0] == "s" and sp[0] == "c" and sp[1] in (None, " ") and mx[0] == "c":
                    return ("w", self.expand(words(v[1], mx[1], self.free)))
            if n == ".startswith" and len(a) == 2:
                v, p = ev(a[0]), ev(a[1])
                if v[0] == "s" and p[0] == "c" and isinstance(p[1], (str, tuple)):
                    if not v[1]:
                        return ("c", "".startswith(p[1]))
                    if isinstance(v[1][0], str):
                        return ("c", v[1][0].startswith(p[1]))
                    return ("c", False)
            if n in ("builtins.int", "builtins.float", "builtins.str") and len(a) == 1:
                v = ev(a[0])
                if v[0] == "c":
                    try:
                        return ("c", {"int": int, "float": float, "str": str}[n[9:]](v[1]))
                    except (ValueError, TypeError):
                        return ("bad", "%s of %r" % (n[9:], v[1]))
                if v[0] == "s":
                    ws = words(v[1], -1, self.free) if n != "builtins.str" else None
                    if ws is not None and len(ws) == 1 and isinstance(ws[0], list):
                        return self.convert(n, ws[0])
                    return self.convert(n, v[1])
                if v[0] == "each":
                    return ("t", t)
                if n == "builtins.int" and v[0] in ("int", "n"):
                    return v
                if v[0] in ("int", "float"):
                    if n == "builtins.str":
                        return ("s", [v[1]])
                    return ("int of float" if n[9:] + v[0] == "intfloat" else n[9:], v[1])
            if n == "builtins.len" and a:
                return self.length(ev(a[0]), t)
            if n == "builtins.map" and len(a) == 2 and a[0].op == "ext":
                v = ev(a[1])
                if v[0] == "w" and str(a[0].args[0]) in ("builtins.int", "builtins.float", "builtins.str"):
                    return ("cat", [self.convert(str(a[0].args[0]), x) for x in v[1]])
            if n == ".get" and len(a) >= 2 and a[0].op == "dict":
                k = ev(a[1])
                s = self.text(k)
                if s is not None:
                    for kv in a[0].args:
                        if isinstance(kv, Tok) and kv.op == "kv" and is_const(kv.args[0]) and cval(kv.args[0]) == s:
                            return ev(kv.args[1])
                    return ev(a[2]) if len(a) > 2 else ("c", None)
            return ("t", t)
        return ("t", t)

    def expand(self, items):
        """Lists of known length become single words."""
        out = []
        for x in items:
            if isinstance(x, L) and len(x.parts) == 1 and isinstance(x.parts[0], W):
                lo, hi = self.limits(x.coll)
                if lo == hi:
                    out += [[W(T("item", x.coll, T("const", i)), x.parts[0].spec)] for i in range(lo)]
                    continue
            out.append(x)
        return out

    def is_elem(self, x, comp):
        return x is comp.args[3] or x.op == "elem" and canon(x.args[0]) is canon(comp.args[2])

    @staticmethod
    def text(v):
        if v[0] == "c":
            return v[1]
        if v[0] == "s" and all(isinstance(p, str) for p in v[1]):
            return "".join(v[1])
        return None

    def convert(self, conv, x):
        """Conversion of one word (a list of parts, an L)."""
        conv = conv[9:]
        if isinstance(x, L):
            if len(x.parts) == 1 and isinstance(x.parts[0], W):
                return ("map", conv, x)
            return ("t", T("list"))
        if isinstance(x, tuple):
            return ("bad", "%s of a part of a text" % conv)
        if conv == "str":
            return ("s", x)
        if all(isinstance(p, str) for p in x):
            try:
                return ("c", {"int": int, "float": float, "int of float": lambda y: int(float(y))}[conv]("".join(x)))
            except ValueError:
                return ("bad", "%s of '%s'" % (conv, "".join(x)))
        if len(x) == 1:
            return (conv, x[0])
        return ("bad", "%s of a word composed of several values" % conv)

    # positions: (const, sorted tuple of collections)
    def pos(self, v):
        if v[0] == "c" and isinstance(v[1], int):
            return (v[1], ())
        if v[0] == "n":
            return (v[1], v[2])
        if v[0] == "int" and isinstance(v[1], W):
            t = v[1].tok
            if t.op == "op" and t.args[0] == "len" or name_of(t) == "builtins.len":
                return (0, (self.normcoll(canon(t.args[1])),))
            c = self.cols(t)
            if c is not None:
                return (0, (c,))
        return None

    @staticmethod
    def padd(a, b, s=1):
        if s == 1:
            return (a[0] + b[0], tuple(sorted(a[1] + b[1], key=lambda x: x.h)))
        rest = list(a[1])
        for x in b[1]:
            if x not in rest:
                return None
            rest.remove(x)
        return (a[0] - b[0], tuple(rest))

    def span(self, x):
        if isinstance(x, L) or x[0] == "map" and isinstance(x, tuple):
            l = x if isinstance(x, L) else x[2]
            return (0, (self.normcoll(l.coll),))
        if isinstance(x, tuple) and x[0] == "free":
            return None
        return (1, ())

    def length(self, v, t):
        if v[0] == "bad":
            return v
        if v[0] in ("w", "cat"):
            p = (0, ())
            for x in v[1]:
                s = self.span(x)
                if s is None:
                    return ("n?", p[0])
                p = self.padd(p, s)
            return ("n",) + p
        return ("t", t)

    def cuts(self, items):
        out = [(0, ())]
        for x in items:
            s = self.span(x)
            if s is None:
                break
            out.append(self.padd(out[-1], s))
        return out

    def item(self, v, k, t):
        if v[0] == "bad":
            return v
        if v[0] not in ("w", "cat"):
            return ("t", t)
        items = v[1]
        if k[0] == "slice":
            a, b = k[1][0], k[1][1]
            if len(k[1]) > 2 and k[1][2] != ("c", None):
                return ("t", t)
            cs = self.cuts(items)
            full = len(cs) == len(items) + 1
            ia = 0 if a == ("c", None) else None
            ib = len(items) if b == ("c", None) else None
            if ia is None:
                p = self.pos(a)
                if p is None:
                    return ("t", t)
                ia = self.cut(p, cs, full)
            if ib is None:
                p = self.pos(b)
                if p is None:
                    return ("t", t)
                ib = self.cut(p, cs, full)
            if ia is None or ib is None:
                return ("bad", "part of a record which does not match its fields")
            return (v[0], items[ia:ib])
        p = self.pos(k)
        if p is None:
            return ("t", t)
        cs = self.cuts(items)
        if p[0] < 0 and not p[1]:
            i = len(items) + p[0]
            if any(self.span(x) != (1, ()) for x in items[max(i, 0):]) or i < 0:
                return ("bad", "item of a record which does not match its fields")
        else:
            if p not in cs or cs.index(p) >= len(items):
                return ("bad", "item of a record which does not match its fields")
            # several cuts are equal only for empty spans
            i = cs.index(p)
        x = items[i]
        if isinstance(x, L):
            it = T("item", x.coll, T("const", 0))
            if len(x.parts) == 1 and isinstance(x.parts[0], W):
                return ("s", [W(it, x.parts[0].spec)])
            return ("t", t)
        if isinstance(x, tuple) and x[0] == "free":
            return ("bad", "a word of a text with spaces")
        if v[0] == "w":
            return ("s", x)
        return x

    @staticmethod
    def cut(p, cs, full):
        if p in cs:
            return cs.index(p)
        if p[0] < 0 and not p[1] and full:
            # from the end: only over single words
            n = len(cs) - 1 + p[0]
            if n >= 0 and all(cs[i + 1][1] == cs[i][1] for i in range(n, len(cs) - 1)):
                return n
        return None

    def rng(self, v):
        """(min, max) of a number."""
        if v[0] == "c" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
            return (v[1], v[1])
        if v[0] == "n?":
            return (v[1], None)
        if v[0] == "n":
            lo, hi = v[1], v[1]
            for c in v[2]:
                a, b = self.limits(c)
                lo += a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        return None

    def op(self, t, env):
        a = t.args
        ev = lambda x: self.ev(x, env)
        if a[0] == "len":
            return self.length(ev(a[1]), t)
        if a[0] in ("+", "-") and len(a) == 3:
            x, y = ev(a[1]), ev(a[2])
            if x[0] == "c" and y[0] == "c":
                try:
                    return ("c", x[1] + y[1] if a[0] == "+" else x[1] - y[1])
                except TypeError:
                    return ("t", t)
            p, q = self.pos(x), self.pos(y)
            if p is not None and q is not None:
                r = self.padd(p, q, 1 if a[0] == "+" else -1)
                if r is not None:
                    return ("n",) + r
            return ("t", t)
        if a[0] == "not":
            v = self.truth(ev(a[1]))
            return ("c", not v) if isinstance(v, bool) else ("t", t)
        if a[0] in ("==", "!=", "<", "<=", ">", ">=", "is", "is not") and len(a) == 3:
            x, y = ev(a[1]), ev(a[2])
            r = self.compare(a[0], x, y)
            return ("c", r) if isinstance(r, bool) else ("both",) if r == "both" else ("t", t)
        if a[0] in ("in", "not in") and len(a) == 3:
            x, y = ev(a[1]), a[2]
            s = self.text(x)
            if x[0] == "s" and s is None and isinstance(x[1][0], W):
                s = "\0"
            y = self.ev(y, env)
            vals = None
            if y[0] == "c" and isinstance(y[1], (tuple, list, set, frozenset, dict)):
                vals = list(y[1])
            elif y[0] == "cat" and all(v[0] == "c" for v in y[1]):
                vals = [v[1] for v in y[1]]
            if vals is not None and s is not None:
                return ("c", (s in vals) == (a[0] == "in"))
            if y[0] == "t" and vals is None:
                # a key not seen before
                return ("c", a[0] == "not in")
        return ("t", t)

    def compare(self, o, x, y):
        for p, q in ((x, y), (y, x)):
            if p[0] == "unbound" or p[0] == "bad":
                return "bad"
        sx, sy = self.text(x), self.text(y)
        if sx is not None and sy is not None and isinstance(sx, str) == isinstance(sy, str):
            try:
                return {"==": sx == sy, "!=": sx != sy, "is": sx is sy or sx == sy, "is not": sx != sy}[o] if o in (
                    "==", "!=", "is", "is not") else {"<": sx < sy, "<=": sx <= sy, ">": sx > sy, ">=": sx >= sy}[o]
            except TypeError:
                return None
        if sx is not None and sy is not None:
            return {"==": False, "!=": True, "is": False, "is not": True}.get(o)
        for p, q in ((x, y), (y, x)):
            if p[0] == "s" and q[0] == "c" and isinstance(q[1], str) and o in ("==", "!="):
                first = p[1][0]
                if isinstance(first, str) and q[1] and not first.startswith(q[1][:1]) or not isinstance(first, str):
                    return o == "!="
                return None
        rx, ry = self.rng(x), self.rng(y)
        if rx and ry:
            if rx[0] == rx[1] and ry[0] == ry[1]:
                a, b = rx[0], ry[0]
                return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}.get(o)
            if x[0] == y[0] == "n" and x[1:] == y[1:]:
                return {"==": True, "!=": False, "<": False, ">": False, "<=": True, ">=": True}.get(o)
            lt = rx[1] is not None and rx[1] < ry[0]
            le = rx[1] is not None and rx[1] <= ry[0]
            gt = ry[1] is not None and rx[0] > ry[1]
            ge = ry[1] is not None and rx[0] >= ry[1]
            yes = {"==": False, "!=": lt or gt, "<": lt, "<=": le, ">": gt, ">=": ge}.get(o)
            no = {"==": lt or gt, "!=": False, "<": ge, "<=": gt, ">": le, ">=": lt}.get(o)
            return True if yes else False if no else "both"
        px, py = self.pos(x), self.pos(y)
        if px is not None and py is not None and px[1] == py[1] and o in ("==", "!="):
            return (px[0] == py[0]) == (o == "==")
        if o in ("==", "!="):
            r = self.equal(x, y)
            if r is not None:
                return r if o == "==" else not r
        return None

    def truth(self, v):
        if v[0] == "c":
            return bool(v[1])
        if v[0] == "s":
            return bool(v[1])
        if v[0] in ("unbound", "bad"):
            return "bad"
        if v[0] == "both":
            return "both"
        if v[0] in ("w", "cat"):
            r = self.length(v, None)
            r = self.rng(r) if r[0] in ("n", "n?") else None
            if r:
                return True if r[0] > 0 else "both"
        return None

    # -------------------------------------------------- simulation
    def run(self, events, scr):
        """All abstract runs: list of Run."""
        start = Run(tuple(scr))
        return self.events(list(events), 0, [start])

    def tickets(self):
        self.budget -= 1
        if self.budget < 0:
            raise Unknown("the reader has too many paths")

    def events(self, evs, depth, runs):
        for i, e in enumerate(evs):
            nxt = []
            tail = e.kind == "loop" and self.has_tail(e, evs[i + 1:])
            for r in runs:
                nxt += [r] if r.dead else self.loop(e, r, depth, tail) if e.kind == "loop" else self.event(e, r, depth)
            runs = nxt
            if not runs:
                break
            if len(runs) > 60:
                raise Unknown("too many paths of the reader")
        return runs

    def event(self, e, r, depth):
        self.tickets()
        if e.kind == "cond":
            t = e.recv if e.recv is not None else e.args[0] if e.args else None
            if t is None:
                return [r]
            v = self.truth(self.ev(t, r.env))
            want = e.name if isinstance(e.name, bool) else str(e.name) == "True"
            if v == "bad":
                r = r.copy()
                r.fail("value needed for a decision is %s" % (self.ev(t, r.env),), e)
                return [r]
            if isinstance(v, bool):
                return [r] if v == want else []
            r = r.copy()
            if v is None and any(x in r.env for x in subtoks(t)):
                r.unsure.append(t)
            return [r]
        if e.kind == "except":
            return []
        if e.kind == "call" and e.name.endswith(".readline") and e.recv is not None and self.is_stream(e.recv):
            r = r.copy()
            r.read(e.res, e)
            return [r]
        if e.kind == "carry":
            r = r.copy()
            new = {}
            for i in range(0, len(e.args), 2):
                new[e.args[i]] = self.ev(e.args[i + 1], r.env)
            r.env.update(new)
            r.env.pop("#memo", None)
            return [r]
        out = r
        for op, cont, k, v in cont_ops(e):
            if op == "set":
                if out is r:
                    out = r.copy()
                out.stores.append((canon(cont), self.ev(k, r.env), self.ev(v, r.env) if v is not None else None, e))
        return [out]

    def has_tail(self, e, rest):
        """The path leaves the loop from inside of its body; the events of the last pass follow the loop."""
        ids = self.inside.get(id(e.node))
        if ids is None:
            ids = self.inside[id(e.node)] = {id(n) for s in e.node.body for n in ast.walk(s)}
        return any(x.node is not None and id(x.node) in ids for x in rest if x.kind != "loop")

    def loop(self, e, r, depth, tail=False):
        coll = e.recv
        inner = [b for b in bodies(e)]
        reads = any(self.reads(b) for b, fl in inner)
        stream = coll is not None and self.is_stream(coll)
        if stream:
            coll = None

        def adv(q, d2):
            if stream:
                q = q.copy()
                q.read(None, e)
            return self.iterate(inner, q, depth, d2)
        if stream and not r.rest:
            return [r]
        if not reads and not stream:
            return [r]
        if coll is not None:
            n = self.count_of(coll, r.env)
            item = r.rest[0] if r.rest else None
            if not isinstance(item, Rep):
                r = r.copy()
                r.fail("rows are read where the file has none", e)
                return [r]
            if n is not None:
                r = r.copy()
                r.counts.append((n, item, e))
            out = []
            if tail:
                for alt in item.alts:
                    x = r.copy()
                    x.rest = tuple(alt) + x.rest[1:]
                    out.append(x)
                return out
            for alt in item.alts:
                x = r.copy()
                rest = x.rest[1:]
                x.rest = tuple(alt)
                done = []
                res = self.iterate(inner, x, depth, done)
                for y in res + done:
                    if y.rest and not y.dead:
                        y.fail("a row is not read completely", e)
                    y.rest = rest
                    out.append(y)
            if not out:
                r = r.copy()
                r.fail("the rows are rejected", e)
                out = [r]
            return out
        # while loop over lines
        runs, done = [r], []
        guard = 0
        while runs:
            guard += 1
            if guard > 200:
                raise Unknown("the reader does not advance")
            nxt = []
            for x in runs:
                if tail:
                    done.append(x.copy())
                if not x.rest and (x.eof or stream):
                    if not tail:
                        done.append(x)
                    continue
                if x.rest and isinstance(x.rest[0], Rep):
                    # one or more records: the state after them has to be stable, two rounds are run
                    head, after = x.rest[0], x.rest[1:]
                    cur = [x]
                    for rnd in range(2):
                        cur2 = []
                        for y in cur:
                            for alt in head.alts:
                                z = y.copy()
                                z.rest = tuple(alt) + ("|",)
                                part = [z]
                                g2 = 0
                                while part:
                                    g2 += 1
                                    if g2 > 60:
                                        raise Unknown("the reader does not advance")
                                    p2 = []
                                    for q in part:
                                        if q.rest[:1] == ("|",) or not q.rest:
                                            cur2.append(q)
                                            continue
                                        d2 = []
                                        step = adv(q, d2)
                                        if not step and not d2:
                                            q = q.copy()
                                            q.fail("no path of the reader accepts the line", e)
                                            q.rest = ("|",)
                                            step = [q]
                                        p2 += step
                                        for w in d2:
                                            if w.dead:
                                                done.append(w)
                                    part = p2
                                    if len(part) > 60:
                                        raise Unknown("too many paths of the reader")
                        cur = cur2
                    for y in cur:
                        y.rest = after
                        nxt.append(y)
                    continue
                d2 = []
                step = adv(x, d2)
                if not step and not d2 and not tail:
                    done.append(x)
                nxt += step
                done += [y for y in d2 if y.dead]
            runs = nxt
            if len(runs) > 60:
                raise Unknown("too many paths of the reader")
        return done

    def reads(self, evs):
        for e in evs:
            if e.kind == "call" and e.name.endswith(".readline"):
                return True
            if e.kind == "loop" and any(self.reads(b) for b, fl in bodies(e)):
                return True
        return False

    def count_of(self, coll, env):
        c = coll
        if name_of(c) == "builtins.range" or c.op == "range":
            a = [x for x in c.args if isinstance(x, Tok) and x.op not in ("ver", "v0", "uid")]
            if len(a) == 1:
                return self.ev(a[0], env)
        return None

    def iterate(self, inner, r, depth, done):
        out = []
        base = dict(r.env)
        for b, fl in inner:
            if fl == "raise" and not any(y.kind == "raise" for y in b):
                continue
            x = r.copy()
            x.env = dict(base)
            res = self.events(list(b), depth + 1, [x])
            for y in res:
                if fl in ("next", "continue") or y.dead:
                    out.append(y)
                elif fl == "raise":
                    y.fail("the reader raises an error", b[-1] if b else None)
                    y.dead = True
                    done.append(y)
                else:
                    done.append(y)
        return self.merge(out)

    def merge(self, runs):
        seen, out = set(), []
        for r in runs:
            k = r.key()
            if k not in seen:
                seen.add(k)
                out.append(r)
        return out


class Run:
    def __init__(self, rest):
        self.rest = rest
        self.env = {}
        self.stores = []
        self.counts = []
        self.unsure = []
        self.fails = []
        self.eof = False
        self.dead = False       # stopped by an exception

    def copy(self):
        r = Run(self.rest)
        r.env = dict(self.env)
        r.stores = list(self.stores)
        r.counts = list(self.counts)
        r.unsure = list(self.unsure)
        r.fails = list(self.fails)
        r.eof = self.eof
        r.dead = self.dead
        return r

    def key(self):
        return (str(self.rest), str(sorted((str(k), str(v)) for k, v in self.env.items() if k != "#memo")),
                str([(str(a), str(b), str(c)) for a, b, c, e in self.stores]), str(self.fails), len(self.unsure), len(self.counts), self.eof)

    def fail(self, text, e):
        self.fails.append((text, e.loc() if e is not None and e.func is not None else ""))

    def read(self, res, e):
        line = None
        if not self.rest or self.rest[0] == "|":
            if self.rest:
                self.fail("more lines are read than a record has", e)
            self.eof = True
            val = ("s", [])
        else:
            line = self.rest[0]
            if isinstance(line, Rep):
                self.fail("a row is read as part of the header", e)
                first = line.alts[0][0] if line.alts and line.alts[0] else None
                val = ("s", list(first.parts)) if isinstance(first, Line) else ("t", T("list"))
            else:
                val = ("s", list(line.parts) + ["\n"])
                self.rest = self.rest[1:]
        if isinstance(res, Tok):
            self.env[res] = val
            self.env[canon(res)] = val
        else:
            self.env["#line"] = val
        self.env.pop("#memo", None)
