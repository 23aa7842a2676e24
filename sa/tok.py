"""Hash-consed value tokens (symbolic names of values, global value numbering)."""


class Tok:
    __slots__ = ("op", "args", "h")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.h = hash((op, args))

    def __hash__(self):
        return self.h

    # identity equality: tokens are interned
    def __repr__(self):
        return show(self)


_table = {}


def T(op, *args):
    # constants of different type must differ (1 == True == 1.0)
    key = (op, tuple((type(a).__name__, a) if not isinstance(a, Tok) else a for a in args))
    t = _table.get(key)
    if t is None:
        t = Tok(op, args)
        _table[key] = t
    return t


NONE = T("const", None)
TRUE = T("const", True)
FALSE = T("const", False)


def const(v):
    return T("const", v)


def is_const(t):
    return isinstance(t, Tok) and t.op == "const"


def cval(t):
    return t.args[0]


def subtoks(t, seen=None):
    """All tokens inside (including t)."""
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if not isinstance(x, Tok) or x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(a for a in x.args if isinstance(a, Tok))


def show(t, depth=0):
    if not isinstance(t, Tok):
        return str(t)
    if depth > 6:
        return "..."
    s = lambda x: show(x, depth + 1)
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0])
    if o == "param":
        return str(a[0])
    if o == "attr":
        return "%s.%s%s" % (s(a[0]), a[1], "'" if len(a) > 2 and a[2] else "")
    if o == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "new":
        return "new %s" % str(a[0]).split(".")[-1]
    if o in ("call", "pcall"):
        return "%s(%s)" % (str(a[0]).split(".")[-1], ", ".join(s(x) for x in a[1:] if isinstance(x, Tok)))
    if o == "op":
        if len(a) == 3:
            return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if o == "tuple":
        return "(%s)" % ", ".join(s(x) for x in a)
    if o == "list":
        return "[%s]" % ", ".join(s(x) for x in a[1:])
    if o in ("elem", "key", "val"):
        return "%s-of %s" % (o, s(a[0]))
    if o in ("func", "cls", "ext", "mod"):
        return str(a[0]).split(".")[-1]
    if o == "bound":
        return "%s.%s" % (s(a[0]), str(a[1]).split(".")[-1])
    if o == "kw":
        return "%s=%s" % (a[0], s(a[1]))
    if o in ("phi", "lphi"):
        return "%s<%s>" % (o, a[-1])
    return "%s<%s>" % (o, ", ".join(s(x) for x in a if isinstance(x, Tok)))
