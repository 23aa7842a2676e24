"""P29: results are deterministic."""
import ast
from ..types import NUM, STR

LEVEL = "other"
TECHNIQUE = "interprocedural taint analysis of run-dependent values and of the iteration order of hash containers"
EXPLANATION = ("Sources: calls of clocks, random numbers, process and environment queries, directory listings, memory addresses (id, "
               "default hash and default repr) and uninitialised arrays; and every place that consumes a set in its iteration order "
               "when the hash of its possible elements is not a function of the inputs (texts, objects hashed by address; found by "
               "type inference and by the __hash__ of the element classes). A source is followed through variables, parameters, "
               "returns, attributes and containers of the whole package; it may only reach membership and equality tests, keys "
               "of containers never enumerated and diagnostic output.")

SOURCES = ("random.", "numpy.random.", "time.", "datetime.", "uuid.", "secrets.", "os.urandom", "os.getpid", "os.getppid",
           "os.environ", "os.getenv", "os.getlogin", "os.times", "os.cpu_count", "os.stat", "tempfile.", "platform.", "socket.", "getpass.",
           "threading.get_ident", "threading.current_thread", "multiprocessing.current_process", "object.__repr__", "sys.getsizeof")
LISTING = ("os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob")
HARMLESS = ("time.sleep", "tempfile.gettempdir", "random.seed", "numpy.random.seed")
CONCURRENT = ("concurrent.futures.as_completed", "multiprocessing.Pool.imap_unordered")
LOGGING = ("print", "builtins.print", "logging.", "warnings.", "sys.stderr.")
ORDERLESS = {"sorted", "set", "frozenset", "len", "any", "all", "min", "max", "isinstance", "bool", "repr", "print", "type", "id", "hash"}
MEMBER = {"add", "discard", "remove", "get", "pop", "setdefault", "__contains__", "index", "count", "issubset", "issuperset", "isdisjoint",
          "update", "union", "intersection", "difference", "symmetric_difference", "intersection_update", "difference_update",
          "symmetric_difference_update", "clear", "copy"}


class Prog:
    """Syntax context of the program: parents, enclosing functions, uses of names."""

    def __init__(self, ctx):
        self.prog, self.T = ctx.prog, ctx.types
        self.own = ctx.own
        self.parent, self.addr_hash = {}, set()
        for m in self.prog.mods.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    self.parent[c] = n
        self.func_of = {f.node: f for f in self.prog.funcs.values()}
        self.mod_of = {}
        for m in self.prog.mods.values():
            for n in ast.walk(m.tree):
                self.mod_of[n] = m
        self.attr_loads, self.callers = {}, {}
        for m in self.prog.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.attr_loads.setdefault(n.attr, []).append(n)
        for c, qs in self.T.callees.items():
            for q in qs:
                self.callers.setdefault(q if isinstance(q, str) else q.qual, []).append(c)

    def enclosing(self, node):
        n = self.parent.get(node)
        while n is not None and n not in self.func_of:
            n = self.parent.get(n)
        return self.func_of.get(n)

    def where(self, node):
        f = self.enclosing(node)
        return f.qual if f else self.mod_of[node].name

    def loc(self, node):
        f = self.enclosing(node)
        if f:
            return f.loc(node)
        return "%s:%s" % (self.mod_of[node].path, getattr(node, "lineno", 0))

    def ext_name(self, e):
        """Qualified external name of an expression ('builtins.x' included) or ''."""
        for a in sorted(self.T.atoms(e), key=str):
            if a[0] == "X":
                return a[1]
        if any(a[0] != "nm" for a in self.T.atoms(e)):
            return ""
        n = e
        while isinstance(n, ast.Attribute):
            n = n.value
        if isinstance(n, ast.Name):
            f = self.enclosing(e)
            if f is not None and (n.id in f.all_params() or any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store)
                                                                for x in ast.walk(f.node))):
                return ""
            r = self.prog.resolve_expr(self.mod_of[e], e)
            if isinstance(r, tuple) and r[0] == "ext":
                return r[1]
        return ""

    def name_loads(self, node, name):
        f = self.enclosing(node)
        body = f.node if f else self.mod_of[node].tree
        return [n for n in ast.walk(body) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]


# ---------------------------------------------------------------- hashes of elements
def hash_kind(S, atoms, seen=()):
    """'' if the hash of every possible element is a function of the inputs, otherwise why not."""
    T = S.T
    for a in sorted(atoms, key=str):
        if a in seen:
            continue
        if a == STR and NUM not in atoms:
            return "texts (hash depends on the process)"
        if a[0] == "tp" and not any(b[0] == "I" for b in atoms):     # objects and tuples in one set: the union of types is not exact
            k = hash_kind(S, T.elem({a}), seen + (a,))
            if k:
                return k
        if a[0] == "I":
            k = inst_hash(S, a[1], seen + (a,))
            if k:
                return k
        if a[0] in ("F", "LAM", "C", "B", "M"):
            return "functions or classes (hash is an address)"
    return ""


def inst_hash(S, cq, seen):
    c = S.prog.classes[cq]
    h = S.prog.find_method(c, "__hash__")
    own, ext = S.prog.mro(c)
    if h is None:
        if any("IntEnum" in x or "IntFlag" in x for x in ext):
            return ""
        if any("Enum" in x for x in ext):
            return "members of %s (hash of a text)" % c.name
        if any(x.split(".")[-1] in ("int", "float", "tuple", "frozenset") for x in ext):
            return ""
        return "instances of %s (hash is an address)" % c.name
    if h.cls is not None and h.cls.qual in S.addr_hash:
        return "instances of %s (hash is an address)" % c.name
    for r in ast.walk(h.node):
        if isinstance(r, ast.Return) and r.value is not None:
            for n in ast.walk(r.value):
                if isinstance(n, ast.Call):
                    nm = S.ext_name(n.func)
                    if nm in ("builtins.id", "id"):
                        return "instances of %s (hash is an address)" % c.name
                    if isinstance(n.func, ast.Attribute) and n.func.attr == "__hash__":
                        v = n.func.value
                        sup = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super"
                        rest = own[own.index(h.cls) + 1:] if h.cls in own else []
                        if nm.endswith("object.__hash__") or (sup and not any("__hash__" in (x.name for x in k.node.body if isinstance(x, ast.FunctionDef))
                                                                              for k in rest) and not [x for x in ext if x.split(".")[-1] != "object"]):
                            return "instances of %s (hash is an address)" % c.name
                    if nm in ("builtins.hash", "hash") and n.args:
                        k = hash_kind(S, S.T.atoms(n.args[0]), seen)
                        if k:
                            return k
    return ""


# ---------------------------------------------------------------- order of sets
def set_sites(S, e):
    return {a for a in S.T.atoms(e) if a[0] == "st"}


def orders(S):
    """(expression, how) of every place that consumes an iterable in its order."""
    for m in S.prog.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.For, ast.AsyncFor)):
                if not commutes(S, n):
                    yield n.iter, "the loop"
            elif isinstance(n, (ast.ListComp, ast.DictComp, ast.GeneratorExp)):
                p = S.parent.get(n)
                if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and orderless_call(S, p, n):
                    continue
                for g in n.generators:
                    yield g.iter, "the comprehension"
            elif isinstance(n, ast.Call):
                f = n.func
                nm = S.ext_name(f).split(".")[-1]
                if isinstance(f, ast.Attribute) and f.attr == "pop" and not n.args:
                    yield f.value, "pop"
                if isinstance(f, ast.Attribute) and f.attr in ("extend", "join") and n.args:
                    yield n.args[0], f.attr
                if isinstance(f, ast.Attribute) and f.attr == "fromkeys" and n.args:
                    yield n.args[0], "fromkeys"
                if nm in ("list", "tuple", "enumerate", "zip", "iter", "map", "filter", "array", "asarray", "fromiter", "reversed", "deque",
                          "next", "chain", "reduce", "from_iterable", "OrderedDict", "fsum") or (nm == "sum" and len(n.args) > 1):
                    if not orderless_call(S, S.parent.get(n), n):
                        for x in n.args:
                            yield x.value if isinstance(x, ast.Starred) else x, nm
                else:
                    for x in n.args:
                        if isinstance(x, ast.Starred) and nm not in ORDERLESS and not commuting_star(f):
                            yield x.value, "the argument list"
            elif isinstance(n, ast.YieldFrom):
                yield n.value, "yield from"
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)) and len(n.targets[0].elts) > 1:
                yield n.value, "unpacking"
            elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load):
                for x in n.elts:
                    if isinstance(x, ast.Starred):
                        yield x.value, "the display"


def commuting_star(f):
    return isinstance(f, ast.Attribute) and f.attr in ("union", "intersection", "update", "difference")


def orderless_call(S, p, arg):
    """The consumer of the sequence does not see its order."""
    if isinstance(p, ast.Call) and arg in p.args:
        nm = S.ext_name(p.func).split(".")[-1]
        if nm in ORDERLESS and nm not in ("print", "repr") or nm in ("sum", "Counter", "unique", "sort"):
            return nm != "sum" or True
        if isinstance(p.func, ast.Attribute) and p.func.attr in MEMBER and set_sites(S, p.func.value):
            return True
        if logs(S.ext_name(p.func), p):
            return True
        if isinstance(p.func, ast.Attribute) and p.func.attr == "format":
            return diagnostic(S, p)
    if isinstance(p, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops) and arg in p.comparators:
        return True
    if isinstance(p, (ast.Assert,)):
        return True
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.value is arg:
        # only used in ways that do not see the order
        uses = S.name_loads(p, p.targets[0].id)
        return bool(uses) and all(name_use_orderless(S, u) for u in uses)
    return diagnostic(S, arg)


def name_use_orderless(S, u):
    p = S.parent.get(u)
    if isinstance(p, ast.Call) and u in p.args:
        return S.ext_name(p.func).split(".")[-1] in ORDERLESS
    if isinstance(p, ast.Compare):
        return all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops) and u in p.comparators
    if isinstance(p, ast.Attribute) and p.attr == "sort":
        return True
    if isinstance(p, (ast.For,)) and p.iter is u:
        return commutes(S, p)
    # a name that is sorted in place first
    return any(isinstance(S.parent.get(x), ast.Attribute) and S.parent[x].attr == "sort" for x in S.name_loads(u, u.id))


def diagnostic(S, n):
    """The value only appears in a message: an exception, an assertion, a log, a repr method."""
    f = S.enclosing(n)
    if f is not None and f.name in ("__repr__", "__str__", "print", "_print"):
        return True
    while n is not None and not isinstance(n, ast.stmt):
        p = S.parent.get(n)
        if isinstance(p, ast.Call) and n is not p.func:
            nm = S.ext_name(p.func)
            if logs(nm, p):
                return True
        if isinstance(p, ast.Assert) and n is p.msg:
            return True
        n = p
    return isinstance(n, ast.Raise)


def logs(nm, call):
    """A call that only reports progress (printing to a given stream makes a result)."""
    if nm in ("print", "builtins.print"):
        for k in call.keywords:
            if k.arg is None or k.arg == "file" and ast.unparse(k.value) not in ("None", "sys.stderr", "sys.stdout"):
                return False
        return True
    return any(nm == x or (x.endswith(".") and nm.startswith(x)) for x in LOGGING)


def effectful(S, e):
    """Calls within an expression that modify an object or write a stream: their order is a result."""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            for q in S.T.callees.get(n, ()):
                sm = S.own.sum.get(q if isinstance(q, str) else q.qual)
                if sm is not None and sm.mod and not q.endswith(".__init__"):
                    return True
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "popleft", "appendleft", "write"):
                return True
    return False


def commutes(S, loop):
    """Iterations of the loop do not depend on each other and leave no order behind."""
    rets = set()
    names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    local = set(names)

    def ok(st):
        if isinstance(st, (ast.Pass, ast.Assert, ast.Continue, ast.Raise)):
            return True
        if isinstance(st, ast.Return):
            rets.add(ast.dump(st.value) if st.value is not None else "")
            return st.value is None or isinstance(st.value, ast.Constant)
        if isinstance(st, ast.Delete):
            return True
        if isinstance(st, ast.Expr):
            v = st.value
            if isinstance(v, ast.Constant):
                return True
            if isinstance(v, ast.Call):
                if isinstance(v.func, ast.Attribute) and v.func.attr in ("add", "discard", "remove", "update") and set_sites(S, v.func.value):
                    return True
                nm = S.ext_name(v.func)
                return logs(nm, v)
            return False
        if isinstance(st, ast.If):
            return not effectful(S, st.test) and all(ok(x) for x in st.body + st.orelse)
        if isinstance(st, ast.For):
            for x in ast.walk(st.target):
                if isinstance(x, ast.Name):
                    local.add(x.id)
            return all(ok(x) for x in st.body + st.orelse)
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    local.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
                    local.update(x.id for x in t.elts)
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in names:
                    pass
                else:
                    return False
            return not effectful(S, st.value)
        if isinstance(st, ast.AugAssign):
            return isinstance(st.op, (ast.Add, ast.BitOr)) and isinstance(st.value, ast.Constant)
        return False
    if not all(ok(x) for x in loop.body + loop.orelse) or len(rets) > 1:
        return False
    # locals must not be used after the loop
    f = S.enclosing(loop)
    body = f.node if f else S.mod_of[loop].tree
    inside = set(ast.walk(loop))
    for n in ast.walk(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and n not in inside and n.lineno > loop.lineno:
            if not any(isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id == n.id and m not in inside and m.lineno >= loop.lineno
                       and m.lineno <= n.lineno for m in ast.walk(body)):
                return False
    return True


# ---------------------------------------------------------------- taint of sources
def const_key(e):
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
        return repr(e.slice.value)
    return None


class Taint:
    def __init__(self, S):
        self.S = S
        self.seen = set()
        self.marked = {}        # container site -> reason

    def follow(self, node, mild=False):
        """First place where the value of the expression becomes visible, or None. Returns (where node, text)."""
        work = [node]
        self.seen = {node}
        S = self.S

        def push(x):
            if x not in self.seen:
                self.seen.add(x)
                work.append(x)
        while work:
            n = work.pop()
            p = S.parent.get(n)
            if p is None or diagnostic(S, n):
                continue
            if isinstance(p, ast.Compare):
                if all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in p.ops):
                    continue
                return p, "an order comparison"
            if isinstance(p, (ast.Expr, ast.Assert, ast.Raise)):
                continue
            if isinstance(p, ast.Call) and n is p.func:
                push(p)
                continue
            if isinstance(p, ast.keyword):
                c = S.parent.get(p)
                r = self.arg(c, n, p.arg, push)
                if r:
                    return r
                continue
            if isinstance(p, ast.Call):
                r = self.arg(p, n, p.args.index(n), push)
                if r:
                    return r
                continue
            if isinstance(p, ast.Starred):
                push(p)
                continue
            if isinstance(p, ast.Subscript):
                if n is p.slice:
                    self.mark(p.value)
                    at = S.T.atoms(p.value)
                    if at and all(a[0] in ("ls", "np", "tp") for a in at):
                        return p, "an index"
                    continue
                push(p)
                continue
            if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
                ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                for t in ts:
                    if isinstance(t, ast.Name):
                        for u in S.name_loads(p, t.id):
                            push(u)
                    elif isinstance(t, ast.Attribute):
                        for u in S.attr_loads.get(t.attr, ()):
                            if shares(S, u.value, t.value):
                                push(u)
                    elif isinstance(t, ast.Subscript):
                        b = t.value
                        if isinstance(b, ast.Name):
                            for u in S.name_loads(p, b.id):
                                if S.parent.get(u) is not t:
                                    push(u)
                continue
            if isinstance(p, (ast.Return, ast.Yield)):
                f = S.enclosing(n)
                if f is not None and f.name == "__hash__" and f.cls is not None:
                    S.addr_hash.add(f.cls.qual)
                if f is None or f.name in ("__hash__", "__repr__", "__str__"):
                    continue
                cs = S.callers.get(f.qual, ())
                if not cs and not f.name.startswith("_"):
                    return p, "the result of %s" % f.name
                for c in cs:
                    push(c)
                continue
            if isinstance(p, ast.For) and n is p.iter:
                for x in ast.walk(p.target):
                    if isinstance(x, ast.Name):
                        for u in S.name_loads(p, x.id):
                            push(u)
                continue
            if isinstance(p, ast.Attribute):
                push(p)
                continue
            if isinstance(p, ast.Set) or (isinstance(p, ast.Dict) and n in p.keys):
                self.mark(p)
                continue
            if isinstance(p, ast.SetComp) or (isinstance(p, ast.DictComp) and n is p.key):
                self.mark(p)
                continue
            if isinstance(p, (ast.If, ast.While)) and n is p.test:
                continue
            if isinstance(p, (ast.withitem, ast.With)):
                continue
            if isinstance(p, ast.expr):
                push(p)
        return None

    def mark(self, e, kinds=("st", "dc")):
        for a in self.S.T.atoms(e):
            if a[0] in kinds:
                self.marked.setdefault(a, set()).add(const_key(e))

    def keyed(self, e):
        """The enumerated container is certainly one keyed by a source."""
        at = {a for a in self.S.T.atoms(e) if a[0] in ("st", "dc", "ls", "tp")}
        k = const_key(e)
        ms = [self.marked[a] for a in at if a in self.marked]
        if not ms:
            return False
        if k is not None and all(None not in m for m in ms):
            return any(k in m for m in ms)
        return all(a in self.marked for a in at)

    def arg(self, call, n, pos, push):
        S = self.S
        f = call.func
        own = S.T.callees.get(call, ())
        for q in sorted(q if isinstance(q, str) else q.qual for q in own):
            g = S.prog.funcs.get(q)
            if g is None:
                continue
            ps = g.pos_params()
            if isinstance(pos, int):
                k = pos + (1 if g.cls is not None and not g.deco_is(S.prog, "builtins.staticmethod") else 0)
                name = ps[k] if k < len(ps) else None
            else:
                name = pos
            if name:
                for u in ast.walk(g.node):
                    if isinstance(u, ast.Name) and u.id == name and isinstance(u.ctx, ast.Load):
                        push(u)
        if own:
            return None
        for a in sorted(S.T.atoms(f), key=str):
            if a[0] == "C" and S.prog.find_method(S.prog.classes[a[1]], "__init__") is None:
                fields = [b.target.id for k in reversed(S.prog.mro(S.prog.classes[a[1]])[0]) for b in k.node.body
                          if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
                name = (fields[pos] if pos < len(fields) else None) if isinstance(pos, int) else pos
                for u in S.attr_loads.get(name, ()):
                    if not S.T.inst_classes(u.value) or a[1] in S.T.inst_classes(u.value):
                        push(u)
                return None
        nm = S.ext_name(f)
        if logs(nm, call):
            return None
        if isinstance(f, ast.Attribute):
            if f.attr in MEMBER:
                self.mark(f.value, ("st",) if f.attr in ("add", "discard", "remove") else ("dc", "st"))
                return None
            if f.attr in ("append", "extend", "insert"):
                b = f.value
                if isinstance(b, ast.Name):
                    for u in S.name_loads(call, b.id):
                        if S.parent.get(u) is not f:
                            push(u)
                return None
            if f.attr in ("write", "writelines", "savetxt", "tofile", "dump"):
                return call, "the output of %s" % f.attr
            if f.attr == "format":
                push(call)
                return None
        if nm.startswith("gmsh."):
            return call, "the model (%s)" % nm
        if nm.split(".")[-1] in ("str", "repr", "int", "float", "abs", "round", "list", "tuple", "array", "hash", "asarray", "reversed", "enumerate", "zip",
                                 "min", "max", "sum", "sorted"):
            if nm.split(".")[-1] == "sorted" and getattr(self, "order_only", False):
                return None
            push(call)
            return None
        if nm.split(".")[-1] in ("bool", "len", "isinstance", "set", "frozenset", "dict"):
            return None
        return None


def shares(S, a, b):
    """The two objects may be the same class."""
    x, y = S.T.inst_classes(a), S.T.inst_classes(b)
    return not x or not y or bool(x & y)


def sources(S):
    for m in sorted(S.prog.mods.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                nm = S.ext_name(n.func)
                short = nm[9:] if nm.startswith("builtins.") else nm
                if short == "id" and len(n.args) == 1:
                    yield n, "an address (id)", "id"
                elif short == "hash" and len(n.args) == 1:
                    why = hash_kind(S, S.T.atoms(n.args[0]))
                    f = S.enclosing(n)
                    if why and not (f is not None and f.name == "__hash__"):
                        yield n, "a hash of " + why, "hash"
                elif any(nm == x or nm.startswith(x + ".") for x in LISTING):
                    p = S.parent.get(n)
                    if not orderless_call(S, p, n):
                        yield n, "a directory listing", "listing"
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ("iterdir", "glob", "rglob") and not S.T.callees.get(n) and not n.keywords \
                        and not S.T.inst_classes(n.func.value):
                    p = S.parent.get(n)
                    if not orderless_call(S, p, n):
                        yield n, "a directory listing", "listing"
                elif nm in HARMLESS:
                    continue
                elif any(nm == x or (x.endswith(".") and nm.startswith(x)) for x in SOURCES + CONCURRENT):
                    yield n, nm, nm
                elif short in ("str", "repr", "format") and len(n.args) == 1 and bare_repr(S, n.args[0]):
                    yield n, "the address shown by the default text of " + bare_repr(S, n.args[0]), "repr"
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "format" and S.T.atoms(n.func.value) <= {STR} and S.T.atoms(n.func.value):
                    for x in n.args:
                        if bare_repr(S, x):
                            yield n, "the address shown by the default text of " + bare_repr(S, x), "repr"
                            break
                # functions used as keys
                for k in n.keywords:
                    if k.arg == "key" and S.ext_name(k.value) in ("builtins.id", "builtins.hash"):
                        yield n, "a sort by %s" % S.ext_name(k.value), "key"
                for x in n.args:
                    if S.ext_name(x) in ("builtins.id",):
                        yield n, "an address (id)", "id"
            elif isinstance(n, ast.FormattedValue) and bare_repr(S, n.value):
                yield n, "the address shown by the default text of " + bare_repr(S, n.value), "repr"
            elif isinstance(n, ast.Subscript) and S.ext_name(n.value) == "os.environ" and isinstance(n.ctx, ast.Load):
                yield n, "os.environ", "os.environ"


def bare_repr(S, e):
    """Name of an own class whose instance e is certainly, without a text of its own."""
    at = S.T.atoms(e)
    if not at or any(a[0] != "I" for a in at):
        return ""
    for a in at:
        c = S.prog.classes[a[1]]
        own, ext = S.prog.mro(c)
        if S.prog.find_method(c, "__repr__") or S.prog.find_method(c, "__str__"):
            return ""
        if any(x.split(".")[-1] not in ("object", "ABC") for x in ext):
            return ""
        if any(d for k in own for d in k.node.decorator_list):
            return ""
    return sorted(S.prog.classes[a[1]].name for a in at)[0]


def empties(ctx, S):
    """Arrays created without initial values are completely filled before use."""
    for m in sorted(S.prog.mods.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and S.ext_name(n.func) in ("numpy.empty", "numpy.empty_like", "numpy.ndarray"):
                p = S.parent.get(n)
                cons = "%s" % S.where(n)
                ctx.saw("uninitialised array", cons)
                if not isinstance(p, ast.Assign) or not isinstance(p.targets[0], ast.Name):
                    if isinstance(p, (ast.Return, ast.Expr)):
                        ctx.check(isinstance(p, ast.Expr), "uninit", cons, "an uninitialised array is returned", S.loc(n))
                    continue
                r = filled(S, n, p)
                if r is not None:
                    ctx.check(not r, "uninit", cons, r, S.loc(n))


def filled(S, call, assign):
    """'' if all cells are assigned, a text if certainly not, None if unknown."""
    name = assign.targets[0].id
    f = S.enclosing(call)
    body = f.node if f else S.mod_of[call].tree
    stores = []
    for n in ast.walk(body):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
            stores.append(n.slice)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and n.attr in ("fill",):
            return ""
        if isinstance(n, ast.keyword) and n.arg == "out":
            return None
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in n.args):
            if not stores:
                return None
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Subscript) and \
                any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.value)):
            return None
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return "the uninitialised array %s is accumulated into" % name
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            return None
        if isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.iter)):
            return None
    if not stores:
        return "the uninitialised array %s is never filled" % name
    if S.ext_name(call.func) != "numpy.empty" or not call.args:
        return None
    try:
        shape = ast.literal_eval(call.args[0])
    except ValueError:
        shape = None
        if isinstance(call.args[0], ast.Tuple):
            shape = []
            for x in call.args[0].elts:
                shape.append(x.value if isinstance(x, ast.Constant) else None)
        else:
            return None
    shape = list(shape) if isinstance(shape, (tuple, list)) else [shape]
    if len(shape) > 3:
        return None
    import itertools
    dims = [range(s) if isinstance(s, int) and s <= 16 else [None] for s in shape]
    cells = set(itertools.product(*dims))
    for s in stores:
        idx = list(s.elts) if isinstance(s, ast.Tuple) else [s]
        sel = []
        for k, d in enumerate(dims):
            if k >= len(idx):
                sel.append(list(d))
                continue
            i = idx[k]
            n = shape[k]
            if isinstance(i, ast.Slice):
                lo, hi, st = [const_int(x) for x in (i.lower, i.upper, i.step)]
                if "?" in (lo, hi, st):
                    return None
                if n is None or d == [None]:
                    if lo in (None, 0) and hi is None and st in (None, 1):
                        sel.append([None])
                        continue
                    return None
                sel.append(list(range(n))[slice(lo, hi, st)])
            else:
                c = const_int(i)
                if not isinstance(c, int) or d == [None]:
                    return None
                sel.append([c % n])
        cells -= set(itertools.product(*sel))
    return "the elements %s of the uninitialised array %s are not assigned" % (sorted(cells, key=str)[:4], name) if cells else ""


def const_int(e):
    if e is None:
        return None
    try:
        v = ast.literal_eval(e)
    except ValueError:
        return "?"
    return v if isinstance(v, int) else "?"


def run(ctx):
    ctx.rule("source", "no clock, random number, environment, address or listing order reaches a result, a file or the model")
    ctx.rule("order", "a set is consumed in its iteration order only if the hashes of its elements are functions of the inputs")
    ctx.rule("uninit", "arrays created without values are filled")
    S = Prog(ctx)
    tn = Taint(S)
    addr = []
    for n, what, kind in sources(S):
        cons = "%s/%s" % (S.where(n), kind)
        ctx.saw("source", cons)
        if diagnostic(S, n):
            ctx.ok("source", cons)
            continue
        if kind == "key":
            ctx.bad("source", cons, "the order depends on %s" % what, S.loc(n))
            continue
        r = tn.follow(n)
        ctx.check(r is None, "source", cons, "%s reaches %s in %s" % (what, r[1] if r else "", S.where(r[0]) if r else ""), S.loc(n))
    for e, how in orders(S):
        at = S.T.atoms(e)
        sites = {a for a in at if a[0] == "st"}
        ad = tn.keyed(e)
        if not sites and not ad:
            continue
        cons = "%s/%s" % (S.where(e), ast.unparse(e)[:60])
        ctx.saw("consumed set", cons)
        if diagnostic(S, e):
            ctx.ok("order", cons)
            continue
        if ad:
            ctx.bad("order", cons, "%s enumerates a container keyed by values that change from run to run" % how, S.loc(e))
            continue
        why = hash_kind(S, S.T.elem(sites))
        ctx.check(not why, "order", cons, "%s consumes a set of %s in its iteration order" % (how, why), S.loc(e))
    empties(ctx, S)
    ctx.saw("hash", "classes with own hash: %s" % ", ".join(sorted(c.name for c in ctx.prog.classes.values() if ctx.prog.find_method(c, "__hash__"))))
    ctx.expect("consumed set", 6)
