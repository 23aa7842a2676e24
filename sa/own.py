"""Interprocedural ownership analysis: which parts of its parameters a function modifies, returns or stores.

Locations:  ('P', parameter, path)  part of a parameter;  ('N', site)  object created in the function;
            ('G', name, path)  module variable.       path: steps '.field' or '[]' (element / view).
A value is a frozenset of locations (empty: an immutable or unrelated object).
The walk is flow sensitive; the contents of created objects are kept in a heap (location, step) -> value.
Functions are summarised (modified parts, returned parts, stored parts) and the summaries iterated to a fixed point.
"""
import ast

MAXP = 4
EMPTY = frozenset()
MUT_METHODS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "setdefault",
               "popitem", "fill", "resize", "itemset", "put", "partition", "appendleft", "popleft", "intersection_update",
               "difference_update", "symmetric_difference_update", "setflags", "byteswap_inplace", "extendleft", "rotate"}
ADDING = {"append": 0, "add": 0, "insert": 1, "appendleft": 0, "setdefault": 1}
VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "diagonal"}
VIEW_FUNCS = {"numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d", "numpy.ravel",
              "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.swapaxes", "numpy.moveaxis", "numpy.rollaxis",
              "numpy.broadcast_to", "numpy.ascontiguousarray", "numpy.asfarray", "numpy.expand_dims", "numpy.flip", "numpy.flipud",
              "numpy.fliplr", "numpy.diagonal", "numpy.real", "numpy.imag", "numpy.split", "numpy.hsplit", "numpy.vsplit",
              "numpy.array_split", "numpy.broadcast_arrays", "typing.cast"}
ELEM_FUNCS = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.reversed",
              "builtins.iter", "builtins.filter", "collections.deque", "itertools.chain", "itertools.cycle", "itertools.islice",
              "builtins.dict", "collections.OrderedDict", "copy.copy", "itertools.takewhile", "itertools.dropwhile"}
ONE_OF = {"builtins.min", "builtins.max", "builtins.next", "builtins.getattr"}
MUT_FUNCS = {"numpy.copyto": 0, "numpy.put": 0, "numpy.fill_diagonal": 0, "numpy.place": 0, "numpy.putmask": 0,
             "random.shuffle": 0, "numpy.random.shuffle": 0, "heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapify": 0,
             "bisect.insort": 0, "builtins.setattr": 0, "builtins.delattr": 0, "numpy.ndarray.sort": 0,
             "numpy.put_along_axis": 0}
SCALAR = {"num", "str", "None", "bool"}


class Summary:
    def __init__(self):
        self.mod = {}        # (location, 'in' object modified / 'set' field replaced) -> (func qual, node, how)
        self.ret = frozenset()      # (path, location)
        self.stores = frozenset()   # (dst location, src location)

    def key(self):
        return frozenset(self.mod), self.ret, self.stores


class Own:
    def __init__(self, prog, types):
        self.prog, self.T = prog, types
        self.sum = {}
        self.rounds = 0
        self.calls = {}     # qual -> {call id: binding of the parameters}
        self.solve()

    def solve(self):
        fs = [f for f in self.prog.funcs.values() if isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef))]
        for f in fs:
            self.sum[f.qual] = Summary()
        for r in range(25):
            self.rounds = r + 1
            changed = False
            for f in fs:
                s = Walk(self, f).run()
                if s.key() != self.sum[f.qual].key():
                    changed = True
                    self.sum[f.qual] = s
            if not changed:
                break


def ext(loc, step):
    """Part of a location."""
    if loc[0] == "N":
        return loc
    path = loc[2]
    if len(path) >= MAXP or (path and path[-1] == "*"):
        return (loc[0], loc[1], path if path and path[-1] == "*" else path[:MAXP - 1] + ("*",))
    return (loc[0], loc[1], path + (step,))


class Env:
    __slots__ = ("vars", "heap")

    def __init__(self, vars=None, heap=None):
        self.vars = vars or {}
        self.heap = heap or {}

    def copy(self):
        return Env(dict(self.vars), dict(self.heap))

    def same(self, o):
        return self.vars == o.vars and self.heap == o.heap


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = Env()
    for k in set(a.vars) | set(b.vars):
        out.vars[k] = a.vars.get(k, EMPTY) | b.vars.get(k, EMPTY)
    for k in set(a.heap) | set(b.heap):
        va, vb = a.heap.get(k), b.heap.get(k)
        loc, step = k
        if va is None or vb is None:
            other = va if va is not None else vb
            # absent for a parameter part: its original content
            out.heap[k] = other | (frozenset([ext(loc, step)]) if loc[0] != "N" else EMPTY)
        else:
            out.heap[k] = va | vb
    return out


class Walk:
    def __init__(self, own, f):
        self.own, self.f, self.T, self.prog = own, f, own.T, own.prog
        self.s = Summary()
        self.rets = set()
        self.isgen = False
        self.brk, self.cont = [], []
        self.exits = []
        self.why = {}

    # ------------------------------------------------------------ entry
    def run(self):
        a = self.f.node.args
        env = Env()
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            env.vars[x.arg] = frozenset([("P", x.arg, ())])
        if a.vararg:
            n = ("N", ("va", self.f.qual))
            env.vars[a.vararg.arg] = frozenset([n])
            env.heap[(n, "[]")] = frozenset([("P", a.vararg.arg, ("[]",))])
        out = self.block(self.f.node.body, env)
        final = out
        for e in self.exits:
            final = join(final, e)
        self.final = final
        self.s.ret = frozenset(self.rets)
        if final is not None:
            self.s.stores = self.stored(final)
        return self.s

    def stored(self, env):
        """Parts of other parameters kept in a part of a parameter."""
        res = set()
        for (loc, step), v in env.heap.items():
            if loc[0] != "P":
                continue
            dst = ext(loc, step)
            for path, src in self.reach(v, env):
                if src[0] == "P" and (src[1] != loc[1] or True):
                    d = dst
                    for st in path:
                        d = ext(d, st)
                    if src != d:
                        res.add((d, src))
        return frozenset(res)

    def reach(self, v, env, depth=2):
        out = set()
        seen = set()

        def go(v, path, d):
            for l in v:
                if l[0] == "N":
                    if (l, path) in seen:
                        continue
                    seen.add((l, path))
                    if d > 0:
                        for (l2, st), w in env.heap.items():
                            if l2 == l:
                                go(w, path + (st,), d - 1)
                else:
                    out.add((path, l))
        go(v, (), depth)
        return out

    # ------------------------------------------------------------ heap
    def part(self, v, step, env):
        out = set()
        for l in v:
            k = (l, step)
            if k in env.heap:
                out |= env.heap[k]
            elif l[0] == "N":
                if step != "[]" and (l, "[]") in env.heap and False:
                    pass
            else:
                out.add(ext(l, step))
        return frozenset(out)

    def store(self, v, step, val, env, strong=True):
        strong = strong and len(v) == 1 and step != "[]"
        for l in v:
            k = (l, step)
            if strong:
                env.heap[k] = val
            else:
                old = env.heap.get(k)
                if old is None:
                    old = EMPTY if l[0] == "N" else frozenset([ext(l, step)])
                env.heap[k] = old | val

    def modify(self, v, node, how):
        """The objects v themselves are modified (elements, content)."""
        for l in v:
            if l[0] != "N":
                self.s.mod.setdefault((l, "in"), (self.f.qual, node, how))

    def modset(self, v, node, how):
        """The fields at the locations v get another value."""
        for l in v:
            if l[0] != "N":
                self.s.mod.setdefault((l, "set"), (self.f.qual, node, how))

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    def stmt(self, st, env):
        k = type(st).__name__
        if k == "Expr":
            self.ev(st.value, env)
        elif k == "Assign":
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env, st.value)
        elif k == "AnnAssign":
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env, st.value)
        elif k == "AugAssign":
            v = self.ev(st.value, env)
            t = st.target
            if isinstance(t, ast.Name):
                cur = env.vars.get(t.id, EMPTY)
                if self.inplace(t, st):
                    self.modify(cur, st, "augmented")
                    if isinstance(st.op, ast.Add):
                        self.store(cur, "[]", self.part(v, "[]", env), env, False)
                else:
                    env.vars[t.id] = EMPTY if self.scalar(t) else EMPTY
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, env)
                cur = self.part(b, "." + t.attr, env)
                self.modset(self.parts(b, "." + t.attr), st, "." + t.attr)
                if self.inplace(t, st):
                    self.modify(cur, st, "augmented")
                else:
                    self.store(b, "." + t.attr, EMPTY, env)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, env)
                self.ev(t.slice, env)
                self.modify(b, st, "element augmented")
                if self.inplace(t, st):
                    self.modify(self.part(b, "[]", env), st, "augmented")
        elif k in ("For", "AsyncFor"):
            it = self.ev(st.iter, env)
            env0 = self.loop(st, env, lambda e: self.assign(st.target, self.elements(st.iter, it, e), e, None))
            return env0
        elif k == "While":
            return self.loop(st, env, lambda e: self.ev(st.test, e))
        elif k == "If":
            self.ev(st.test, env)
            a = self.block(st.body, env.copy())
            b = self.block(st.orelse, env)
            return join(a, b)
        elif k in ("With", "AsyncWith"):
            for it in st.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, None)
            return self.block(st.body, env)
        elif k == "Try":
            before = env.copy()
            out = self.block(st.body, env)
            mid = join(before, out.copy() if out is not None else None)
            res = self.block(st.orelse, out) if out is not None else None
            for h in st.handlers:
                res = join(res, self.block(h.body, mid.copy()))
            if st.finalbody:
                res2 = self.block(st.finalbody, (res or mid).copy())
                res = res2 if res is not None else None
            return res
        elif k == "Return":
            if st.value is not None:
                v = self.ev(st.value, env)
                if not self.isgen:
                    self.rets |= self.reach(v, env)
                    self.note(st.value, v)
            self.exits.append(env)
            return None
        elif k == "Raise":
            if st.exc is not None:
                self.ev(st.exc, env)
            self.exits.append(env)
            return None
        elif k == "Break":
            if self.brk:
                self.brk[-1].append(env)
            return None
        elif k == "Continue":
            if self.cont:
                self.cont[-1].append(env)
            return None
        elif k == "Delete":
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.modify(self.ev(t.value, env), st, "element deleted")
                elif isinstance(t, ast.Attribute):
                    self.modset(self.parts(self.ev(t.value, env), "." + t.attr), st, "." + t.attr)
                elif isinstance(t, ast.Name):
                    env.vars.pop(t.id, None)
        elif k == "Assert":
            self.ev(st.test, env)
        elif k in ("FunctionDef", "AsyncFunctionDef", "ClassDef"):
            env.vars[st.name] = EMPTY
        return env

    def note(self, node, v):
        pass

    def loop(self, st, env, head):
        out = None
        cur = env
        for i in range(4):
            self.brk.append([])
            self.cont.append([])
            e = cur.copy()
            head(e)
            skip = e.copy()
            b = self.block(st.body, e)
            brk, cont = self.brk.pop(), self.cont.pop()
            for c in cont:
                b = join(b, c)
            for c in brk:
                out = join(out, c)
            nxt = join(cur, b)
            if nxt.same(cur):
                break
            cur = nxt
        res = cur.copy()
        head(res) if isinstance(st, ast.While) else None
        if st.orelse:
            res = self.block(st.orelse, res)
        return join(res, out)

    def assign(self, t, v, env, src):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in src.elts):
                vals = [self.cache.get(id(x), None) if hasattr(self, "cache") else None for x in src.elts]
                for x, y, val in zip(t.elts, src.elts, vals):
                    self.assign(x, val if val is not None else self.ev(y, env), env, y)
                return
            for i, x in enumerate(t.elts):
                self.assign(x, self.nth(v, i, env), env, None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.modset(self.parts(b, "." + t.attr), t, "." + t.attr)
            self.store(b, "." + t.attr, v, env)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.modify(b, t, "element set")
            if not self.only(t.value, {"np"}):
                self.store(b, "[]", v, env, False)

    def nth(self, v, i, env):
        out = set()
        for l in v:
            k = (l, "#%d" % i)
            if k in env.heap:
                out |= env.heap[k]
            else:
                out |= self.part(frozenset([l]), "[]", env)
        return frozenset(out)

    def parts(self, v, step):
        return frozenset(ext(l, step) for l in v if l[0] != "N")

    # ------------------------------------------------------------ types
    def kinds(self, node):
        return {a[0] for a in self.T.atoms(node)}

    def only(self, node, ks):
        k = self.kinds(node)
        return bool(k) and k <= ks

    def scalar(self, node):
        return self.only(node, SCALAR)

    def inplace(self, t, st):
        """Does an augmented assignment change the object in place?"""
        k = self.kinds(t)
        kv = self.kinds(st.value)
        if k and not (k & {"np", "ls", "st", "dc", "I", "?", "XI"}):
            return False
        if k and k <= {"I"}:
            return any(self.prog.find_method(self.prog.classes[a[1]], "__iadd__") for a in self.T.atoms(t) if a[0] == "I" and a[1] in self.prog.classes)
        if not k:
            # unknown operand: arrays are changed in place, numbers are not
            return bool(kv & {"np", "ls", "st"}) or self.arraylike(t)
        return True

    def arraylike(self, t):
        """Is the value of unknown type used as an array in this function?"""
        if not hasattr(self.f, "_arraylike"):
            s = set()
            for x in ast.walk(self.f.node):
                if isinstance(x, ast.Attribute) and x.attr in ("shape", "T", "ndim", "dtype", "reshape", "mean", "ravel"):
                    s.add(ast.dump(x.value).replace("Store()", "Load()"))
                elif isinstance(x, ast.Subscript) and (isinstance(x.slice, ast.Tuple) and any(isinstance(y, ast.Slice) for y in x.slice.elts)):
                    s.add(ast.dump(x.value).replace("Store()", "Load()"))
            self.f._arraylike = s
        return ast.dump(t).replace("Store()", "Load()") in self.f._arraylike

    def elements(self, node, it, env):
        k = self.kinds(node)
        if isinstance(node, ast.Call):
            q = {a[1] for a in self.T.atoms(node.func) if a[0] == "X"}
            if q & {"builtins.range"}:
                return EMPTY
        return self.part(it, "[]", env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        v = self._ev(e, env)
        if v and self.scalar(e):
            v = EMPTY
        if not hasattr(self, "cache"):
            self.cache = {}
        self.cache[id(e)] = v
        return v

    def new(self, e, env, elems=EMPTY):
        l = ("N", id(e))
        v = frozenset([l])
        if elems:
            self.store(v, "[]", elems, env, False)
        return v

    def _ev(self, e, env):
        k = type(e).__name__
        if k == "Name":
            if e.id in env.vars:
                return env.vars[e.id]
            if any(a[0] in ("ls", "dc", "st", "np", "I") for a in self.T.atoms(e)) and e.id not in self.locals():
                return frozenset([("G", e.id, ())])
            return EMPTY
        if k == "Constant":
            return EMPTY
        if k == "Attribute":
            b = self.ev(e.value, env)
            qs = [q for q in self.T.callees.get(e, ()) if isinstance(q, str) or hasattr(q, "qual")]
            if qs:
                out = set()
                for q in qs:
                    out |= self.apply(q, {"self": b}, e, env, selfonly=b)
                return frozenset(out)
            if e.attr == "T":
                return b
            if e.attr in ("real", "imag", "flat"):
                return b
            if not b:
                return EMPTY
            return self.part(b, "." + e.attr, env)
        if k == "Subscript":
            b = self.ev(e.value, env)
            if e.slice is not None:
                self.ev(e.slice, env)
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value >= 0:
                return self.nth(b, e.slice.value, env)
            if isinstance(e.slice, ast.Slice):
                if self.only(e.value, {"ls", "tp", "str", "None"}):
                    return self.new(e, env, self.part(b, "[]", env))
                return b
            if isinstance(e.slice, ast.Tuple):
                if any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value in (None, Ellipsis) for x in e.slice.elts):
                    if any(self.kinds(x) & {"np", "ls"} and not self.kinds(x) & {"num"} for x in e.slice.elts if not isinstance(x, ast.Slice)):
                        return EMPTY
                    return b
                return self.part(b, "[]", env) if not self.only(e.value, {"np"}) else EMPTY
            ks = self.kinds(e.slice)
            if ks and ks <= {"np", "ls"} and self.kinds(e.value) & {"np"}:
                return EMPTY        # fancy index: a copy
            return self.part(b, "[]", env)
        if k in ("Tuple", "List", "Set"):
            l = ("N", id(e))
            v = frozenset([l])
            star = any(isinstance(x, ast.Starred) for x in e.elts)
            for i, x in enumerate(e.elts):
                w = self.ev(x.value, env) if isinstance(x, ast.Starred) else self.ev(x, env)
                if isinstance(x, ast.Starred):
                    w = self.part(w, "[]", env)
                self.store(v, "[]", w, env, False)
                if not star and k == "Tuple":
                    env.heap[(l, "#%d" % i)] = w
            return v
        if k == "Dict":
            v = self.new(e, env)
            for x, y in zip(e.keys, e.values):
                w = self.ev(y, env)
                if x is None:
                    w = self.part(w, "[]", env)
                else:
                    self.ev(x, env)
                self.store(v, "[]", w, env, False)
            return v
        if k in ("ListComp", "SetComp", "GeneratorExp", "DictComp"):
            saved = dict(env.vars)
            for g in e.generators:
                it = self.ev(g.iter, env)
                self.assign(g.target, self.elements(g.iter, it, env), env, None)
                for c in g.ifs:
                    self.ev(c, env)
            w = self.ev(e.value if k == "DictComp" else e.elt, env)
            if k == "DictComp":
                self.ev(e.key, env)
            env.vars = saved
            return self.new(e, env, w)
        if k == "IfExp":
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if k == "BoolOp":
            out = EMPTY
            for x in e.values:
                out |= self.ev(x, env)
            return out
        if k == "NamedExpr":
            v = self.ev(e.value, env)
            self.assign(e.target, v, env, e.value)
            return v
        if k in ("BinOp",):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, ast.Add) and self.kinds(e) & {"ls", "tp"}:
                return self.new(e, env, self.part(a, "[]", env) | self.part(b, "[]", env))
            return EMPTY
        if k in ("UnaryOp",):
            self.ev(e.operand, env)
            return EMPTY
        if k == "Compare":
            self.ev(e.left, env)
            for x in e.comparators:
                self.ev(x, env)
            return EMPTY
        if k in ("Yield", "YieldFrom"):
            self.isgen = True
            if e.value is not None:
                v = self.ev(e.value, env)
                if k == "YieldFrom":
                    self.rets |= {p for p in self.reach(v, env)}
                else:
                    for p, l in self.reach(v, env):
                        self.rets.add((("[]",) + p, l))
            return EMPTY
        if k == "Await":
            return self.ev(e.value, env)
        if k == "Starred":
            return self.ev(e.value, env)
        if k == "Call":
            return self.call(e, env)
        if k == "Slice":
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, env)
            return EMPTY
        if k == "JoinedStr":
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value, env)
            return EMPTY
        return EMPTY

    def locals(self):
        if not hasattr(self, "_loc"):
            self._loc = {n.id for n in ast.walk(self.f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return self._loc

    # ------------------------------------------------------------ calls
    def call(self, e, env):
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        base = EMPTY
        if isinstance(e.func, ast.Attribute):
            base = self.ev(e.func.value, env)
        else:
            self.ev(e.func, env)
        atoms = self.T.atoms(e.func)
        ext_names = {a[1] for a in atoms if a[0] == "X"}
        if "out" in kws:
            self.modify(kws["out"], e, "output argument")
        callees = [q for q in self.T.callees.get(e, ())]
        out = set()
        done = False
        for a in atoms:
            if a[0] == "C" and a[1] in self.prog.classes:
                done = True
                m = self.prog.find_method(self.prog.classes[a[1]], "__init__")
                obj = frozenset([("N", id(e))])
                if m is not None:
                    self.apply(m.qual, self.bind(m, e, args, kws, obj), e, env)
                else:
                    # attrs / enum / namedtuple like: keep the arguments
                    for i, x in enumerate(args):
                        self.store(obj, ".#%d" % i, x, env, False)
                    for n, x in kws.items():
                        self.store(obj, "." + str(n), x, env, False)
                out |= obj
        own = []
        for q in callees:
            f = self.prog.funcs.get(q if isinstance(q, str) else q.qual)
            if f is None or f.name == "__init__" and any(a[0] == "C" for a in atoms):
                continue
            own.append(f)
        for f in own:
            done = True
            recv = base
            if f.cls is not None and isinstance(e.func, ast.Attribute) and any(x[0] == "C" for x in self.T.atoms(e.func.value)) and \
                    not any(x[0] == "I" for x in self.T.atoms(e.func.value)) and not self.is_cls(f):
                # Class.method(obj, ...)
                recv = None
            if f.cls is not None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                    isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
                recv = env.vars.get((self.f.pos_params() or ["self"])[0], EMPTY)
            out |= self.apply(f.qual, self.bind(f, e, args, kws, recv), e, env)
        if done:
            return frozenset(out)
        # external
        if isinstance(e.func, ast.Attribute) and not ext_names:
            return self.method(e.func.attr, base, e, args, kws, env)
        if isinstance(e.func, ast.Attribute) and ext_names and all(n.startswith(("numpy.ndarray.", "builtins.list.", "builtins.dict.",
                                                                                "builtins.set.")) for n in ext_names):
            return self.method(e.func.attr, base, e, args, kws, env)
        return self.external(ext_names, e, args, kws, env)

    def is_cls(self, f):
        return any(isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod") for d in f.node.decorator_list)

    def is_static(self, f):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list)

    def bind(self, f, e, args, kws, recv):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        res = {}
        pos = list(names)
        if f.cls is not None and f.parent is None and not self.is_static(f) and recv is not None:
            if pos:
                res[pos.pop(0)] = recv
        i = 0
        for node, v in zip(e.args if isinstance(e, ast.Call) else [], args):
            if isinstance(node, ast.Starred):
                for p in pos[i:]:
                    res[p] = res.get(p, EMPTY) | frozenset(ext(l, "[]") for l in v if l[0] != "N")
                if a.vararg:
                    res.setdefault(a.vararg.arg, EMPTY)
                break
            if i < len(pos):
                res[pos[i]] = v
                i += 1
            elif a.vararg:
                res[("*", a.vararg.arg)] = res.get(("*", a.vararg.arg), EMPTY) | v
        for k, v in kws.items():
            if k is not None:
                res[k] = v
        return res

    def follow(self, binding, loc, env):
        """Caller locations of a callee location."""
        kind, name, path = loc
        if kind == "G":
            return frozenset([loc])
        if ("*", name) in binding and path and path[0] == "[]":
            v, path = binding[("*", name)], path[1:]
        else:
            v = binding.get(name, EMPTY)
        for st in path:
            if st == "*":
                break
            v = self.part(v, st, env)
        return v

    def apply(self, q, binding, e, env, selfonly=None):
        q = q if isinstance(q, str) else q.qual
        f = self.prog.funcs.get(q)
        s = self.own.sum.get(q)
        if f is None or s is None:
            return EMPTY
        if selfonly is not None:
            p = f.pos_params()
            binding = {p[0]: selfonly} if p else {}
        self.own.calls.setdefault(q, {})[id(e)] = binding
        for (loc, mode), (fq, node, how) in s.mod.items():
            kind, name, path = loc
            if kind == "G":
                tgt = (loc,)
            elif mode == "set" and path and path[-1].startswith("."):
                # a set field: the modified location is (object, field)
                own = self.follow(binding, (kind, name, path[:-1]), env)
                tgt = self.parts(own, path[-1])
            else:
                tgt = self.follow(binding, loc, env)
            for l in tgt:
                if l[0] != "N":
                    self.s.mod.setdefault((l, mode), (fq, node, how))
        for dst, src in s.stores:
            kind, name, path = dst
            own = self.follow(binding, (kind, name, path[:-1]), env) if path else EMPTY
            if own and path:
                self.store(own, path[-1], self.follow(binding, src, env), env, False)
        out = set()
        byp = {}
        for path, loc in s.ret:
            v = self.follow(binding, loc, env)
            if not path:
                out |= v
            else:
                byp.setdefault(path, set()).update(v)
        if byp or (not out):
            site = ("N", id(e))
            if byp or True:
                out.add(site)
            for path, v in sorted(byp.items(), key=lambda x: len(x[0])):
                cur = frozenset([site])
                for i, st in enumerate(path[:-1]):
                    nl = ("N", (id(e), path[:i + 1]))
                    self.store(cur, st, frozenset([nl]), env, False)
                    cur = frozenset([nl])
                self.store(cur, path[-1], frozenset(v), env, False)
        return frozenset(out)

    def method(self, name, base, e, args, kws, env):
        if name in MUT_METHODS:
            if not (name in ("pop", "update", "put", "resize", "sort", "add", "remove", "clear", "fill") and self.foreign(e.func.value)):
                self.modify(base, e, name)
                if name in ADDING and len(args) > ADDING[name]:
                    self.store(base, "[]", args[ADDING[name]], env, False)
                elif name in ("extend", "update") and args:
                    self.store(base, "[]", self.part(args[0], "[]", env), env, False)
            if name in ("pop", "setdefault", "popitem", "popleft"):
                r = self.part(base, "[]", env)
                if name in ("pop", "setdefault") and len(args) > 1:
                    r = r | args[1]
                return r
            return EMPTY
        if name in ("get", "__getitem__"):
            r = self.part(base, "[]", env)
            if len(args) > 1:
                r = r | args[1]
            return r
        if name == "copy":
            if self.kinds(e.func.value) & {"ls", "dc", "st"}:
                return self.new(e, env, self.part(base, "[]", env))
            return EMPTY
        if name in ("values", "keys"):
            return self.new(e, env, self.part(base, "[]", env)) if name == "values" else EMPTY
        if name == "items":
            v = self.new(e, env)
            pair = ("N", (id(e), "pair"))
            self.store(v, "[]", frozenset([pair]), env, False)
            env.heap[(pair, "#0")] = EMPTY
            env.heap[(pair, "#1")] = self.part(base, "[]", env)
            env.heap[(pair, "[]")] = env.heap[(pair, "#1")]
            return v
        if name in VIEW_METHODS:
            return base
        if name == "astype":
            c = [k.value for k in e.keywords if k.arg == "copy"]
            return base if c and isinstance(c[0], ast.Constant) and c[0].value is False else EMPTY
        if name in ("union", "intersection", "difference"):
            return self.new(e, env, self.part(base, "[]", env))
        return EMPTY

    def foreign(self, node):
        """Object of a foreign library (not a container)."""
        k = self.kinds(node)
        return bool(k) and not (k & {"ls", "dc", "st", "np", "I", "?"})

    def external(self, names, e, args, kws, env):
        if not names and isinstance(e.func, ast.Name):
            names = {"builtins." + e.func.id}
        out = set()
        for n in names:
            if n in MUT_FUNCS and args:
                self.modify(args[MUT_FUNCS[n]], e, n)
            elif n in VIEW_FUNCS and args:
                if n in ("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfarray", "numpy.atleast_1d", "numpy.atleast_2d") \
                        and self.only(e.args[0], {"ls", "tp", "num"}):
                    continue
                out |= args[0]
            elif n in ("numpy.array",) and args:
                c = [k.value for k in e.keywords if k.arg == "copy"]
                if c and not (isinstance(c[0], ast.Constant) and c[0].value is True):
                    if not self.only(e.args[0], {"ls", "tp", "num"}):
                        out |= args[0]
            elif n in ("builtins.zip", "builtins.enumerate", "itertools.product", "itertools.zip_longest"):
                v = self.new(e, env)
                pair = ("N", (id(e), "pair"))
                self.store(v, "[]", frozenset([pair]), env, False)
                if n.endswith("enumerate"):
                    env.heap[(pair, "#0")] = EMPTY
                    env.heap[(pair, "#1")] = self.part(args[0], "[]", env) if args else EMPTY
                    env.heap[(pair, "[]")] = env.heap[(pair, "#1")]
                else:
                    al = EMPTY
                    for i, a in enumerate(args):
                        if isinstance(e.args[i], ast.Starred):
                            w = self.part(self.part(a, "[]", env), "[]", env)
                        else:
                            w = self.part(a, "[]", env)
                            env.heap[(pair, "#%d" % i)] = w
                        al |= w
                    env.heap[(pair, "[]")] = al
                out |= v
            elif n in ELEM_FUNCS:
                w = EMPTY
                for a in args:
                    w |= self.part(a, "[]", env)
                out |= self.new(e, env, w)
            elif n in ONE_OF and args:
                if n == "builtins.getattr":
                    nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
                    out |= self.part(args[0], "." + str(nm), env) if nm else EMPTY
                elif len(args) == 1 or n == "builtins.next":
                    out |= self.part(args[0], "[]", env)
                else:
                    for a in args:
                        out |= a
            elif n == "builtins.map" and len(args) > 1:
                out |= self.new(e, env)
        return frozenset(out)


def show(loc):
    if loc[0] == "N":
        return "new"
    return loc[1] + "".join(st if st.startswith(".") else "[..]" for st in loc[2])
